//go:build go1.21

// Records what segmenters do with texts, together with what their breakers have reported.
package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/internal/zzverif/hlib"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
)

type report struct {
	lam int
	pen []int
}

func (r report) MarshalJSON() ([]byte, error) {
	if r.pen == nil {
		r.pen = []int{}
	}
	s := fmt.Sprintf("[%d,[", r.lam)
	for i, p := range r.pen {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprint(p)
	}
	return []byte(s + "]]"), nil
}

type op struct {
	B    int    `json:"b"`
	Ok   bool   `json:"ok"`
	Seg  []int  `json:"seg"`
	Same bool   `json:"same"`
	P    [2]int `json:"p"`
	Err  string `json:"err"`
}

type obs struct {
	K     string     `json:"k"`
	T     []int      `json:"t"`
	Fail  int        `json:"fail"`
	Max   int        `json:"max"`
	Z     [2]bool    `json:"z"`
	Rep   [][]report `json:"rep"`
	Ops   []op       `json:"ops"`
	Ref   []op       `json:"ref"`  // what a new segmenter answers
	Init  [3]int     `json:"init"` // length of segment and penalties before the first call
	Late  bool       `json:"late"` // a buffer set after the first call has been accepted
	Panic string     `json:"panic"`
	Whole bool       `json:"whole"` // the text has to be delivered completely
}

// scripted is a breaker that reports what it is told to.
type scripted struct {
	script []report
	i      int
	cur    report
}

func (b *scripted) CodePointClassFor(rune) int { return 0 }
func (b *scripted) StartRulesFor(rune, int)    {}
func (b *scripted) ProceedWithRune(rune, int) {
	b.cur = report{}
	if b.i < len(b.script) {
		b.cur = b.script[b.i]
	}
	b.i++
}
func (b *scripted) LongestActiveMatch() int { return b.cur.lam }
func (b *scripted) Penalties() []int        { return append(make([]int, 0, 8), b.cur.pen...) }

// recorder passes everything on to a breaker and takes notes of what it reports.
type recorder struct {
	uax.UnicodeBreaker
	log []report
	off bool
}

func (b *recorder) ProceedWithRune(r rune, c int) {
	b.UnicodeBreaker.ProceedWithRune(r, c)
	if !b.off {
		b.log = append(b.log, report{b.UnicodeBreaker.LongestActiveMatch(), append([]int{}, b.UnicodeBreaker.Penalties()...)})
	}
}

var errFail = errors.New("failing reader")

// reader delivers runes and fails (once) after some of them, if asked to
type reader struct {
	rs     []rune
	i      int
	fail   int
	failed bool
}

func (r *reader) ReadRune() (rune, int, error) {
	if r.fail >= 0 && r.i >= r.fail && !r.failed {
		r.failed = true
		return 0, 0, errFail
	}
	if r.i >= len(r.rs) {
		return 0, 0, io.EOF
	}
	r.i++
	return r.rs[r.i-1], 1, nil
}

func ints(rs []rune) []int {
	l := make([]int, len(rs))
	for i, r := range rs {
		l[i] = int(r)
	}
	return l
}

func errText(e error) string {
	switch e {
	case nil:
		return ""
	case segment.ErrBoundReached:
		return "bound"
	case segment.ErrTooLong:
		return "long"
	case errFail:
		return "fail"
	}
	return "other: " + e.Error()
}

// ---- scripts --------------------------------------------------------------------------

var values = []int{-20000, -10000, -100, -1, 0, 0, 1, 100, 9999, 10000, 10001, 20000, -100, 100, 65536, -65536, -70000}

func penalties(rng *rand.Rand, n int) []int {
	l := make([]int, n)
	dense := rng.Intn(3)
	for i := range l {
		if rng.Intn(3) <= dense {
			l[i] = values[rng.Intn(len(values))]
		}
	}
	return l
}

// arbitrary reports for a text of n characters
func wild(rng *rand.Rand, n int) []report {
	l := make([]report, n+1)
	reach, far := 1+rng.Intn(4), rng.Intn(4)
	for i := range l {
		lam := 0
		if rng.Intn(3) > 0 {
			lam = rng.Intn(reach + 1)
		}
		if lam > i+1 && rng.Intn(4) > 0 {
			lam = i + 1
		}
		l[i] = report{lam, penalties(rng, rng.Intn(reach+1+far))}
	}
	return l
}

// matches of various lengths, reported when they come to their end
func bursts(rng *rand.Rand, n, longest int) []report {
	l := make([]report, n+1)
	for i := 0; i <= n; {
		m := 1 + rng.Intn(longest)
		if rng.Intn(3) == 0 {
			m = 1 + rng.Intn(3)
		}
		for k := 1; k < m && i < n; k++ {
			l[i] = report{k, nil}
			i++
		}
		p := penalties(rng, 1+rng.Intn(m+1))
		if rng.Intn(2) == 0 {
			for j := range p {
				if rng.Intn(6) > 0 {
					p[j] = 0
				}
			}
		}
		l[i] = report{0, p}
		if rng.Intn(8) == 0 {
			l[i].lam = rng.Intn(2)
		}
		i++
	}
	return l
}

// the last report makes the end of the text a break
func ending(l []report) []report {
	e := &l[len(l)-1]
	e.lam = 0
	for len(e.pen) < 2 {
		e.pen = append(e.pen, 0)
	}
	e.pen = append([]int{}, e.pen...)
	e.pen[1] = -1000000
	return l
}

// ---- sessions --------------------------------------------------------------------------

type session struct {
	seg   *segment.Segmenter
	scr   []*scripted
	rec   []*recorder
	name  string
	z     [2]bool
	max   int // as set by RuneBuffer
	buf   int // size of its own buffer
	reuse int
}

const (
	defaultMax = 64 * 1024
)

func newSession(rng *rand.Rand, kind string) *session {
	s := &session{name: kind, max: defaultMax}
	var bs []uax.UnicodeBreaker
	add := func(b uax.UnicodeBreaker) {
		r := &recorder{UnicodeBreaker: b}
		s.rec = append(s.rec, r)
		bs = append(bs, r)
	}
	for _, k := range kind {
		switch k {
		case 's':
			add(segment.NewSimpleWordBreaker())
		case 'w':
			add(uax29.NewWordBreaker(1))
		case 'W':
			add(uax29.NewWordBreaker(-7))
		case 'g':
			add(grapheme.NewBreaker(1))
		case '*':
			sc := &scripted{}
			s.scr = append(s.scr, sc)
			add(sc)
		}
	}
	s.seg = segment.NewSegmenter(bs...)
	s.z = [2]bool{rng.Intn(3) == 0, rng.Intn(3) == 0}
	if kind != "" && kind[0] != '*' {
		s.z = [2]bool{}
	}
	s.seg.BreakOnZero(s.z[0], s.z[1])
	return s
}

type plan struct {
	text   []rune
	fail   int
	slice  bool // give the text as a slice
	none   bool // no text at all
	buf    int  // set a buffer of this size, and a maximum, after initialization
	max    int
	late   int // after this call, an attempt to set the buffer is made
	bounds func(i, delivered int, last op) (int, bool)
	scr    []report
	scr2   []report
	ends   bool // the primary breaker makes the end of the text a break
}

// play runs one text and records it
func (s *session) play(p plan) obs {
	o := obs{T: ints(p.text), Fail: p.fail, Max: s.max, Z: s.z, Ops: []op{}, Ref: []op{}, Rep: [][]report{}}
	o.K = fmt.Sprintf("%s use=%d n=%d fail=%d slice=%v z=%v max=%d text=%.120s", s.name, s.reuse, len(p.text), p.fail, p.slice, s.z, s.max, hlib.Hex(p.text))
	hlib.Begin(o.K)
	defer hlib.Done()
	var given []rune
	texts := []string{}
	o.Panic = hlib.Safely(func() {
		if p.slice {
			o.Max = -1
		}
		if p.none && p.slice {
			s.seg.InitFromSlice(nil)
		} else if p.none {
			s.seg.Init(nil)
		} else if p.slice {
			given = append(append([]rune{}, p.text...), 'x', 'y', 'z') // part of a larger array
			s.seg.InitFromSlice(given[:len(p.text)])
		} else {
			s.seg.Init(&reader{rs: p.text, fail: p.fail})
		}
		o.Init[0] = len(s.seg.Runes()) + len(s.seg.Bytes()) + len(s.seg.Text())
		o.Init[1], o.Init[2] = s.seg.Penalties()
		if p.buf > 0 { // to be allowed until the first call of Next
			s.seg.RuneBuffer(make([]rune, p.buf), p.max)
			if s.max = p.max; p.buf > p.max {
				s.max = p.buf
			}
			if !p.slice {
				o.Max = s.max
			}
			s.buf = p.buf
		}
		for i, b := range s.scr {
			b.i, b.script = 0, p.scr
			if i > 0 {
				b.script = p.scr2
			}
		}
		for _, r := range s.rec {
			r.log = nil
		}
		delivered := 0
		last := op{Ok: true}
		for i := 0; i < 2*len(p.text)+24; i++ {
			b, more := p.bounds(i, delivered, last)
			if !more {
				break
			}
			x := op{B: b, Seg: []int{}}
			if b < 0 && (i+len(p.text))%5 == 1 { // a bound which cannot be met is none
				x.Ok = s.seg.BoundedNext([]int{math.MaxInt, math.MaxInt - 1, math.MaxInt32, 1 << 40}[i%4])
			} else if b < 0 {
				x.Ok = s.seg.Next()
			} else {
				x.Ok = s.seg.BoundedNext(b)
			}
			x.Err = errText(s.seg.Err())
			rs := s.seg.Runes()
			x.Seg = ints(rs)
			texts = append(texts, s.seg.Text())
			x.Same = texts[i] == string(rs) && string(s.seg.Bytes()) == string(rs)
			x.P[0], x.P[1] = s.seg.Penalties()
			if x.Ok {
				delivered += len(rs)
			}
			o.Ops = append(o.Ops, x)
			last = x
			if p.late == i {
				o.Late = hlib.Safely(func() { s.seg.RuneBuffer(make([]rune, 1+i%8), i) }) == ""
			}
		}
	})
	for i, t := range texts { // strings once delivered stay as they are, and so does the text given
		if i < len(o.Ops) && o.Ops[i].Same {
			l := make([]rune, len(o.Ops[i].Seg))
			for j, r := range o.Ops[i].Seg {
				l[j] = rune(r)
			}
			o.Ops[i].Same = t == string(l)
		}
	}
	if n := len(o.Ops); given != nil && n > 0 && string(given) != string(p.text)+"xyz" {
		o.Ops[n-1].Same = false
	}
	for k, r := range s.rec {
		for i, e := range r.log {
			if k == 0 {
				o.Rep = append(o.Rep, nil)
			}
			if i < len(o.Rep) {
				o.Rep[i] = append(o.Rep[i], e)
			}
		}
	}
	s.reuse++
	if n := len(o.Ops); p.ends && p.fail < 0 && n > 0 {
		l := o.Ops[n-1]
		o.Whole = !l.Ok && l.B < 0 && l.Err != "long"
	}
	return o
}

// to the end of the text
func all(extra int) func(int, int, op) (int, bool) {
	n := 0
	return func(i, d int, last op) (int, bool) {
		if !last.Ok {
			n++
		}
		return -1, n <= extra
	}
}

// bounded calls with rising bounds, some unbounded ones
func rising(rng *rand.Rand, n int) func(int, int, op) (int, bool) {
	b := rng.Intn(5)
	step := 1 + rng.Intn(6)
	stops := 0
	return func(i, d int, last op) (int, bool) {
		if !last.Ok {
			if stops++; last.Err == "fail" || last.Err == "long" || b < 0 {
				return -1, stops < 2
			}
			if stops > n+4 {
				return 0, false
			}
			switch rng.Intn(12) {
			case 0: // the same again
			case 1:
				b = -1
			case 2:
				b += rng.Intn(n + 2)
			default:
				b += 1 + rng.Intn(step)
			}
			if b > n+3 {
				b = -1
			}
		} else if b >= 0 && rng.Intn(9) == 0 { // new bound without having met the old one
			if b = d + rng.Intn(step+1); rng.Intn(5) == 0 {
				b = -1
			}
		}
		return b, true
	}
}

// some calls, then the text is abandoned
func some(n int) func(int, int, op) (int, bool) {
	return func(i, d int, last op) (int, bool) { return -1, i < n }
}

var chars = []rune("\x00aaab1 .,'\"\t\n\r\u00a0\u00e4\u0301\u200d\u00ad\u05d0\u30a2\u4e00\u3042_\U0001F1E6\U0001F1E7\U0001F469\u2764\uac00\u1100\u1161\u11a8\u0600\u0020\u2028\u3000")

func text(rng *rand.Rand, n int) []rune {
	l := make([]rune, n)
	k := 2 + rng.Intn(len(chars)-2)
	off := rng.Intn(len(chars))
	for i := range l {
		l[i] = chars[(off+rng.Intn(k))%len(chars)]
	}
	return l
}

// distinguishable characters
func ids(rng *rand.Rand, n int) []rune {
	l := make([]rune, n)
	if rng.Intn(4) == 0 { // any characters
		for i := range l {
			for l[i] = 0xD800; l[i] >= 0xD800 && l[i] < 0xE000 || l[i] == 0; {
				l[i] = rune(rng.Intn([]int{0x80, 0x3000, 0x110000}[rng.Intn(3)]))
			}
		}
		return l
	}
	base := rune(0x21 + rng.Intn(0x3000))
	for i := range l {
		l[i] = base + rune(i)
		if rng.Intn(200) == 0 {
			l[i] = rune(0x10000 + rng.Intn(0x10000))
		}
	}
	return l
}

var scriptKinds = []string{"*", "*", "**", "***", "*s", "*w", "*g", "**w"}
var realKinds = []string{"s", "w", "g", "sw", "wg", "gs", "Ws", "wW", "swg"}

func main() {
	rng := hlib.Rng()
	out := hlib.Open()
	grapheme.SetupGraphemeClasses()
	mode := os.Getenv("MODE")
	rnd := hlib.Int("RND", 1000)
	big := hlib.Int("BIG", 20)
	var ses *session
	script := func(p *plan) {
		n := len(p.text)
		f := func() []report {
			switch rng.Intn(3) {
			case 0:
				return bursts(rng, n, 1+rng.Intn(2+n))
			default:
				return wild(rng, n)
			}
		}
		a, b := f(), f()
		p.ends = ses.name[0] != '*'
		if mode == "lossless" || rng.Intn(3) == 0 {
			a, p.ends = ending(a), true
			b[len(b)-1].lam = 0
		}
		p.scr, p.scr2 = a, b
	}
	put := func(s *session, p plan) {
		o := s.play(p)
		if mode == "reuse" {
			f := newSession(rng, s.name)
			f.z, f.max = s.z, s.max
			f.seg.BreakOnZero(f.z[0], f.z[1])
			if s.buf > 0 && p.buf == 0 {
				f.seg.RuneBuffer(make([]rune, s.buf), s.max)
			}
			p.bounds = func(i, d int, last op) (int, bool) {
				if i < len(o.Ops) {
					return o.Ops[i].B, true
				}
				return 0, false
			}
			r := f.play(p)
			o.Ref = r.Ops
			if o.Panic == "" {
				o.Panic = r.Panic
			}
		}
		out.Put(o)
	}
	pick := func(kinds []string) {
		k := kinds[rng.Intn(len(kinds))]
		if ses == nil || ses.name != k || rng.Intn(3) > 0 {
			ses = newSession(rng, k)
			if rng.Intn(6) == 0 { // a buffer of its own, for a small maximum
				c, m := 1+rng.Intn(8), rng.Intn(12)
				ses.seg.RuneBuffer(make([]rune, c), m)
				ses.buf = c
				if ses.max = m; c > m {
					ses.max = c
				}
			}
		}
	}
	abandon := func() {
		// leave the segmenter somewhere in a text, in one of several ways
		if rng.Intn(3) == 0 {
			return
		}
		n := rng.Intn(20)
		p := plan{text: text(rng, n), fail: -1, late: -1, slice: rng.Intn(4) == 0, bounds: some(rng.Intn(n + 2))}
		script(&p)
		if rng.Intn(3) == 0 && n > 0 {
			p.fail, p.slice = rng.Intn(n), false
		}
		if rng.Intn(3) == 0 {
			p.bounds = rising(rng, n)
		}
		o := ses.play(p)
		if mode == "reuse" {
			out.Put(o)
		}
	}
	for i := 0; i < rnd; i++ {
		n := rng.Intn(14)
		if rng.Intn(10) == 0 {
			n = 14 + rng.Intn(20)
		}
		p := plan{fail: -1, slice: rng.Intn(3) == 0, bounds: all(1), none: n == 0 && rng.Intn(2) == 0, late: -1}
		if rng.Intn(4) == 0 {
			pick(realKinds)
			p.text = text(rng, n)
		} else {
			pick(scriptKinds)
			p.text = ids(rng, n)
			if len(ses.name) > 1 {
				p.text = text(rng, n)
			}
		}
		script(&p)
		switch mode {
		case "bound":
			p.bounds = rising(rng, n)
		case "reuse":
			for j := rng.Intn(3); j >= 0; j-- {
				abandon()
			}
			p.bounds = all(2)
			if rng.Intn(6) == 0 {
				p.buf, p.max = 1+rng.Intn(8), rng.Intn(12)
			}
			if rng.Intn(6) == 0 {
				p.late = rng.Intn(n + 2)
			}
			if rng.Intn(3) == 0 {
				p.bounds = rising(rng, n)
			}
			if rng.Intn(3) == 0 && n > 0 {
				p.fail, p.slice = rng.Intn(n+1), false
			}
		default:
			if rng.Intn(8) == 0 {
				abandon()
			}
		}
		put(ses, p)
	}
	// long texts with long matches: the queue has to grow, to wrap around, and to shrink
	for i := 0; i < big; i++ {
		pick([]string{"*", "*", "**"})
		n := 60 + rng.Intn(200)
		if i%4 == 0 {
			n = 260 + rng.Intn(hlib.Int("BIGLEN", 400))
		}
		p := plan{text: ids(rng, n), fail: -1, late: -1, slice: rng.Intn(3) == 0, bounds: all(1)}
		p.scr = bursts(rng, n, 20+rng.Intn(n))
		p.scr2 = bursts(rng, n, 20+rng.Intn(n))
		if mode == "lossless" || rng.Intn(2) == 0 {
			p.scr, p.ends = ending(p.scr), true
			p.scr2[len(p.scr2)-1].lam = 0
		}
		if mode == "bound" {
			p.bounds = rising(rng, n)
		}
		if mode == "reuse" {
			abandon()
		}
		put(ses, p)
	}
	out.Close()
	if n := hlib.Int("HUGE", 0); n > 0 {
		hugeTexts(rng, n)
	}
}
