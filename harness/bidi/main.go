//go:build go1.21

// Records what package bidi resolves, splits and reorders. $MODE selects what is recorded.
package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/npillmayer/schuko/tracing"
	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/internal/zzverif/hlib"
)

var rng *rand.Rand
var cls hlib.Classes
var kinds [][2][]rune // pairs of brackets, with canonical equivalents

// text is a text together with its classes.
type text struct {
	t    []string // class per character
	rs   []rune
	pos  []int // byte position per character, and the end
	s    string
	opts []bidi.Option
	e    int
	how  string
	rep  map[int]int // characters which are in the text more than once, in a row
}

var reps = map[string]rune{"L": 'a', "R": 'א', "AL": 'ا', "EN": '1', "AN": '٠', "ES": '+', "ET": '%', "CS": ',',
	"NSM": 0x300, "WS": ' ', "S": '\t', "ON": '!', "BN": 0xad, "LRI": 0x2066, "RLI": 0x2067, "FSI": 0x2068, "PDI": 0x2069,
	"O": '(', "C": ')', "O2": '[', "C2": ']', "B": '\n', "LRE": 0x202a, "RLE": 0x202b, "PDF": 0x202c, "LRO": 0x202d, "RLO": 0x202e}

func setup() {
	rng = hlib.Rng()
	cls = hlib.Load("bc.txt")
	isbr := map[rune]bool{}
	for _, r := range hlib.Ranges("brackets.txt") {
		isbr[rune(r.Lo)], isbr[rune(r.Hi)] = true, true
		if r.Lo == 0x2329 {
			continue
		}
		k := [2][]rune{{rune(r.Lo)}, {rune(r.Hi)}}
		if r.Lo == 0x3008 {
			k = [2][]rune{{0x2329, 0x3008}, {0x232a, 0x3009}}
		}
		kinds = append(kinds, k)
	}
	on := []rune{}
	for _, r := range cls["ON"] {
		if !isbr[r] {
			on = append(on, r)
		}
	}
	cls["ON"] = on
}

// make renders a sequence of classes; style 0 plain characters, 1 any character, 2 for
// test mode, 3 with paragraph separators for white space.
func mk(t []string, e int, style int) *text {
	x := &text{t: t, e: e}
	over := rng.Intn(4) == 0 // options override options
	if over {
		x.opts = append(x.opts, bidi.DefaultDirection(bidi.Direction(1-e)), bidi.TestMode(style != 2), bidi.IgnoreParagraphSeparators(style != 3),
			bidi.RecognizeLegacy(rng.Intn(2) == 0))
		if style != 2 {
			x.opts = append(x.opts, bidi.TestMode(false))
		}
		if style != 3 {
			x.opts = append(x.opts, bidi.IgnoreParagraphSeparators(false))
		}
	}
	if e == 1 {
		x.opts = append(x.opts, bidi.DefaultDirection(bidi.RightToLeft))
	} else if over || rng.Intn(2) == 0 {
		x.opts = append(x.opts, bidi.DefaultDirection(bidi.LeftToRight))
	}
	switch style {
	case 2:
		x.opts = append(x.opts, bidi.TestMode(true))
	case 3:
		x.opts = append(x.opts, bidi.IgnoreParagraphSeparators(true))
	}
	k1 := rng.Intn(len(kinds))
	if rng.Intn(8) == 0 {
		for k1 = 0; kinds[k1][0][0] != 0x2329; k1++ {
		}
	}
	k2 := (k1 + 1 + rng.Intn(len(kinds)-1)) % len(kinds)
	for _, c := range t {
		r := reps[c]
		switch style {
		case 1, 3:
			switch c {
			case "O":
				r = one(kinds[k1][0])
			case "C":
				r = one(kinds[k1][1])
			case "O2":
				r = one(kinds[k2][0])
			case "C2":
				r = one(kinds[k2][1])
			default:
				if style == 3 && c == "WS" && rng.Intn(2) == 0 {
					c = "B"
				}
				r = cls.Any(rng, c)
				if c == "ON" && rng.Intn(12) == 0 { // an illegal byte
					r = -[]rune{0x80, 0xbf, 0xc0, 0xc1, 0xf5, 0xfe, 0xff}[rng.Intn(7)]
				}
			}
		case 2:
			switch c {
			case "R":
				r = rune('A' + rng.Intn(26))
			case "LRI":
				r = '>'
			case "RLI":
				r = '<'
			case "PDI":
				r = '='
			}
		}
		x.rs = append(x.rs, r)
	}
	x.finish()
	return x
}

func one(l []rune) rune { return l[rng.Intn(len(l))] }

func (x *text) finish() {
	x.pos = nil
	var b strings.Builder
	for i, r := range x.rs {
		x.pos = append(x.pos, b.Len())
		if r < 0 {
			b.WriteString(strings.Repeat(string([]byte{byte(-r)}), 1+x.rep[i]))
			continue
		}
		b.WriteString(strings.Repeat(string(r), 1+x.rep[i]))
	}
	x.pos = append(x.pos, b.Len())
	x.s = b.String()
}

func (x *text) key() string { return fmt.Sprintf("e=%d %s%s", x.e, hlib.Hex(x.rs), x.how) }

// blow repeats some of the characters of a text, up to tens of thousands of times: see StutterOk
// in UAX9MC.
func blow(x *text) *text {
	x.rep = map[int]int{}
	for k := 1 + rng.Intn(3); k > 0 && len(x.t) > 0; k-- {
		i := rng.Intn(len(x.t))
		switch x.t[i] {
		case "L", "R", "AL", "EN", "AN", "ET", "NSM", "WS", "S", "ON", "BN":
			x.rep[i] = 1<<min(16, rng.Intn(21)) + rng.Intn(9) - 5
			if rng.Intn(4) == 0 {
				x.rep[i] = rng.Intn(5000)
			}
			if x.rep[i] < 0 {
				x.rep[i] = 0
			}
		}
	}
	x.finish()
	x.how += fmt.Sprintf(" repeated=%v", x.rep)
	return x
}

func balanced(t []string, strict bool) bool {
	d := 0
	for _, c := range t {
		switch c {
		case "LRI", "RLI", "FSI":
			d++
		case "PDI":
			if d > 0 {
				d--
			} else if strict {
				return false
			}
		}
	}
	return d == 0
}

// balance closes isolates. It drops PDIs that do not match, if told so.
func balance(t []string, drop bool) []string {
	r := []string{}
	d := 0
	for _, c := range t {
		switch c {
		case "LRI", "RLI", "FSI":
			d++
		case "PDI":
			if d == 0 && drop {
				continue
			} else if d > 0 {
				d--
			}
		}
		r = append(r, c)
	}
	for ; d > 0; d-- {
		r = append(r, "PDI")
	}
	return r
}

// dirs queries the direction of every character in [from,to), shifted by off bytes.
func (x *text) dirs(r *bidi.ResolvedLevels, from, to, off int) []int {
	d := []int{}
	for i := from; i < to; i++ {
		v := int(r.DirectionAt(uint64(x.pos[i] - off)))
		// every byte of a character has the direction of the character
		for p := x.pos[i] + 1; p < x.pos[i+1]; p++ {
			if int(r.DirectionAt(uint64(p-off))) != v {
				v = 9
			}
		}
		d = append(d, v)
	}
	return d
}

// seg is a segment of a run.
type seg struct {
	from, to, dir int
}

// read reads an ordering from left to right, as the documentation of SegmentIterator has it.
func read(o *bidi.Ordering, e int) (segs []seg, lenOk bool) {
	lenOk = true
	for k := range o.Runs {
		r := o.Runs[k]
		if e == 1 {
			r = o.Runs[len(o.Runs)-1-k]
		}
		n, eof := int64(0), false
		it := r.SegmentIterator(e == 1)
		if d, f, t := it.Segment(); d != r.Dir || f != 0 || t != 0 {
			lenOk = false // nothing read yet
		}
		for it.Next() {
			if n > 0 && eof {
				lenOk = false // there was more
			}
			eof = it.EOF()
			d, f, t := it.Segment()
			if r.IsOpposite(bidi.LeftToRight) != (d == bidi.RightToLeft) || r.IsOpposite(bidi.RightToLeft) != (d == bidi.LeftToRight) {
				d = 9 // the run says otherwise
			}
			segs = append(segs, seg{int(f), int(t), int(d)})
			n += int64(t) - int64(f)
			if d != r.Dir {
				lenOk = false
			}
		}
		if n != r.Length || n == 0 || !eof {
			lenOk = false
		}
	}
	return
}

// visual returns positions of characters (from 1) and their directions in visual order.
func (x *text) visual(r *bidi.ResolvedLevels, off int) (v []int, d []int) {
	return x.visualOf(r.Reorder(), off)
}

func (x *text) visualOf(o *bidi.Ordering, off int) (v []int, d []int) {
	segs, _ := read(o, x.e)
	v, d = []int{}, []int{}
	at := -1 // byte a repeated character has been read up to
	for _, s := range segs {
		l := []int{}
		for i := range x.rs {
			if x.t[i] == "BN" || x.t[i] == "LRI" || x.t[i] == "RLI" || x.t[i] == "FSI" || x.t[i] == "PDI" || x.t[i] == "LRE" || x.t[i] == "RLE" || x.t[i] == "PDF" || x.t[i] == "LRO" || x.t[i] == "RLO" {
				continue
			}
			if x.rep[i] == 0 && x.pos[i]-off >= s.from && x.pos[i]-off < s.to {
				l = append(l, i+1)
			}
			if x.rep[i] > 0 && x.pos[i]-off < s.to && x.pos[i+1]-off > s.from {
				l = append(l, i+1)
			}
		}
		if s.dir == int(bidi.RightToLeft) {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		for _, i := range l {
			if x.rep[i-1] > 0 { // all of it has to be there, in order
				a, b := x.pos[i-1]-off, x.pos[i]-off
				from, to := max(a, s.from), min(b, s.to)
				if s.dir == int(bidi.RightToLeft) {
					a, b, from, to = -b, -a, -to, -from
				}
				if from != a {
					if len(v) > 0 && v[len(v)-1] == -i && d[len(d)-1] == s.dir && at == from {
						v, d = v[:len(v)-1], d[:len(d)-1]
					} else {
						v, d = append(v, 0), append(d, s.dir) // out of order
					}
				}
				if at = to; to != b {
					i = -i // to be continued
				}
			}
			v = append(v, i)
			d = append(d, s.dir)
		}
	}
	return
}

func resolve(x *text) *bidi.ResolvedLevels {
	return bidi.ResolveParagraph(strings.NewReader(x.s), nil, x.opts...)
}

// ---------------------------------------------------------------------------

type levelObs struct {
	K string   `json:"k"`
	P string   `json:"p"`
	T []string `json:"t"`
	E int      `json:"e"`
	D []int    `json:"d"`
	V []int    `json:"v"`
	W []int    `json:"w"` // directions in visual order
}

func record(x *text, order bool, res func(*text) *bidi.ResolvedLevels) levelObs {
	o := levelObs{K: x.key(), T: x.t, E: x.e, D: []int{}, V: []int{}, W: []int{}}
	hlib.Begin(o.K)
	o.P = hlib.Safely(func() {
		r := res(x)
		if order {
			o.V, o.W = x.visual(r, 0)
		} else {
			o.D = x.dirs(r, 0, len(x.rs), 0)
		}
	})
	hlib.Done()
	return o
}

type coverObs struct {
	K  string   `json:"k"`
	P  string   `json:"p"`
	N  int      `json:"n"`
	L  [][2]int `json:"l"` // level runs
	S  [][2]int `json:"s"` // segments of reordered runs
	OK bool     `json:"ok"`
}

var runPattern = regexp.MustCompile(`\[(\d+)-\w+-(\d+)\]`)

func recordCover(x *text, n int) coverObs {
	o := coverObs{K: x.key(), N: n, L: [][2]int{}, S: [][2]int{}, OK: true}
	hlib.Begin(o.K)
	o.P = hlib.Safely(func() {
		var r *bidi.ResolvedLevels
		if rng.Intn(4) == 0 {
			r = bidi.ResolveParagraph(&bumpyReader{s: x.s, n: rng.Intn(8)}, nil, x.opts...)
		} else {
			r = resolve(x)
		}
		for _, m := range runPattern.FindAllStringSubmatch(r.String(), -1) {
			a, _ := strconv.Atoi(m[1])
			b, _ := strconv.Atoi(m[2])
			o.L = append(o.L, [2]int{a, b})
		}
		segs, lenOk := read(r.Reorder(), x.e)
		for _, s := range segs {
			o.S = append(o.S, [2]int{s.from, s.to})
		}
		at := uint64(0)
		if len(x.pos) > 1 {
			at = uint64(x.pos[rng.Intn(len(x.pos))])
		}
		p, s := r.Split(at, rng.Intn(2) == 0)
		p.Reorder()
		s.Reorder()
		for i := 0; i <= len(x.s); i++ {
			r.DirectionAt(uint64(i))
			p.DirectionAt(uint64(i))
			s.DirectionAt(uint64(i))
		}
		o.OK = lenOk
	})
	hlib.Done()
	return o
}

// ---------------------------------------------------------------------------

type op struct {
	Op string `json:"op"`
	O  int    `json:"o"`
	At int    `json:"at"`
	Sh bool   `json:"sh"`
	D  []int  `json:"d"`
}

type opsObs struct {
	K   string   `json:"k"`
	P   string   `json:"p"`
	T   []string `json:"t"`
	E   int      `json:"e"`
	Ops []op     `json:"ops"`
}

// part is a part of resolved levels: characters from..to-1, positions lowered by off bytes.
type part struct {
	r             *bidi.ResolvedLevels
	from, to, off int
}

func recordOps(x *text, n int) opsObs {
	o := opsObs{K: x.key(), T: x.t, E: x.e, Ops: []op{}}
	hlib.Begin(o.K)
	o.P = hlib.Safely(func() {
		type held struct { // an ordering which is kept, to be read any time and any number of times
			o   *bidi.Ordering
			of  int
			off int
		}
		kept := []held{}
		pool := []part{{resolve(x), 0, len(x.rs), 0}}
		for ; n > 0; n-- {
			i := rng.Intn(len(pool))
			p := pool[i]
			switch k := rng.Intn(5); {
			case k < 2 && len(pool) < 12:
				at := p.from + rng.Intn(p.to-p.from+1)
				sh := rng.Intn(2) == 0
				a, b := p.r.Split(uint64(x.pos[at]-p.off), sh)
				off := p.off
				if sh {
					off = x.pos[at]
				}
				pool = append(pool, part{a, p.from, at, p.off}, part{b, at, p.to, off})
				o.Ops = append(o.Ops, op{"split", i + 1, at, sh, []int{}})
			case k == 2:
				o.Ops = append(o.Ops, op{"dirs", i + 1, 0, false, x.dirs(p.r, p.from, p.to, p.off)})
			default:
				if len(kept) == 0 || rng.Intn(3) > 0 {
					kept = append(kept, held{p.r.Reorder(), i, p.off})
				}
				if h := kept[rng.Intn(len(kept))]; rng.Intn(3) > 0 {
					v, _ := x.visualOf(h.o, h.off)
					o.Ops = append(o.Ops, op{"reorder", h.of + 1, 0, false, v})
				}
			}
		}
		for _, h := range kept {
			v, _ := x.visualOf(h.o, h.off)
			o.Ops = append(o.Ops, op{"reorder", h.of + 1, 0, false, v})
		}
		for i, p := range pool { // in the end, everything still has to be as it was
			o.Ops = append(o.Ops, op{"dirs", i + 1, 0, false, x.dirs(p.r, p.from, p.to, p.off)})
			v, _ := x.visual(p.r, p.off)
			o.Ops = append(o.Ops, op{"reorder", i + 1, 0, false, v})
		}
	})
	hlib.Done()
	return o
}

// ---------------------------------------------------------------------------

// markup removes the isolate characters from a text and returns the equivalent markup, or
// false if markup cannot express it (more than a PDI and an initiator at one position).
func markup(t []string) (plain []int, m map[int]int, ok bool) {
	m = map[int]int{}
	for i, c := range t {
		p := len(plain)
		v := 0
		switch c {
		case "LRI":
			v = bidi.MarkupLRI
		case "RLI":
			v = bidi.MarkupRLI
		case "PDI":
			v = bidi.MarkupPDI
		default:
			plain = append(plain, i)
			continue
		}
		if v == bidi.MarkupPDI && m[p] != 0 {
			return nil, nil, false
		}
		if v != bidi.MarkupPDI && m[p] != 0 && m[p] != bidi.MarkupPDI {
			return nil, nil, false
		}
		m[p] |= v
	}
	return plain, m, true
}

// recordMarkup resolves the text with out-of-line markup instead of isolates. Some of the
// isolates may be left in the text.
func recordMarkup(x *text) (levelObs, bool) {
	plain, m, ok := markup(x.t)
	if !ok {
		return levelObs{}, false
	}
	y := *x
	y.rs, y.rep = nil, map[int]int{}
	for _, i := range plain {
		y.rep[len(y.rs)] = x.rep[i]
		y.rs = append(y.rs, x.rs[i])
	}
	y.finish()
	at := map[uint64]int{}
	for p, v := range m {
		at[uint64(y.pos[p])] = v
	}
	o := levelObs{K: fmt.Sprintf("%s markup=%v", y.key(), at), T: x.t, E: x.e, D: make([]int, len(x.t)), V: []int{}, W: []int{}}
	hlib.Begin(o.K)
	asked := map[uint64]bool{}
	o.P = hlib.Safely(func() {
		r := bidi.ResolveParagraph(strings.NewReader(y.s), func(p uint64) int { asked[p] = true; return at[p] }, y.opts...)
		d := y.dirs(r, 0, len(y.rs), 0)
		v, _ := y.visualMarkup(r)
		for k, i := range plain {
			o.D[i] = d[k]
		}
		for _, k := range v {
			o.V = append(o.V, plain[k-1]+1)
		}
	})
	hlib.Done()
	return o, true
}

// visualMarkup is visual for a text without isolates (classes of characters are those of rs).
func (y *text) visualMarkup(r *bidi.ResolvedLevels) ([]int, []int) {
	z := *y
	z.t = make([]string, len(y.rs))
	k := 0
	for _, c := range y.t {
		if c != "LRI" && c != "RLI" && c != "PDI" {
			z.t[k] = c
			k++
		}
	}
	return z.visual(r, 0)
}

// ---------------------------------------------------------------------------

// lazyReader delivers a text in random chunks, giving way to other goroutines in between.
type lazyReader struct {
	s   string
	rng *rand.Rand
	max int
}

// bumpyReader delivers some bytes at a time, nothing at all at times, and in the end an error,
// at once with the last bytes, or afterwards.
type bumpyReader struct {
	s    string
	n, i int
}

var errBumpy = errors.New("broken reader")

func (b *bumpyReader) Read(p []byte) (int, error) {
	b.i++
	if b.s == "" {
		return 0, errBumpy
	} else if b.i%(b.n+2) == 1 {
		return 0, nil
	}
	n := copy(p[:min(len(p), 1+b.i%(b.n+1))], b.s)
	if b.s = b.s[n:]; b.s == "" && b.n%2 == 0 {
		return n, errBumpy
	}
	return n, nil
}

func (l *lazyReader) Read(p []byte) (int, error) {
	switch l.rng.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(l.rng.Intn(20)) * time.Microsecond)
	}
	if l.s == "" {
		return 0, io.EOF
	}
	n := l.rng.Intn(l.max + 1)
	if n > len(p) {
		n = len(p)
	}
	if n > len(l.s) {
		n = len(l.s)
	}
	copy(p, l.s[:n])
	l.s = l.s[n:]
	if l.s == "" && l.rng.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// slowTrace lets every message traced by the real code take some time, which changes the
// schedule of scanner and parser, and counts them while nobody should be at work.
// (Messages being traced at the same time are not synchronized with each other.)
type slowTrace struct {
	tracing.Trace // nil
}

var slowness, idle, late int64

func (x slowTrace) Select(string) tracing.Trace {
	if atomic.LoadInt64(&idle) == 1 {
		atomic.AddInt64(&late, 1)
	}
	switch n := time.Now().UnixNano() / 64; {
	case slowness == 0:
	case n%3 == 0:
		runtime.Gosched()
	case n%17 == 0:
		time.Sleep(time.Duration(n%(20*slowness)) * time.Microsecond)
	}
	return x
}
func (x slowTrace) Errorf(string, ...interface{})             {}
func (x slowTrace) Infof(string, ...interface{})              {}
func (x slowTrace) Debugf(string, ...interface{})             {}
func (x slowTrace) P(string, interface{}) tracing.Trace       { return x }
func (x slowTrace) SetTraceLevel(tracing.TraceLevel)          {}
func (x slowTrace) GetTraceLevel() (level tracing.TraceLevel) { return }

// alone resolves one text after the other. Nobody may be at work (i.e. trace messages) when
// a paragraph has been resolved.
func alone(out *hlib.Out, rounds int) {
	tracing.SetTraceSelector(slowTrace{})
	for ; rounds > 0; rounds-- {
		slowness = int64(rng.Intn(4))
		runtime.GOMAXPROCS(1 + rng.Intn(4))
		x := mk(balance(hlib.RandomWord(rng, parNames, rng.Intn(8)), false), rng.Intn(2), rng.Intn(2))
		hlib.Begin("resolution of " + x.key())
		o := levelObs{K: x.key(), T: x.t, E: x.e, D: []int{}, V: []int{}, W: []int{}}
		o.P = hlib.Safely(func() {
			res := bidi.ResolveParagraph(&lazyReader{x.s, rng, 1 + rng.Intn(8)}, nil, x.opts...)
			atomic.StoreInt64(&idle, 1)
			time.Sleep(time.Duration(100+rng.Intn(400)) * time.Microsecond)
			atomic.StoreInt64(&idle, 0)
			o.D = x.dirs(res, 0, len(x.rs), 0)
			o.V, o.W = x.visual(res, 0)
		})
		if n := atomic.SwapInt64(&late, 0); n > 0 && o.P == "" {
			o.P = fmt.Sprintf("resolved, but still at work: %d messages traced", n)
		}
		hlib.Done()
		out.Put(o)
	}
}

var parNames = []string{"L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "NSM", "BN", "WS", "ON", "O", "C", "O2", "C2", "LRI", "RLI", "FSI", "PDI"}

// parallel resolves many texts at the same time.
func parallel(out *hlib.Out, rounds, width int) {
	if hlib.Int("SLOW", 0) > 0 {
		slowness = int64(hlib.Int("SLOW", 0))
		tracing.SetTraceSelector(slowTrace{})
	}
	base := runtime.NumGoroutine()
	for ; rounds > 0; rounds-- {
		texts := make([]*text, width)
		obs := make([]levelObs, width)
		seeds := make([]int64, width)
		for i := range texts {
			texts[i] = mk(balance(hlib.RandomWord(rng, parNames, 1+rng.Intn(24)), false), rng.Intn(2), rng.Intn(2))
			seeds[i] = rng.Int63()
		}
		hlib.Begin("parallel resolution of " + texts[0].key() + " and others")
		runtime.GOMAXPROCS(1 + rng.Intn(8))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range texts {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				x := texts[i]
				r := rand.New(rand.NewSource(seeds[i]))
				o := levelObs{K: x.key(), T: x.t, E: x.e, D: []int{}, V: []int{}, W: []int{}}
				o.P = hlib.Safely(func() {
					res := bidi.ResolveParagraph(&lazyReader{x.s, r, 1 + r.Intn(8)}, nil, x.opts...)
					o.D = x.dirs(res, 0, len(x.rs), 0)
					o.V, o.W = x.visual(res, 0)
				})
				obs[i] = o
			}(i)
		}
		close(start)
		wg.Wait()
		hlib.Done()
		left := 0
		for k := 0; k < 200; k++ { // goroutines need some time to disappear
			if left = runtime.NumGoroutine() - base - 1; left <= 0 {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		for i := range obs {
			if left > 0 {
				obs[i].P = fmt.Sprintf("%d goroutines left behind", left)
			}
			out.Put(obs[i])
		}
	}
}

// ---------------------------------------------------------------------------

var strongs = []string{"L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "NSM", "BN", "WS", "S", "ON", "O", "C", "O2", "C2", "LRI", "RLI", "FSI", "PDI"}

var parts = [][]string{
	{"L", "R", "AL", "EN", "AN", "ES", "CS", "ET"},
	{"L", "R", "EN", "ON", "NSM", "BN", "ET"},
	{"L", "R", "EN", "O", "C", "NSM", "ON"},
	{"R", "L", "O", "C", "O2", "C2", "AN"},
	{"L", "R", "EN", "ON", "LRI", "RLI", "PDI"},
	{"AL", "EN", "R", "LRI", "RLI", "PDI", "NSM", "BN"},
	{"L", "R", "O", "C", "RLI", "PDI", "AN"},
	{"L", "R", "EN", "FSI", "RLI", "PDI"},
	{"AL", "L", "ON", "O", "FSI", "PDI"},
	{"L", "R", "O", "C", "O2", "C2"},
	{"L", "R", "O", "C", "O", "C", "O2", "C2", "NSM", "ON", "EN"},
}

// groups of classes which make sense together; frequent ones are there more than once
var groups = [][]string{{"L"}, {"R"}, {"L", "R"}, {"L", "R"}, {"AL"}, {"EN"}, {"EN"}, {"AN"}, {"ET"}, {"ES"}, {"CS"},
	{"NSM"}, {"NSM"}, {"BN"}, {"ON"}, {"ON"}, {"WS"}, {"O", "C"}, {"O", "C"}, {"O", "C"}, {"O2", "C2"},
	{"LRE", "PDF"}, {"RLO", "LRO", "RLE", "PDF", "BN"}, {"LRI", "PDI"}, {"RLI", "PDI"}, {"LRI", "RLI", "PDI", "PDI"}, {"FSI", "PDI"}, {"LRI", "FSI", "PDI", "PDI"}}

// structured returns a text with nested brackets and isolates, few classes at a time.
func structured() []string {
	atoms := []string{"L", "R"}
	for k := rng.Intn(4); k > 0; k-- {
		atoms = append(atoms, []string{"AL", "EN", "EN", "AN", "ET", "ES", "CS", "ON", "ON", "WS"}[rng.Intn(10)])
	}
	marks := []string{"NSM", "BN"}[:rng.Intn(3)]
	isolates := rng.Intn(2) == 0
	t := []string{}
	put := func(c string) {
		t = append(t, c)
		for len(marks) > 0 && rng.Intn(5) == 0 {
			t = append(t, marks[rng.Intn(len(marks))])
		}
	}
	var seq func(n, depth int)
	seq = func(n, depth int) {
		for ; n > 0 && len(t) < 24; n-- {
			switch k := rng.Intn(10); {
			case k < 3 && depth < 4:
				o, c := "O", "C"
				if rng.Intn(3) == 0 {
					o, c = "O2", "C2"
				}
				put(o)
				seq(rng.Intn(3), depth+1)
				if rng.Intn(8) > 0 {
					put(c)
				}
			case k == 3 && isolates && depth < 4:
				put([]string{"LRI", "RLI", "FSI"}[rng.Intn(3)])
				seq(rng.Intn(4), depth+1)
				put("PDI")
			case k == 4 && rng.Intn(3) == 0:
				put([]string{"O", "C", "O2", "C2"}[rng.Intn(4)])
			default:
				put(atoms[rng.Intn(len(atoms))])
			}
		}
	}
	seq(1+rng.Intn(5), 0)
	return t
}

func words(f func(t []string)) {
	hlib.Words(strongs, 0, hlib.Int("EXH", 2), f)
	for _, p := range parts {
		hlib.Words(p, hlib.Int("EXH", 2)+1, hlib.Int("PART", 4), f)
	}
	max := hlib.Int("MAXLEN", 24)
	for n := hlib.Int("RND", 2000); n > 0; n-- {
		if rng.Intn(2) == 0 {
			f(structured())
			continue
		}
		if rng.Intn(3) > 0 { // a few classes only
			p := []string{}
			for k := 3 + rng.Intn(4); k > 0; k-- {
				p = append(p, groups[rng.Intn(len(groups))]...)
			}
			t := make([]string, 5+rng.Intn(8))
			for i := range t {
				t[i] = p[rng.Intn(len(p))]
			}
			f(t)
			continue
		}
		f(hlib.RandomWord(rng, strongs, 3+rng.Intn(max)))
	}
}

// deep returns a text with opening brackets around the maximum BD16 allows for.
func deep() []string {
	t := []string{}
	names := []string{"L", "R", "AN", "ON", "O", "O2", "NSM"}
	for n := 61 + rng.Intn(4); n > 0; n-- {
		t = append(t, []string{"O", "O2"}[rng.Intn(2)])
		for rng.Intn(5) == 0 {
			t = append(t, names[rng.Intn(4)])
		}
	}
	for n := 5 + rng.Intn(60); n > 0; n-- {
		t = append(t, []string{"C", "C2", "C", "C2", "L", "R", "O"}[rng.Intn(7)])
	}
	switch rng.Intn(4) {
	case 0:
		t = append(append([]string{"R", "RLI"}, t...), "PDI", "L")
	case 1:
		t = append(append([]string{"O", "R", "C", "L", "LRI", "O", "R", "C", "PDI"}, t...), "RLI", "L", "O", "L", "C", "PDI", "C")
	}
	return t
}

// vast returns a long text, with isolates nested up to 50 times.
func vast() []string {
	t := []string{}
	depth := 0
	few := rng.Intn(3) == 0
	for n := 40 + rng.Intn(hlib.Int("VAST", 150)); len(t) < n; {
		switch rng.Intn(6) {
		case 0:
			t = append(t, structured()...)
		case 1, 2:
			for k := 1 + rng.Intn(5); k > 0 && depth < 50; k-- {
				t = append(t, []string{"LRI", "RLI", "FSI"}[rng.Intn(3)])
				depth++
			}
		case 3:
			for k := rng.Intn(5); k > 0 && depth > 0; k-- {
				t = append(t, "PDI")
				depth--
			}
		default:
			for k := rng.Intn(30); k > 0; k-- {
				if few {
					t = append(t, []string{"L", "L", "R", "ON", "EN", "WS", "NSM"}[rng.Intn(7)])
				} else {
					g := groups[rng.Intn(23)]
					t = append(t, g[rng.Intn(len(g))])
				}
			}
		}
	}
	for ; depth > 0; depth-- {
		t = append(t, "PDI")
	}
	return t
}

// abyss returns a text of isolates nested up to, and beyond, the depth levels allow for.
func abyss() []string {
	t := []string{}
	atoms := []string{"L", "R", "EN", "ON", "NSM", "WS", "O", "C", "AL", "CS"}[:3+rng.Intn(8)]
	some := func(n int) {
		for ; n > 0; n-- {
			t = append(t, atoms[rng.Intn(len(atoms))])
		}
	}
	kinds := [][]string{{"RLI"}, {"LRI"}, {"RLI", "RLI", "FSI"}, {"LRI", "FSI", "LRI", "RLI"}, {"LRI", "RLI"}, {"FSI"}}[rng.Intn(6)]
	n := 59 + rng.Intn(8) // two levels each
	if len(kinds) > 1 && rng.Intn(2) == 0 {
		n = 60 + rng.Intn(75)
	}
	some(rng.Intn(3))
	depth := 0
	enter := func() {
		t = append(t, kinds[rng.Intn(len(kinds))])
		depth++
	}
	for ; n > 0; n-- {
		if enter(); rng.Intn(6) == 0 {
			some(1)
		}
	}
	for n = rng.Intn(12); n > 0; n-- { // about the limit
		switch rng.Intn(3) {
		case 0:
			enter()
		case 1:
			t = append(t, "PDI")
			depth--
		}
		some(rng.Intn(5))
	}
	some(1 + rng.Intn(4))
	for ; depth > 0; depth-- {
		if t = append(t, "PDI"); rng.Intn(4) == 0 {
			some(1 + rng.Intn(2))
		}
	}
	some(rng.Intn(3))
	return t
}

// sweep visits every bracket, matching and not, and every other neutral together with its
// neighbours: in R O R C L just the direction of the bracket C depends on them being a pair.
func sweep(f func(x *text)) {
	try := func(a, b string, ra, rb rune) {
		x := &text{t: []string{"R", a, "R", b, "L"}, rs: []rune{reps["R"], ra, reps["R"], rb, reps["L"]}}
		x.finish()
		f(x)
	}
	for i, k := range kinds {
		for j, l := range kinds {
			for _, o := range k[0] {
				for _, c := range l[1] {
					if i == j {
						try("O", "C", o, c)
					} else {
						try("O", "C2", o, c)
					}
				}
			}
		}
	}
	for i, c := range cls["ON"] {
		n := cls["ON"][(i+1)%len(cls["ON"])]
		try("ON", "ON", c, n)
		try("ON", "ON", n, c)
		if rng.Intn(4) == 0 {
			try("ON", "C", c, one(one2(kinds)[1]))
			try("O", "ON", one(one2(kinds)[0]), c)
		}
	}
}

func one2(l [][2][]rune) [2][]rune { return l[rng.Intn(len(l))] }

func main() {
	setup()
	out := hlib.Open()
	style := func() int {
		switch rng.Intn(10) {
		case 0:
			return 2
		case 1, 2:
			return 3
		case 3:
			return 0
		}
		return 1
	}
	both := func(f func(e int)) { f(0); f(1) }
	switch mode := os.Getenv("MODE"); mode {
	case "levels", "order":
		words(func(t []string) {
			if len(t) < 6 && !balanced(t, false) {
				return
			}
			t = balance(t, false)
			both(func(e int) { out.Put(record(mk(t, e, style()), mode == "order", resolve)) })
		})
		if mode == "levels" && hlib.Int("SWEEP", 0) == 1 {
			sweep(func(x *text) { out.Put(record(x, false, resolve)) })
		}
		for n := 10 * hlib.Int("DEEP", 20); n > 0; n-- {
			t := balance(hlib.Repetitive(rng, strongs, []string{"NSM", "BN", "ET", "EN", "ON", "WS", "CS"}, 64), false)
			both(func(e int) { out.Put(record(mk(t, e, 1), mode == "order", resolve)) })
		}
		for n := hlib.Int("BLOWN", 60); n > 0; n-- {
			t := balance(hlib.RandomWord(rng, strongs, 1+rng.Intn(9)), false)
			if n%3 == 0 {
				t = balance(structured(), false)
			}
			both(func(e int) { out.Put(record(blow(mk(t, e, style())), mode == "order", resolve)) })
		}
		for n := hlib.Int("DEEP", 20); n > 0; n-- {
			t := deep()
			both(func(e int) { out.Put(record(mk(t, e, 1), mode == "order", resolve)) })
		}
		for n := hlib.Int("DEEP", 20); n > 0; n-- {
			t := balance(vast(), false)
			if n%2 == 0 {
				t = abyss()
			}
			both(func(e int) { out.Put(record(mk(t, e, 1), mode == "order", resolve)) })
		}
	case "cover":
		more := append([]string{"LRE", "RLE", "PDF", "LRO", "RLO"}, strongs...)
		words(func(t []string) {
			both(func(e int) { out.Put(recordCover(withEnd(mk(t, e, style()), more))) })
		})
		for n := hlib.Int("RND", 2000); n > 0; n-- {
			t := hlib.RandomWord(rng, more, 3+rng.Intn(30))
			both(func(e int) { out.Put(recordCover(withEnd(mk(t, e, style()), more))) })
		}
		for n := hlib.Int("BLOWN", 60); n > 0; n-- {
			x := blow(mk(hlib.RandomWord(rng, more, 1+rng.Intn(12)), rng.Intn(2), 1))
			out.Put(recordCover(x, len(x.s)))
		}
		// long ones
		for n := hlib.Int("LONG", 20); n > 0; n-- {
			x := mk(hlib.RandomWord(rng, more, 500+rng.Intn(1500)), rng.Intn(2), 1)
			o := recordCover(x, len(x.s))
			o.K = o.K[:100] + "..."
			out.Put(o)
		}
	case "ops":
		words(func(t []string) {
			if len(t) < 6 && !balanced(t, false) {
				return
			}
			t = balance(t, false)
			both(func(e int) { out.Put(recordOps(mk(t, e, style()), 3+rng.Intn(hlib.Int("OPS", 8)))) })
		})
		for n := hlib.Int("BLOWN", 60); n > 0; n-- {
			t := balance(hlib.RandomWord(rng, strongs, 1+rng.Intn(9)), false)
			both(func(e int) { out.Put(recordOps(blow(mk(t, e, style())), 3+rng.Intn(4))) })
		}
	case "markup":
		words(func(t []string) {
			if len(t) < 6 && !balanced(t, true) {
				return
			}
			t = balance(t, true)
			both(func(e int) {
				if o, ok := recordMarkup(mk(t, e, rng.Intn(2))); ok {
					out.Put(o)
				}
			})
		})
		for n := hlib.Int("BLOWN", 60); n > 0; n-- {
			t := balance(structured(), true)
			both(func(e int) {
				if o, ok := recordMarkup(blow(mk(t, e, rng.Intn(2)))); ok {
					out.Put(o)
				}
			})
		}
	case "par":
		parallel(out, hlib.Int("ROUNDS", 50), hlib.Int("WIDTH", 16))
	case "alone":
		alone(out, hlib.Int("ROUNDS", 50))
	default:
		hlib.Die("unknown mode %q", mode)
	}
	out.Close()
}

// withEnd appends a paragraph separator and more text to some of the texts: nothing of it
// belongs to the paragraph.
func withEnd(x *text, names []string) (*text, int) {
	n := len(x.s)
	for _, o := range x.t {
		if o == "B" {
			hlib.Die("text with B")
		}
	}
	if rng.Intn(6) != 0 {
		return x, n
	}
	y := mk(append(append([]string{}, x.t...), append([]string{"B"}, hlib.RandomWord(rng, names, rng.Intn(5))...)...), x.e, rng.Intn(2))
	n = y.pos[len(x.t)]
	return y, n
}
