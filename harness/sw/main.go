//go:build go1.21

// Records what the simple word breaker makes of texts.
package main

import (
	"bufio"
	"strings"

	"github.com/npillmayer/uax/internal/zzverif/hlib"
	"github.com/npillmayer/uax/segment"
)

type obs struct {
	K string   `json:"k"`
	T []string `json:"t"`
	S [][2]int `json:"s"` // ends of segments and penalties
	O int      `json:"o"` // penalties of the other breaker (all zero)
	X bool     `json:"x"` // segments are the text
}

type indifferent struct{}

func (indifferent) CodePointClassFor(rune) int { return 0 }
func (indifferent) StartRulesFor(rune, int)    {}
func (indifferent) ProceedWithRune(rune, int)  {}
func (indifferent) LongestActiveMatch() int    { return 0 }
func (indifferent) Penalties() []int           { return nil }

var names = []string{"s", "o"}

func main() {
	rng := hlib.Rng()
	out := hlib.Open()
	cls := hlib.Load("ws.txt")
	fresh := func(i int) *segment.Segmenter {
		switch i {
		case 0:
			return segment.NewSegmenter()
		case 1:
			return segment.NewSegmenter(segment.NewSimpleWordBreaker())
		case 2:
			return segment.NewSegmenter(&segment.SimpleWordBreaker{})
		case 3:
			return segment.NewSegmenter(segment.NewSimpleWordBreaker(), indifferent{})
		}
		return segment.NewSegmenter(indifferent{}, segment.NewSimpleWordBreaker())
	}
	used := []*segment.Segmenter{fresh(0), fresh(1), fresh(2), fresh(3), fresh(4)}
	run := func(t []string, rs []rune) {
		o := obs{K: hlib.Hex(rs), T: t, S: [][2]int{}}
		hlib.Begin(o.K)
		w := rng.Intn(5)
		seg := used[w]
		if rng.Intn(4) == 0 {
			seg = fresh(w)
		}
		if rng.Intn(3) == 0 {
			seg.InitFromSlice(rs)
		} else {
			seg.Init(bufio.NewReader(strings.NewReader(string(rs))))
		}
		pos, txt := 0, ""
		for seg.Next() && len(o.S) < len(t)+3 {
			pos += len(seg.Runes())
			txt += seg.Text()
			p, q := seg.Penalties()
			if w == 4 {
				p, q = q, p
			}
			o.S = append(o.S, [2]int{pos, p})
			if q != 0 {
				o.O = q
			}
		}
		o.X = txt == string(rs)
		hlib.Done()
		out.Put(o)
	}
	hlib.Words(names, 0, hlib.Int("EXH", 10), func(t []string) { run(t, cls.Text(rng, t)) })
	for _, s := range cls["s"] { // every white space
		run([]string{"s"}, []rune{s})
		run([]string{"o", "s", "o"}, []rune{'x', s, 'x'})
		for _, s2 := range cls["s"] {
			run([]string{"s", "s"}, []rune{s, s2})
			run([]string{"o", "s", "s", "o"}, []rune{cls.Any(rng, "o"), s, s2, cls.Any(rng, "o")})
		}
	}
	for n := hlib.Int("RND", 5000); n > 0; n-- {
		t := hlib.RandomWord(rng, names, 4+rng.Intn(60))
		run(t, cls.Text(rng, t))
	}
	out.Close()

	// the class of every code point: as ranges
	rout := hlib.OpenEnv("OBS2")
	seg := used[1]
	lo, last, prev := 0, "", -1
	put := func() {
		if last != "" {
			rout.Put([]interface{}{lo, prev, last})
		}
	}
	for c := 1; c <= 0x10ffff; c++ {
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		hlib.Begin("x " + hlib.Hex([]rune{rune(c)}) + " x")
		seg.InitFromSlice([]rune{'x', rune(c), 'x'})
		n, k := 0, "o"
		for seg.Next() {
			n++
		}
		if n == 3 {
			k = "s"
		} else if n != 1 {
			k = "?"
		}
		if k != last || prev != c-1 {
			put()
			lo, last = c, k
		}
		prev = c
	}
	put()
	rout.Close()
}
