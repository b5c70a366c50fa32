//go:build go1.21

// Records the line break opportunities of texts.
package main

import (
	"bufio"
	"math/rand"
	"strings"

	"github.com/npillmayer/uax/internal/zzverif/hlib"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax14"
)

type obs struct {
	K string   `json:"k"`
	T []string `json:"t"`
	B []int    `json:"b"`
	H []int    `json:"h"`
}

// hints are the parts of numbers and other sequences that are subject to more than one rule.
var hints = []string{"PR", "PO", "OP", "HY", "NU", "NU", "SY", "IS", "CL", "CP", "AL", "HL", "BA", "CM", "ZWJ", "SP", "ID", "RI", "QU"}

func main() {
	rng := hlib.Rng()
	out := hlib.Open()
	cls := hlib.Load("lb.txt")
	hlib.SplitLineClasses(cls)
	seg := segment.NewSegmenter(uax14.NewLineWrap())
	run := func(t []string) {
		rs := cls.Text(rng, t)
		hlib.Begin(hlib.Hex(rs))
		defer hlib.Done()
		if rng.Intn(4) == 0 { // a breaker that has not seen any text before
			seg = segment.NewSegmenter(uax14.NewLineWrap())
		}
		if rng.Intn(6) == 0 { // leave a text in the midst of it
			seg.InitFromSlice(cls.Text(rng, hlib.RandomWord(rng, hints, 8)))
			for i := rng.Intn(4); i > 0; i-- {
				seg.Next()
			}
		}
		if rng.Intn(3) == 0 {
			seg.InitFromSlice(rs)
		} else {
			seg.Init(bufio.NewReader(strings.NewReader(string(rs))))
		}
		o := obs{K: hlib.Hex(rs), T: t, B: []int{}, H: []int{}}
		pos := 0
		for seg.Next() {
			pos += len([]rune(seg.Text()))
			o.B = append(o.B, pos)
			if p, _ := seg.Penalties(); p <= -10000 {
				o.H = append(o.H, pos)
			}
			if len(o.B) > len(rs)+2 {
				break // does not come to an end
			}
		}
		out.Put(o)
	}
	names := cls.Names()
	hlib.Words(names, 0, hlib.Int("EXH", 2), run)
	hlib.Words(hints[:15], 4, hlib.Int("PART", 0), run)
	for n := hlib.Int("RND", 30000); n > 0; n-- {
		switch rng.Intn(3) {
		case 0:
			run(hlib.RandomWord(rng, hints, 3+hlib.Len(rng, 10)))
		case 1:
			run(triple(rng, names))
		default:
			run(hlib.RandomWord(rng, names, 3+hlib.Len(rng, 12)))
		}
	}
	for n := hlib.Int("REP", 500); n > 0; n-- {
		run(hlib.Repetitive(rng, names, []string{"CM", "SP", "ZWJ", "RI"}, 256))
	}
	out.Close()

	// the class of every code point: as ranges
	rout := hlib.OpenEnv("OBS2")
	lo, last, prev := 0, "", -1
	put := func() {
		if last != "" {
			rout.Put([]interface{}{lo, prev, last})
		}
	}
	for c := 1; c <= 0x10ffff; c++ {
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		hlib.Begin("class of a code point")
		if k := strings.TrimSuffix(uax14.ClassForRune(rune(c)).String(), "Class"); k != last || prev != c-1 {
			put()
			lo, last = c, k
		}
		prev = c
	}
	put()
	rout.Close()
}

// triple returns a sequence of classes with marks or spaces in between.
func triple(rng *rand.Rand, names []string) []string {
	t := []string{}
	for i := 0; i < 3; i++ {
		t = append(t, names[rng.Intn(len(names))])
		for rng.Intn(3) == 0 {
			t = append(t, []string{"SP", "CM", "ZWJ", "CM"}[rng.Intn(4)])
		}
	}
	return t
}
