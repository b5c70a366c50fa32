//go:build go1.21

// Records the grapheme segments of texts.
package main

import (
	"bufio"
	"strings"

	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/internal/zzverif/hlib"
	"github.com/npillmayer/uax/segment"
)

type obs struct {
	K string   `json:"k"`
	T []string `json:"t"`
	B []int    `json:"b"`
}

func main() {
	rng := hlib.Rng()
	out := hlib.Open()
	cls := hlib.Load("gcb.txt")
	grapheme.SetupGraphemeClasses()
	seg := segment.NewSegmenter(grapheme.NewBreaker(1))
	run := func(t []string) {
		rs := cls.Text(rng, t)
		hlib.Begin(hlib.Hex(rs))
		defer hlib.Done()
		if rng.Intn(4) == 0 { // a breaker that has not seen any text before
			seg = segment.NewSegmenter(grapheme.NewBreaker(1))
		}
		if rng.Intn(6) == 0 { // leave a text in the midst of it
			seg.InitFromSlice(cls.Text(rng, hlib.RandomWord(rng, cls.Names(), 8)))
			for i := rng.Intn(4); i > 0; i-- {
				seg.Next()
			}
		}
		if rng.Intn(3) == 0 {
			seg.InitFromSlice(rs)
		} else {
			seg.Init(bufio.NewReader(strings.NewReader(string(rs))))
		}
		o := obs{K: hlib.Hex(rs), T: t, B: []int{}}
		pos := 0
		for seg.Next() {
			pos += len([]rune(seg.Text()))
			o.B = append(o.B, pos)
			if len(o.B) > len(rs)+2 {
				break // does not come to an end
			}
		}
		out.Put(o)
	}
	names := cls.Names()
	hlib.Words(names, 0, hlib.Int("EXH", 4), run)
	for n := hlib.Int("RND", 30000); n > 0; n-- {
		run(hlib.RandomWord(rng, names, 5+hlib.Len(rng, 12)))
	}
	for n := hlib.Int("REP", 1200); n > 0; n-- {
		run(hlib.Repetitive(rng, names, []string{"Extend", "ZWJ", "RI", "Prepend"}, 256))
	}
	out.Close()
}
