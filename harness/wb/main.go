//go:build go1.21

// Records the word segments of texts.
package main

import (
	"bufio"
	"strings"

	"github.com/npillmayer/uax/internal/zzverif/hlib"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
)

type obs struct {
	K string   `json:"k"`
	T []string `json:"t"`
	B []int    `json:"b"`
	H []int    `json:"h"`
}

func main() {
	rng := hlib.Rng()
	out := hlib.Open()
	cls := hlib.Load("wb.txt")
	seg := segment.NewSegmenter(uax29.NewWordBreaker(1))
	run := func(t []string) {
		rs := cls.Text(rng, t)
		hlib.Begin(hlib.Hex(rs))
		defer hlib.Done()
		if rng.Intn(4) == 0 { // a breaker that has not seen any text before
			seg = segment.NewSegmenter(uax29.NewWordBreaker(1))
		}
		if rng.Intn(6) == 0 { // leave a text in the midst of it
			seg.InitFromSlice(cls.Text(rng, hlib.RandomWord(rng, cls.Names(), 8)))
			for i := rng.Intn(4); i > 0; i-- {
				seg.Next()
			}
		}
		if rng.Intn(3) == 0 {
			seg.InitFromSlice(rs)
		} else {
			seg.Init(bufio.NewReader(strings.NewReader(string(rs))))
		}
		o := obs{K: hlib.Hex(rs), T: t, B: []int{}, H: []int{}}
		pos := 0
		for seg.Next() {
			n := len([]rune(seg.Text()))
			pos += n
			o.B = append(o.B, pos)
			if p, _ := seg.Penalties(); p <= -10000 {
				o.H = append(o.H, pos)
			}
			if len(o.B) > len(rs)+2 {
				break // does not come to an end
			}
		}
		out.Put(o)
	}
	names := cls.Names()
	hlib.Words(names, 0, hlib.Int("EXH", 3), run)
	for n := hlib.Int("RND", 30000); n > 0; n-- {
		run(hlib.RandomWord(rng, names, 4+hlib.Len(rng, 12)))
	}
	for n := hlib.Int("REP", 1200); n > 0; n-- {
		run(hlib.Repetitive(rng, names, []string{"Extend", "Format", "ZWJ", "RI"}, 256))
	}
	out.Close()
}
