//go:build go1.21

package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/npillmayer/uax/internal/zzverif/hlib"
	"github.com/npillmayer/uax/segment"
)

type bigObs struct {
	K    string `json:"k"`
	Runs []int  `json:"runs"`
	Max  int    `json:"max"`
	Segs []int  `json:"segs"`
	Err  string `json:"err"`
	Same bool   `json:"same"`
}

// hugeTexts records texts of very long words
func hugeTexts(rng *rand.Rand, n int) {
	out := hlib.OpenEnv("OBS2")
	around := func(m int) int { return m - 2 + rng.Intn(5) }
	seg := segment.NewSegmenter()
	for i := 0; i < n; i++ {
		o := bigObs{Max: segment.MaxSegmentSize, Runs: []int{}, Segs: []int{}, Same: true}
		buf := 0
		if i < 6 || rng.Intn(3) == 0 { // default
			seg = segment.NewSegmenter()
		} else if rng.Intn(3) > 0 {
			seg = segment.NewSegmenter()
			buf = []int{1, 2, 10, 4095, 4096, 4097, 9000}[rng.Intn(7)]
			o.Max = []int{1, 2, 9, 10, 11, 4095, 4096, 4097, 8192, 9001, 70000}[rng.Intn(11)]
			seg.RuneBuffer(make([]rune, buf), o.Max)
			if buf > o.Max {
				o.Max = buf
			}
		} else {
			seg = segment.NewSegmenter()
		}
		for k := 1 + rng.Intn(4); k > 0; k-- {
			m := 1 + rng.Intn(50)
			switch rng.Intn(5) {
			case 0:
				m = around(o.Max)
			case 1:
				m = []int{4095, 4096, 4097, 8191, 8192, 8193, 12289}[rng.Intn(7)]
			case 2:
				m = 1 + rng.Intn(10000)
			}
			if m < 1 {
				m = 1
			}
			o.Runs = append(o.Runs, m)
		}
		switch i { // these in any case
		case 0:
			o.Runs = []int{segment.MaxSegmentSize}
		case 1:
			o.Runs = []int{segment.MaxSegmentSize + 1}
		case 2:
			o.Runs = []int{1, 1, segment.MaxSegmentSize, 3}
		case 3:
			o.Runs = []int{5, 1, segment.MaxSegmentSize + 1, 3}
		}
		slice := i > 3 && rng.Intn(4) == 0
		var sb strings.Builder
		first := rng.Intn(2)
		for k, m := range o.Runs {
			for j := 0; j < m; j++ {
				if (k+first)%2 == 0 && (j+k)%97 == 96 { // a reader of runes delivers U+FFFD for an illegal byte
					sb.WriteByte(0xff)
				} else if (k+first)%2 == 0 {
					sb.WriteRune([]rune{'a', 'b', 0x4e00, 0x1f600, 0xe4}[(j*j+j/7)%5])
				} else {
					sb.WriteRune([]rune{' ', '\t', 0x2003}[(j*j+j/7)%3])
				}
			}
		}
		o.K = fmt.Sprintf("runs %v buffer %d max %d slice %v", o.Runs, buf, o.Max, slice)
		hlib.Begin(o.K)
		if slice {
			o.Max = -1
			seg.InitFromSlice([]rune(sb.String()))
		} else {
			seg.Init(strings.NewReader(sb.String()))
		}
		rest := string([]rune(sb.String()))
		for seg.Next() {
			t := seg.Text()
			o.Segs = append(o.Segs, len([]rune(t)))
			if !strings.HasPrefix(rest, t) || string(seg.Bytes()) != t || string(seg.Runes()) != t {
				o.Same = false
			} else {
				rest = rest[len(t):]
			}
		}
		o.Err = errText(seg.Err())
		hlib.Done()
		out.Put(o)
	}
	out.Close()
}
