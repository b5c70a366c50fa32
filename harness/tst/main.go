//go:build go1.21

// Records what is read from break test files of the Unicode Character Database.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/npillmayer/uax/internal/ucdparse"
	"github.com/npillmayer/uax/internal/zzverif/hlib"
)

type test struct {
	T []int `json:"t"`
	C []int `json:"c"`
}

type obs struct {
	K     string  `json:"k"`
	M     string  `json:"m"`
	B     []int   `json:"b"`
	Got   []test  `json:"got"`
	Long  int     `json:"long"`
	Err   bool    `json:"err"`
	Again bool    `json:"again"`
	Inp   []int   `json:"inp"`
	Segs  [][]int `json:"segs"`
	Panic string  `json:"panic"`
}

var rng *rand.Rand
var dir string

func fresh(m, k string) obs {
	return obs{K: k, M: m, B: []int{}, Got: []test{}, Inp: []int{}, Segs: [][]int{}}
}

func ints(s string) []int {
	l := []int{}
	for _, r := range s {
		l = append(l, int(r))
	}
	return l
}

// file reads a file; it has long as an additional line that is too long, and rest behind that.
func file(out *hlib.Out, s string, long bool, rest string) {
	o := fresh("file", fmt.Sprintf("%+q", s))
	o.B = ints(s)
	if long {
		o.K += " and a line that is too long"
		o.Long = 1 + strings.Count(s, "\n")
		s += "÷ 0041 ÷ # " + strings.Repeat("x", 70000) + "\n" + rest
	}
	name := filepath.Join(dir, "test.txt")
	if err := os.WriteFile(name, []byte(s), 0o644); err != nil {
		hlib.Die("%v", err)
	}
	hlib.Begin(o.K)
	o.Panic = hlib.Safely(func() {
		tf := ucdparse.OpenTestFile(name, nil)
		defer tf.Close()
		for tf.Scan() {
			if len(o.Got) > len(s) {
				panic("no end of tests")
			}
			t := test{ints(tf.Text()), ints(tf.Comment())}
			if rng.Intn(4) == 0 { // asking twice
				t = test{ints(tf.Text()), ints(tf.Comment())}
			}
			o.Got = append(o.Got, t)
		}
		o.Err = tf.Err() != nil
		if !o.Err { // behind an error there is no promise
			o.Again = tf.Scan() || tf.Scan()
		}
	})
	hlib.Done()
	out.Put(o)
}

func split(out *hlib.Out, s string) {
	o := fresh("test", fmt.Sprintf("%+q", s))
	o.B = ints(s)
	hlib.Begin(o.K)
	o.Panic = hlib.Safely(func() {
		inp, segs := ucdparse.BreakTestInput(s)
		o.Inp = ints(inp)
		for _, x := range segs {
			o.Segs = append(o.Segs, ints(x))
		}
	})
	hlib.Done()
	out.Put(o)
}

func missing(out *hlib.Out, name string) {
	o := fresh("missing", name)
	hlib.Begin(o.K)
	o.Panic = hlib.Safely(func() { o.Err = ucdparse.OpenTestFile(filepath.Join(dir, name), nil) == nil })
	hlib.Done()
	out.Put(o)
}

func pick(l ...string) string { return l[rng.Intn(len(l))] }

func hex() string {
	for {
		n := rng.Intn(0x110000)
		switch rng.Intn(4) {
		case 0:
			n = rng.Intn(0x80)
		case 1:
			n = rng.Intn(0x10000)
		case 2:
			n = int([]rune{0, 0xd, 0xa, 0x308, 0x200d, 0x1f1e6, 0x10ffff, 0xfffd, 0xd7ff, 0xe000, 0xd7, 0xf7}[rng.Intn(12)])
		}
		if n < 0xd800 || n > 0xdfff { // no surrogates: these are none in a string
			return pick(fmt.Sprintf("%04X", n), fmt.Sprintf("%04X", n), fmt.Sprintf("%04x", n), fmt.Sprintf("%X", n))
		}
	}
}

func white() string { return pick(" ", " ", " ", "\t", "  ") }

// words is a test with n code points
func words(n int, white func() string) string {
	s := "÷"
	for i := 0; i < n; i++ {
		m := pick("÷", "×")
		if i == n-1 {
			m = "÷"
		}
		s += white() + hex() + white() + m
	}
	return s
}

func comment() string {
	return pick("", "÷ [0.2] LATIN CAPITAL LETTER A (Other) ÷ [0.3]", "× [9.0] NUMBER SIGN (#) ÷", "##", "a # b", "÷", "#", "x", "[1] 世界")
}

func line() string {
	sp := func() string { return pick("", "", " ", "\t", "  ") }
	switch rng.Intn(8) {
	case 0:
		return sp()
	case 1:
		return sp() + "#" + sp() + comment() + sp()
	}
	s := sp() + words(rng.Intn(5), white) + sp()
	if rng.Intn(3) > 0 {
		s += "#" + sp() + comment() + sp()
	}
	return s
}

func text(n int) string {
	s := ""
	e := pick("\n", "\r\n")
	for i := 0; i < n; i++ {
		s += line() + e
	}
	return s
}

func main() {
	rng = hlib.Rng()
	out := hlib.Open()
	var err error
	if dir, err = os.MkdirTemp(os.Getenv("SCRATCH"), "tst"); err != nil {
		hlib.Die("%v", err)
	}
	defer os.RemoveAll(dir)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = null
	}
	// every combination of small lines
	lines := []string{"", " ", "#", "# x", " # y", "÷ 0041 ÷", "÷ 0042 ÷ # z", " ÷ 0043 × 0308 ÷\t#a#b"}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		file(out, s, false, "")
		for _, l := range lines {
			file(out, s+l, false, "")
			if n > 0 {
				rec(s+l+"\n", n-1)
			}
		}
	}
	rec("", hlib.Int("EXH", 2))
	for n := hlib.Int("RND", 1000); n > 0; n-- {
		s := text(rng.Intn(8))
		if rng.Intn(3) == 0 {
			s += line()
		}
		file(out, s, false, "")
	}
	for n := hlib.Int("BIG", 4); n > 0; n-- {
		file(out, text(300+rng.Intn(300)), false, "")
		file(out, text(rng.Intn(40)), true, text(3))
		missing(out, fmt.Sprintf("none%d.txt", rng.Intn(10)))
	}
	// every way to divide a few code points
	for n := 0; n <= 7; n++ {
		for m := 0; m < 1<<n; m++ {
			s := "÷"
			for i := 0; i < n; i++ {
				s += " " + hex() + " " + map[bool]string{true: "÷", false: "×"}[i == n-1 || m&(1<<i) != 0]
			}
			split(out, s)
		}
	}
	for n := hlib.Int("RND", 1000); n > 0; n-- {
		split(out, pick("", " ", "\t")+words(rng.Intn(20), white)+pick("", " ", "\t"))
	}
	out.Close()
}
