//go:build go1.21

// Records what the parser makes of files in the format of the Unicode Character Database.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"testing/iotest"

	"github.com/npillmayer/uax/internal/ucdparse"
	"github.com/npillmayer/uax/internal/zzverif/hlib"
)

type tok struct {
	No   int     `json:"no"`
	From int     `json:"from"`
	To   int     `json:"to"`
	F    [][]int `json:"f"`
	C    []int   `json:"c"`
	More []int   `json:"more"`
	Ty   string  `json:"ty"`
}

type obs struct {
	K     string `json:"k"`
	M     string `json:"m"`
	B     []int  `json:"b"`
	Toks  []tok  `json:"toks"`
	Fail  bool   `json:"fail"`
	Err   bool   `json:"err"`
	Panic string `json:"panic"`
}

type big struct {
	K     string   `json:"k"`
	M     string   `json:"m"`
	R     [][2]int `json:"r"`
	Got   [][2]int `json:"got"`
	Long  int      `json:"long"`
	Err   bool     `json:"err"`
	Panic string   `json:"panic"`
}

var rng *rand.Rand

func ints(s string) []int {
	l := []int{}
	for _, r := range s {
		l = append(l, int(r))
	}
	return l
}

// parse calls the parser; the token that announces a document is none of the items.
func parse(r io.Reader, f func(t *ucdparse.Token)) error {
	return ucdparse.Parse(r, func(t *ucdparse.Token) {
		if t.TokenType.String() != "docRoot" {
			f(t)
		}
	})
}

// reader delivers s in chunks; it fails in the end, if asked to
func reader(s string, fail bool) io.Reader {
	var r io.Reader = strings.NewReader(s)
	if fail {
		r = io.MultiReader(r, iotest.ErrReader(errors.New("broken")))
	}
	switch rng.Intn(4) {
	case 0:
		r = iotest.OneByteReader(r)
	case 1:
		r = iotest.HalfReader(r)
	case 2:
		if !fail {
			r = iotest.DataErrReader(r)
		}
	}
	return r
}

func run(out *hlib.Out, s string, fail bool) {
	o := obs{K: fmt.Sprintf("%+q", s), M: "file", B: ints(s), Toks: []tok{}, Fail: fail}
	if fail {
		o.K += " and a reader error"
	}
	hlib.Begin(o.K)
	o.Panic = hlib.Safely(func() {
		err := parse(reader(s, fail), func(t *ucdparse.Token) {
			if len(o.Toks) > len(s) {
				panic("no end of tokens")
			}
			from, to := t.Range()
			x := tok{No: t.LineNo, From: int(from), To: int(to), F: [][]int{}, C: ints(t.Comment), Ty: t.TokenType.String()}
			for i := 1; i <= len(t.Fields); i++ {
				x.F = append(x.F, ints(t.Field(i)))
			}
			x.More = ints(t.Field(len(t.Fields) + 1 + rng.Intn(3)))
			o.Toks = append(o.Toks, x)
		})
		o.Err = err != nil
	})
	hlib.Done()
	out.Put(o)
}

func pick(l ...string) string { return l[rng.Intn(len(l))] }

func hex() string {
	switch rng.Intn(4) {
	case 0:
		return fmt.Sprintf("%X", rng.Intn(0x300))
	case 1:
		return fmt.Sprintf("%04x", rng.Intn(0x10000))
	}
	return fmt.Sprintf("%04X", rng.Intn(0x110000))
}

func white() string { return pick("", "", " ", "  ", "\t", " \t ") }

func field() string {
	return pick("", "", "L", "Lu", "CM", "0041", "0041 030A", "<control>", "a b", "1/2", "W_N", "-", "é", "..", "A..B")
}

func comment() string {
	return pick("", "Lu", "LATIN SMALL LETTER A", "E0.0   [1] (#️)       number sign", "a # b", "##", "a;b", "[18] <control-000E>..<control-001F>",
		"世界", ";", "# #")
}

func line() string {
	switch rng.Intn(8) {
	case 0:
		return white()
	case 1:
		return white() + "#" + white() + comment() + white()
	}
	s := hex()
	if rng.Intn(3) == 0 {
		s += ".." + hex()
	}
	if rng.Intn(15) == 0 {
		s += " " + hex() // a sequence
	}
	for n := rng.Intn(5); n > 0; n-- {
		s += white() + ";" + white() + field()
	}
	s += white()
	if rng.Intn(2) == 0 {
		s += "#" + white() + comment() + white()
	}
	return s
}

func eol() string { return pick("\n", "\n", "\r\n", "\r") }

func text() string {
	n := rng.Intn(6)
	ends := eol
	if rng.Intn(2) == 0 {
		e := eol()
		ends = func() string { return e }
	}
	s := ""
	for i := 0; i < n; i++ {
		s += line() + ends()
	}
	if rng.Intn(3) == 0 {
		s += line()
	}
	return s
}

// large files: the lines come with some field, or are too long
func large(out *hlib.Out, lines int, e func() string, long int) {
	o := big{K: fmt.Sprintf("%d lines, seed %d", lines, rng.Int63()), M: "big", R: [][2]int{}, Got: [][2]int{}, Long: long}
	var b bytes.Buffer
	for i := 1; i <= lines; i++ {
		r := [2]int{rng.Intn(0x110000), 0}
		r[1] = r[0] + rng.Intn(10)*rng.Intn(2)
		o.R = append(o.R, r)
		fmt.Fprintf(&b, "%04X", r[0])
		if r[1] != r[0] {
			fmt.Fprintf(&b, "..%04X", r[1])
		}
		b.WriteString(" ; x")
		if i == long {
			b.WriteString(" # " + strings.Repeat("y", 70000))
		} else if rng.Intn(2) == 0 {
			b.WriteString(" # " + strings.Repeat("z", rng.Intn(200)))
		}
		if i < lines || rng.Intn(2) == 0 {
			b.WriteString(e())
		}
	}
	hlib.Begin(o.K)
	o.Panic = hlib.Safely(func() {
		err := parse(reader(b.String(), false), func(t *ucdparse.Token) {
			if len(o.Got) > lines {
				panic("no end of tokens")
			}
			from, to := t.Range()
			o.Got = append(o.Got, [2]int{int(from), int(to)})
		})
		o.Err = err != nil
	})
	hlib.Done()
	out.Put(o)
}

func main() {
	rng = hlib.Rng()
	out := hlib.Open()
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil { // the parser is talkative
		os.Stdout = null
	}
	// every combination of small lines
	lines := []string{"", " ", "#", " # x", "41", "41;a", "41..5A ; b # c", "0041;;d#"}
	ends := []string{"\n", "\r", "\r\n"}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		run(out, s, false)
		for _, l := range lines {
			run(out, s+l, false)
			if n > 0 {
				for _, e := range ends {
					rec(s+l+e, n-1)
				}
			}
		}
	}
	rec("", hlib.Int("EXH", 2))
	for n := hlib.Int("RND", 10000); n > 0; n-- {
		s := text()
		run(out, s, false)
		if rng.Intn(4) == 0 { // fails anywhere
			l := []rune(s)
			run(out, string(l[:rng.Intn(len(l)+1)]), true)
		}
	}
	for n := hlib.Int("BIG", 10); n > 0; n-- {
		e := eol()
		large(out, 500+rng.Intn(2000), func() string { return e }, 0)
		large(out, 500+rng.Intn(2000), eol, 0)
		large(out, 3000, func() string { return "\r" }, 0)
		k := 1 + rng.Intn(200)
		large(out, k+rng.Intn(3), eol, k)
	}
	out.Close()
}
