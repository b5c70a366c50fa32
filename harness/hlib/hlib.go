//go:build go1.21

// Package hlib holds what the conformance harnesses have in common. It is not part of
// npillmayer/uax: it is compiled into it by an overlay, see /verif/lib/vlib.py.
package hlib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"unicode"
)

// Out is where observations go.
type Out struct {
	w *bufio.Writer
	f *os.File
	n int
}

// Open opens the observation file $OBS.
func Open() *Out { return OpenEnv("OBS") }

// OpenEnv opens the observation file given by an environment variable.
func OpenEnv(v string) *Out {
	f, err := os.Create(os.Getenv(v))
	if err != nil {
		Die("cannot create observation file: %v", err)
	}
	return &Out{w: bufio.NewWriterSize(f, 1<<20), f: f}
}

// Put writes one observation.
func (o *Out) Put(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		Die("marshal: %v", err)
	}
	o.w.Write(b)
	o.w.WriteByte('\n')
	o.n++
}

// Close closes the file.
func (o *Out) Close() {
	if err := o.w.Flush(); err != nil {
		Die("flush: %v", err)
	}
	o.f.Close()
}

// Die stops with exit code 3 (an error of the check, never a violation).
func Die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(3)
}

// Rng returns the random source for $VERIF_SEED.
func Rng() *rand.Rand {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		n = 1
	}
	return rand.New(rand.NewSource(int64(n)*7919 + 17))
}

// Thorough is true for the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Int returns an integer parameter from the environment.
func Int(name string, dflt int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return dflt
}

// Classes maps the name of a class to its code points.
type Classes map[string][]rune

// Range is a range of code points of the same class.
type Range struct {
	Lo, Hi int
	Class  string
}

// Ranges loads a data file.
func Ranges(name string) []Range {
	f, err := os.Open(filepath.Join(os.Getenv("VERIF_DATA"), name))
	if err != nil {
		Die("data: %v", err)
	}
	defer f.Close()
	var l []Range
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var r Range
		if _, err := fmt.Sscanf(sc.Text(), "%d %d %s", &r.Lo, &r.Hi, &r.Class); err != nil {
			Die("data %s: %v", name, err)
		}
		l = append(l, r)
	}
	return l
}

// Load loads the classes of a data file.
func Load(name string) Classes {
	c := Classes{}
	for _, r := range Ranges(name) {
		for i := r.Lo; i <= r.Hi; i++ {
			c[r.Class] = append(c[r.Class], rune(i))
		}
	}
	return c
}

// Names returns the sorted names of classes.
func (c Classes) Names() []string {
	var l []string
	for n := range c {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// Any returns a code point of class name.
func (c Classes) Any(rng *rand.Rand, name string) rune {
	l := c[name]
	if len(l) == 0 {
		Die("no code point of class %s", name)
	}
	// prefer no block: half of the choices come from the first 256 members
	if len(l) > 256 && rng.Intn(2) == 0 {
		return l[rng.Intn(256)]
	}
	return l[rng.Intn(len(l))]
}

// Text returns a code point for every class of a sequence.
func (c Classes) Text(rng *rand.Rand, t []string) []rune {
	r := make([]rune, len(t))
	for i, n := range t {
		r[i] = c.Any(rng, n)
	}
	return r
}

// Words calls f with every sequence over alphabet of a length in from..to.
func Words(alphabet []string, from, to int, f func([]string)) {
	var rec func(w []string, n int)
	rec = func(w []string, n int) {
		if n == 0 {
			f(w)
			return
		}
		for _, a := range alphabet {
			rec(append(w[:len(w):len(w)], a), n-1)
		}
	}
	for n := from; n <= to; n++ {
		rec([]string{}, n)
	}
}

// RandomWord returns a random sequence over alphabet. Sequences come in flavours: a small
// random part of the alphabet dominates, thus rare combinations are met.
func RandomWord(rng *rand.Rand, alphabet []string, n int) []string {
	k := 2 + rng.Intn(4)
	fav := make([]string, k)
	for i := range fav {
		fav[i] = alphabet[rng.Intn(len(alphabet))]
	}
	w := make([]string, n)
	for i := range w {
		switch {
		case i > 0 && rng.Intn(6) == 0:
			w[i] = w[i-1]
		case rng.Intn(8) == 0:
			w[i] = alphabet[rng.Intn(len(alphabet))]
		default:
			w[i] = fav[rng.Intn(k)]
		}
	}
	return w
}

// Hex returns code points in readable form.
func Hex(rs []rune) string {
	s := ""
	for i, r := range rs {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%04X", r)
	}
	return s
}

// Len returns the length of a text: mostly a small one of up to n, sometimes much longer.
func Len(rng *rand.Rand, n int) int {
	switch k := rng.Intn(400); {
	case k == 0:
		n *= 40
	case k < 30:
		n *= 4
	}
	return rng.Intn(n + 1)
}

// Repetitive returns a text with one, or two, long runs of the same few classes in it. Classes
// in marks are preferred for the runs. Lengths are around powers of two.
func Repetitive(rng *rand.Rand, alphabet, marks []string, max int) []string {
	w := []string{}
	for k := 1 + rng.Intn(2); k > 0; k-- {
		w = append(w, RandomWord(rng, alphabet, 1+rng.Intn(3))...)
		run := []string{alphabet[rng.Intn(len(alphabet))]}
		if rng.Intn(3) > 0 {
			run = []string{marks[rng.Intn(len(marks))]}
		}
		for rng.Intn(4) == 0 {
			run = append(run, marks[rng.Intn(len(marks))])
		}
		for n := (max >> rng.Intn(6)) + rng.Intn(7) - 3; n > 0; n-- {
			w = append(w, run[n%len(run)])
		}
	}
	return append(w, RandomWord(rng, alphabet, 1+rng.Intn(3))...)
}

// SplitLineClasses makes the combining characters of class SA a class of their own, as rule LB1
// treats them differently, and leaves out NUL, which stands for the end of text in package uax14.
func SplitLineClasses(cls Classes) {
	var sa, sam, cm []rune
	for _, r := range cls["SA"] {
		if unicode.In(r, unicode.Mn, unicode.Mc) {
			sam = append(sam, r)
		} else {
			sa = append(sa, r)
		}
	}
	for _, r := range cls["CM"] {
		if r != 0 {
			cm = append(cm, r)
		}
	}
	cls["SA"], cls["SAm"], cls["CM"] = sa, sam, cm
}
