//go:build go1.21

// Records histories of hash tries.
package main

import (
	"fmt"
	"math/rand"
	"sync"

	"github.com/npillmayer/uax/bidi/trie"
	"github.com/npillmayer/uax/internal/zzverif/hlib"
)

type op struct {
	Op string  `json:"op"`
	W  []int   `json:"w"`
	P  int     `json:"p"`
	Ps []int   `json:"ps"`
	Ws [][]int `json:"ws"`
}

type obs struct {
	K     string `json:"k"`
	N     int    `json:"n"`
	C     int    `json:"c"`
	Ops   []op   `json:"ops"`
	Panic string `json:"panic"`
}

var rng *rand.Rand

func bytes(w []int) []byte {
	b := make([]byte, len(w))
	for i, c := range w {
		b[i] = byte(c)
	}
	return b
}

type hist struct {
	obs
	t      *trie.TinyHashTrie
	words  [][]int
	frozen bool
	full   bool
}

func (h *hist) put(o op) {
	if o.W == nil {
		o.W = []int{}
	}
	if o.Ps == nil {
		o.Ps = []int{}
	}
	if o.Ws == nil {
		o.Ws = [][]int{}
	}
	h.Ops = append(h.Ops, o)
}

func key(w []int) string { return fmt.Sprint(w) }

// alloc stores a word (or asks for it, if frozen)
func (h *hist) alloc(w []int) {
	o := op{Op: "alloc", W: w}
	if p := hlib.Safely(func() { o.P = h.t.AllocPositionForWord(bytes(w)) }); p != "" {
		o.P = -1
		h.full = true
	} else if !h.frozen {
		h.words = append(h.words, w)
	}
	h.put(o)
}

// step stores a word by way of an iterator
func (h *hist) step(w []int) {
	o := op{Op: "step", W: w}
	it := h.t.Iterator()
	if p := hlib.Safely(func() {
		for _, c := range w {
			o.Ps = append(o.Ps, it.Next(int8(c)))
		}
	}); p != "" {
		o.P = -1
		h.full = true
	} else {
		h.words = append(h.words, w)
	}
	h.put(o)
}

// all asks for all the prefixes of stored words
func (h *hist) all() {
	seen := map[string]bool{}
	o := op{Op: "all"}
	for _, w := range h.words {
		for n := 1; n <= len(w); n++ {
			if k := key(w[:n]); !seen[k] {
				seen[k] = true
				o.Ws = append(o.Ws, w[:n:n])
			}
		}
	}
	rng.Shuffle(len(o.Ws), func(i, j int) { o.Ws[i], o.Ws[j] = o.Ws[j], o.Ws[i] })
	for _, w := range o.Ws {
		o.Ps = append(o.Ps, h.t.AllocPositionForWord(bytes(w)))
	}
	h.put(o)
}

// walk walks along words, two at a time
func (h *hist) walk(w, v []int) {
	a, b := op{Op: "walk", W: w}, op{Op: "walk", W: v}
	i, j := h.t.Iterator(), h.t.Iterator()
	for len(a.Ps) < len(w) || len(b.Ps) < len(v) {
		if len(b.Ps) == len(v) || len(a.Ps) < len(w) && rng.Intn(2) == 0 {
			a.Ps = append(a.Ps, i.Next(int8(w[len(a.Ps)])))
		} else {
			b.Ps = append(b.Ps, j.Next(int8(v[len(b.Ps)])))
		}
	}
	h.put(a)
	h.put(b)
}

func (h *hist) word(max int) []int {
	w := []int{}
	if len(h.words) > 0 && rng.Intn(3) > 0 { // has a prefix in common with another one
		x := h.words[rng.Intn(len(h.words))]
		w = append(w, x[:rng.Intn(len(x))+1]...)
	}
	cats := h.C
	if rng.Intn(2) == 0 {
		cats = 1 + rng.Intn(h.C)
	}
	for n := 1 + rng.Intn(max); len(w) < n; {
		w = append(w, rng.Intn(cats))
	}
	return w
}

func run(out *hlib.Out, size, cats, words, max int) {
	h := &hist{obs: obs{N: size, C: cats, Ops: []op{}}}
	h.K = fmt.Sprintf("size %d, %d categories, seed %d", size, cats, rng.Int63())
	hlib.Begin(h.K)
	var err error
	h.Panic = hlib.Safely(func() {
		if h.t, err = trie.NewTinyHashTrie(uint8(size), int8(cats)); err != nil {
			panic(err)
		}
		for n := words; n > 0 && !h.full; n-- {
			if w := h.word(max); rng.Intn(5) == 0 {
				h.step(w)
			} else {
				h.alloc(w)
			}
			if !h.full && (words < 12 || rng.Intn(10) == 0) {
				h.all()
			}
		}
		if !h.full {
			h.all()
		}
		h.t.Freeze()
		h.frozen = true
		h.put(op{Op: "freeze"})
		h.all()
		if cats <= 3 {
			names := []string{"0", "1", "2"}[:cats]
			hlib.Words(names, 1, 4, func(t []string) {
				w := []int{}
				for _, s := range t {
					w = append(w, int(s[0]-'0'))
				}
				h.walk(w, h.word(max))
			})
		} else {
			for n := 20; n > 0; n-- {
				h.walk(h.word(max), h.word(max+2))
			}
			for c := 0; c < cats; c++ {
				x := h.word(max)
				if len(h.words) > 0 {
					x = h.words[rng.Intn(len(h.words))]
				}
				h.walk([]int{c, rng.Intn(cats)}, append(append([]int{}, x[:rng.Intn(len(x))+1]...), c))
			}
		}
		for n := 10; n > 0; n-- {
			h.alloc(h.word(max + 1))
		}
		if rng.Intn(3) == 0 {
			h.t.Freeze()
		}
		h.all()
	})
	hlib.Done()
	out.Put(h.obs)
}

var primes = []int{31, 37, 41, 53, 61, 67, 97, 101, 127, 149, 173, 199, 211, 227, 251}

func main() {
	rng = hlib.Rng()
	out := hlib.Open()
	for n := hlib.Int("RND", 1000); n > 0; n-- {
		size := primes[rng.Intn(len(primes))]
		max := (size - 5) / 2
		if max > 50 {
			max = 50
		}
		cats := 1 + rng.Intn(max)
		if rng.Intn(2) == 0 {
			cats = 1 + rng.Intn(min(max, 4))
		}
		words := 1 + rng.Intn(10)
		if rng.Intn(3) == 0 {
			words = 10 + rng.Intn(40)
		}
		run(out, size, cats, words, 1+rng.Intn(6))
	}
	// frozen tries may be shared
	for n := hlib.Int("PAR", 20); n > 0; n-- {
		parallel(out)
	}
	out.Close()
}

// parallel lets several users walk along a frozen trie at the same time.
func parallel(out *hlib.Out) {
	h := &hist{obs: obs{N: 251, C: 20, Ops: []op{}}}
	h.K = fmt.Sprintf("parallel, seed %d", rng.Int63())
	h.t, _ = trie.NewTinyHashTrie(251, 20)
	for n := 20; n > 0; n-- {
		h.alloc(h.word(4))
	}
	h.t.Freeze()
	h.put(op{Op: "freeze"})
	ops := make([][]op, 8)
	var wg sync.WaitGroup
	for i := range ops {
		ws := [][]int{}
		for n := 10; n > 0; n-- {
			ws = append(ws, h.word(5))
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for _, w := range ws {
				o := op{Op: "walk", W: w}
				it := h.t.Iterator()
				for _, c := range w {
					o.Ps = append(o.Ps, it.Next(int8(c)))
				}
				ops[i] = append(ops[i], o)
			}
		}(i)
	}
	wg.Wait()
	for _, l := range ops {
		for _, o := range l {
			h.put(o)
		}
	}
	out.Put(h.obs)
}
