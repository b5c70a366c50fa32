//go:build go1.21

// Uses several independent segmenters at the same time or in turn (STEP=1), or breakers combined (MODE=comb),
// and records what each of them delivers.
package main

import (
	"bufio"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/internal/zzverif/hlib"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax14"
	"github.com/npillmayer/uax/uax29"
)

type word struct {
	K string   `json:"k"`
	T []string `json:"t"`
	B []int    `json:"b"`
	H []int    `json:"h"`
}

type line word

type cluster struct {
	K string   `json:"k"`
	T []string `json:"t"`
	B []int    `json:"b"`
}

type simple struct {
	K string   `json:"k"`
	T []string `json:"t"`
	S [][2]int `json:"s"`
	O int      `json:"o"`
	X bool     `json:"x"`
}

var (
	wb, gcb, ws hlib.Classes
	wbNames     []string
	gcbNames    []string
	wsNames     []string
	lbNames     []string
	lb          hlib.Classes
	// characters which are there in all the tables, by their classes in all of them
	classes                 [][]rune
	wbOf, gcbOf, lbOf, wsOf map[rune]string
)

func invert(c hlib.Classes) map[rune]string {
	m := map[rune]string{}
	for k, rs := range c {
		for _, r := range rs {
			m[r] = k
		}
	}
	return m
}

// labels returns the classes of the characters of a text.
func labels(rs []rune, of map[rune]string) []string {
	t := []string{}
	for _, r := range rs {
		t = append(t, of[r])
	}
	return t
}

// A track is what one of the breakers of a segmenter has found.
type track struct {
	kind byte     // w words, g graphemes, s simple words, l lines
	b, h []int    // breaks, and mandatory ones
	s    [][2]int // breaks with their penalties
}

func (t *track) add(pos, p int) {
	t.b = append(t.b, pos)
	t.s = append(t.s, [2]int{pos, p})
	if p <= uax.InfiniteMerits {
		t.h = append(t.h, pos)
	}
}

// A user has a segmenter of its own and a text it is working on.
type user struct {
	rng    *rand.Rand
	kind   string // primary and secondary breaker, or S for grapheme strings
	seg    *segment.Segmenter
	t      []string // classes, for users with a single breaker
	rs     []rune
	tracks []*track
	txt    string
	pos    int
	obs    []interface{}
}

func breaker(kind byte) uax.UnicodeBreaker {
	switch kind {
	case 'w':
		return uax29.NewWordBreaker(1)
	case 'g':
		grapheme.SetupGraphemeClasses()
		return grapheme.NewBreaker(1)
	case 'l':
		return uax14.NewLineWrap()
	}
	return segment.NewSimpleWordBreaker()
}

func (u *user) fresh() {
	switch {
	case u.kind == "s" && u.rng.Intn(2) == 0:
		u.seg = segment.NewSegmenter()
	case len(u.kind) == 1:
		u.seg = segment.NewSegmenter(breaker(u.kind[0]))
	default:
		u.seg = segment.NewSegmenter(breaker(u.kind[0]), breaker(u.kind[1]))
	}
}

// start takes a new text.
func (u *user) start() {
	n := 3 + hlib.Len(u.rng, 14)
	u.t = nil
	switch u.kind {
	case "w":
		u.t = hlib.RandomWord(u.rng, wbNames, n)
		u.rs = wb.Text(u.rng, u.t)
	case "s":
		u.t = hlib.RandomWord(u.rng, wsNames, n)
		u.rs = ws.Text(u.rng, u.t)
	case "l":
		u.t = hlib.RandomWord(u.rng, lbNames, n)
		u.rs = lb.Text(u.rng, u.t)
	case "g", "S":
		u.t = hlib.RandomWord(u.rng, gcbNames, n)
		u.rs = gcb.Text(u.rng, u.t)
	default:
		u.rs = joint(u.rng, n)
	}
	u.begin()
}

func (u *user) begin() {
	u.tracks, u.txt, u.pos = nil, "", 0
	for i := range u.kind {
		u.tracks = append(u.tracks, &track{kind: u.kind[i], b: []int{}, h: []int{}, s: [][2]int{}})
	}
	if u.kind == "S" {
		g := grapheme.StringFromString(string(u.rs))
		for i := 0; i < g.Len(); i++ {
			u.pos += len([]rune(g.Nth(i)))
			u.tracks[0].b = append(u.tracks[0].b, u.pos)
		}
		u.put()
		return
	}
	if u.seg == nil || u.rng.Intn(3) == 0 {
		u.fresh()
	}
	if u.rng.Intn(2) == 0 {
		u.seg.InitFromSlice(u.rs)
	} else {
		u.seg.Init(bufio.NewReader(strings.NewReader(string(u.rs))))
	}
}

// step asks for another segment and returns false at the end of the text.
func (u *user) step() bool {
	if u.kind == "S" {
		return false
	}
	if !u.seg.Next() || u.pos > len(u.rs)+2 {
		u.put()
		return false
	}
	u.txt += u.seg.Text()
	u.pos += len(u.seg.Runes())
	p, q := u.seg.Penalties()
	if len(u.tracks) == 1 {
		u.tracks[0].add(u.pos, p)
		return true
	}
	for i, v := range []int{p, q} { // tell the breakers apart
		if v != 0 && v < uax.InfinitePenalty {
			u.tracks[i].add(u.pos, v)
		}
	}
	return true
}

func (u *user) put() {
	for _, t := range u.tracks {
		k, classes := hlib.Hex(u.rs), u.t
		if len(u.tracks) > 1 {
			k += " for " + u.kind
			classes = labels(u.rs, map[byte]map[rune]string{'w': wbOf, 'g': gcbOf, 'l': lbOf, 's': wsOf}[t.kind])
		}
		switch t.kind {
		case 'w':
			u.obs = append(u.obs, word{K: k, T: classes, B: t.b, H: t.h})
		case 's':
			u.obs = append(u.obs, simple{K: k, T: classes, S: t.s, X: u.txt == string(u.rs)})
		case 'l':
			u.obs = append(u.obs, line{K: k, T: classes, B: t.b, H: t.h})
		default:
			u.obs = append(u.obs, cluster{K: k, T: classes, B: t.b})
		}
	}
}

// joint returns a text of characters of various classes in all the tables.
func joint(rng *rand.Rand, n int) []rune {
	rs := []rune{}
	for len(rs) < n {
		c := classes[rng.Intn(len(classes))]
		if len(rs) > 0 && rng.Intn(6) == 0 {
			rs = append(rs, rs[len(rs)-1])
			continue
		}
		rs = append(rs, c[rng.Intn(len(c))])
	}
	return rs
}

func setup() {
	wb, gcb, ws = hlib.Load("wb.txt"), hlib.Load("gcb.txt"), hlib.Load("ws.txt")
	lb = hlib.Load("lb.txt")
	hlib.SplitLineClasses(lb)
	wbNames, gcbNames, wsNames, lbNames = wb.Names(), gcb.Names(), ws.Names(), lb.Names()
	wbOf, gcbOf, lbOf, wsOf = invert(wb), invert(gcb), invert(lb), invert(ws)
	by := map[string][]rune{}
	for r, w := range wbOf {
		if gcbOf[r] != "" && lbOf[r] != "" && wsOf[r] != "" {
			k := w + " " + gcbOf[r] + " " + lbOf[r] + " " + wsOf[r]
			by[k] = append(by[k], r)
		}
	}
	keys := []string{}
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l := by[k]
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		classes = append(classes, l)
	}
}

func main() {
	rng := hlib.Rng()
	words, graphs, simples, lines := hlib.Open(), hlib.OpenEnv("OBS2"), hlib.OpenEnv("OBS3"), hlib.OpenEnv("OBS4")
	lb = hlib.Load("lb.txt")
	hlib.SplitLineClasses(lb)
	lbNames = lb.Names()
	setup()
	var users []*user
	if os.Getenv("MODE") == "comb" {
		users = combine(rng)
	} else {
		users = work(rng)
	}
	for _, u := range users {
		for _, o := range u.obs {
			switch o.(type) {
			case word:
				words.Put(o)
			case simple:
				simples.Put(o)
			case line:
				lines.Put(o)
			default:
				graphs.Put(o)
			}
		}
	}
	words.Close()
	graphs.Close()
	simples.Close()
	lines.Close()
}

// combine uses all pairs of breakers one after the other.
func combine(rng *rand.Rand) []*user {
	users := []*user{}
	for _, k := range []string{"lw", "wl", "gw", "wg", "lg", "gl", "sw", "ws", "sg", "gs", "sl", "ls"} {
		u := &user{kind: k, rng: rand.New(rand.NewSource(rng.Int63()))}
		users = append(users, u)
		run := func(rs []rune) {
			hlib.Begin(hlib.Hex(rs) + " for " + k)
			u.rs = rs
			u.begin()
			for u.step() {
			}
			hlib.Done()
		}
		all := hlib.Int("PAIRS", 1)
		for _, a := range classes {
			for _, b := range classes {
				if rng.Intn(all) == 0 {
					run([]rune{one(rng, a), one(rng, b)})
				}
			}
		}
		for n := hlib.Int("RND", 1000); n > 0; n-- {
			run(joint(rng, 3+hlib.Len(rng, 14)))
		}
	}
	return users
}

func one(rng *rand.Rand, l []rune) rune { return l[rng.Intn(len(l))] }

// work has several users at work at the same time, or in turn.
func work(rng *rand.Rand) []*user {
	kinds := []string{"w", "g", "s", "S", "l", "lw", "gw", "ws", "lg", "wl"}
	users := make([]*user, hlib.Int("WIDTH", 16))
	first := rng.Intn(len(kinds))
	for i := range users {
		users[i] = &user{kind: kinds[(first+i)%len(kinds)], rng: rand.New(rand.NewSource(rng.Int63()))}
	}
	rounds := hlib.Int("RND", 100)
	hlib.Begin("several segmenters at the same time")
	if hlib.Int("STEP", 0) == 1 {
		left := make([]int, len(users))
		for i := range left {
			left[i] = rounds
			users[i].start()
		}
		for open := len(users); open > 0; {
			i := rng.Intn(len(users))
			if left[i] == 0 {
				continue
			}
			for n := 1 + rng.Intn(3); n > 0; n-- {
				if !users[i].step() {
					if left[i]--; left[i] == 0 {
						open--
						break
					}
					users[i].start()
				}
			}
		}
	} else {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for _, u := range users {
			wg.Add(1)
			go func(u *user) {
				defer wg.Done()
				<-gate
				for n := 0; n < rounds; n++ {
					u.start()
					for u.step() {
						if u.rng.Intn(8) == 0 {
							runtime.Gosched()
						}
					}
				}
			}(u)
		}
		close(gate)
		wg.Wait()
	}
	hlib.Done()
	return users
}
