//go:build go1.21

// Records what rune publishers and recognizers do.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/internal/zzverif/hlib"
)

// ---- publisher --------------------------------------------------------------------------

type sub struct {
	Kind string          `json:"kind"`
	Acts [][]interface{} `json:"acts"`
}

type op struct {
	Op   string `json:"op"`
	S    int    `json:"s"`
	Done bool   `json:"done"`
	Got  []int  `json:"got"`
	New  []int  `json:"new"`
	Uns  []int  `json:"uns"`
	Far  int    `json:"far"`
	Pen  []int  `json:"pen"`
	Bad  int    `json:"bad"`
	N    int    `json:"n"`
}

func newOp(name string, s int) *op {
	return &op{Op: name, S: s, Got: []int{}, New: []int{}, Uns: []int{}, Pen: []int{}}
}

type obs struct {
	K     string `json:"k"`
	Subs  []sub  `json:"subs"`
	Ops   []*op  `json:"ops"`
	Panic string `json:"panic"`
}

// history is one publisher with its subscribers
type history struct {
	rng  *rand.Rand
	pub  *uax.DefaultRunePublisher
	o    *obs
	cur  *op // event being published
	r    rune
	c    int
	more int // subscribe that many while an event is published
	life int
	dead bool
}

// member is a subscriber which does what it has been told to
type member struct {
	h    *history
	id   int
	n    int
	acts []answer
	done bool
	mlen int
}

type answer struct {
	done bool
	mlen int
	pen  []int
}

func (h *history) note(id int, r rune, c int) {
	if h.cur == nil || r != h.r || c != h.c {
		h.o.Ops[len(h.o.Ops)-1].Bad++
		return
	}
	h.cur.Got = append(h.cur.Got, id)
	if h.more > 0 && h.rng.Intn(3) == 0 {
		h.more--
		h.cur.New = append(h.cur.New, h.subscribe())
	}
}

func (m *member) RuneEvent(r rune, c int) []int {
	m.h.note(m.id, r, c)
	a := m.acts[len(m.acts)-1]
	if m.n < len(m.acts) {
		a = m.acts[m.n]
	}
	m.n++
	m.done, m.mlen = a.done, a.mlen
	return a.pen
}
func (m *member) MatchLength() int { return m.mlen }
func (m *member) Done() bool       { return m.done }
func (m *member) Unsubscribed() {
	if m.h.cur != nil {
		m.h.cur.Uns = append(m.h.cur.Uns, m.id)
	}
}

// recognizer is a pooled recognizer that is watched
type recognizer struct {
	*uax.Recognizer
	h  *history
	id int
}

func (m recognizer) RuneEvent(r rune, c int) []int {
	m.h.note(m.id, r, c)
	return m.Recognizer.RuneEvent(r, c)
}
func (m recognizer) Unsubscribed() {
	if m.h.cur != nil {
		m.h.cur.Uns = append(m.h.cur.Uns, m.id)
	}
	m.Recognizer.Unsubscribed()
}

var values = []int{-2000, -100, -1, 0, 0, 1, 2, 100, 1000, 10000, 32767, -65536}

func penalties(rng *rand.Rand) []int {
	n := rng.Intn(4)
	if rng.Intn(40) == 0 {
		n = rng.Intn(40)
	}
	l := make([]int, n)
	for i := range l {
		l[i] = values[rng.Intn(len(values))]
	}
	return l
}

type act struct {
	name string
	pen  []int
}

var goesOn = []string{"go", "go", "go", "stay"}
var ends = []string{"acc", "acc", "acc", "abort", "abort", "nil"}

func actions(rng *rand.Rand, life int) []act {
	l := []act{}
	for i := rng.Intn(life); i > 0; i-- {
		l = append(l, act{goesOn[rng.Intn(4)], []int{}})
	}
	x := act{ends[rng.Intn(6)], []int{}}
	if x.name == "acc" {
		x.pen = penalties(rng)
	}
	return append(l, x)
}

// state function that does what acts say
func machine(acts []act, calls *int) uax.NfaStateFn {
	i := 0
	var f uax.NfaStateFn
	f = func(rec *uax.Recognizer, r rune, c int) uax.NfaStateFn {
		a := acts[i]
		i++
		if calls != nil {
			*calls++
		}
		switch a.name {
		case "go":
			rec.MatchLen++
			return f
		case "stay":
			return f
		case "acc":
			return uax.DoAccept(rec, a.pen...)
		case "abort":
			return uax.DoAbort(rec)
		}
		return nil
	}
	return f
}

func (h *history) member(acts []answer, done bool) *member {
	m := &member{h: h, id: len(h.o.Subs) + 1, acts: acts, done: done}
	s := sub{Kind: "s"}
	for _, a := range acts {
		d := 0
		if a.done {
			d = 1
		}
		s.Acts = append(s.Acts, []interface{}{d, a.mlen, append([]int{}, a.pen...)})
	}
	h.o.Subs = append(h.o.Subs, s)
	return m
}

func (h *history) answers() []answer {
	l := []answer{}
	for i := h.rng.Intn(h.life); i > 0; i-- {
		far := h.rng.Intn(6)
		if h.rng.Intn(30) == 0 {
			far = h.rng.Intn(1 << h.rng.Intn(20))
		}
		l = append(l, answer{false, far, nil})
	}
	if h.rng.Intn(3) > 0 {
		return append(l, answer{true, 1 + h.rng.Intn(6), penalties(h.rng)})
	}
	return append(l, answer{true, 0, nil})
}

// subscribe adds any new subscriber
func (h *history) subscribe() int {
	if h.rng.Intn(2) == 0 {
		m := h.member(h.answers(), false)
		h.pub.SubscribeMe(m)
		return m.id
	}
	acts := actions(h.rng, h.life)
	s := sub{Kind: "r"}
	for _, a := range acts {
		s.Acts = append(s.Acts, []interface{}{a.name, a.pen})
	}
	h.o.Subs = append(h.o.Subs, s)
	id := len(h.o.Subs)
	var rec *uax.Recognizer
	if h.rng.Intn(12) == 0 {
		rec = uax.NewRecognizer(id, machine(acts, nil))
	} else {
		rec = uax.NewPooledRecognizer(id, machine(acts, nil))
	}
	h.pub.SubscribeMe(recognizer{rec, h, id})
	return id
}

func (h *history) put(o *op) { o.N = h.pub.Len(); h.o.Ops = append(h.o.Ops, o) }

func (h *history) event() {
	x := newOp("ev", 0)
	h.r, h.c = rune(h.rng.Intn(0x3000)), h.rng.Intn(60)-2
	h.cur = x
	var p uax.RunePublisher = h.pub
	far, pen := p.PublishRuneEvent(h.r, h.c)
	h.cur = nil
	x.Far, x.Pen = far, append([]int{}, pen...)
	h.put(x)
}

func idOf(s uax.RuneSubscriber) int {
	switch m := s.(type) {
	case nil:
		return -1
	case *member:
		return m.id
	case recognizer:
		return m.id
	}
	return -2
}

func publish(rng *rand.Rand, queue bool, k string) *obs {
	h := &history{rng: rng, o: &obs{K: k, Subs: []sub{}, Ops: []*op{}}}
	hlib.Begin(k)
	defer hlib.Done()
	h.life = 1 + rng.Intn(5)
	if h.pub = uax.NewRunePublisher(); rng.Intn(4) == 0 {
		h.pub = &uax.DefaultRunePublisher{}
	}
	many := 1 + rng.Intn(6)
	if rng.Intn(10) == 0 {
		many = 1 + rng.Intn(30)
	}
	reenter := rng.Intn(4) == 0
	h.o.Panic = hlib.Safely(func() {
		doneOnes := 0
		for i := 2 + rng.Intn(14); i > 0; i-- {
			switch rng.Intn(3) {
			case 0, 1:
				for j := rng.Intn(many + 1); j > 0; j-- {
					if s := h.subscribe(); true {
						h.put(newOp("sub", s))
					}
				}
			}
			if queue {
				for j := rng.Intn(8); j > 0; j-- {
					switch rng.Intn(6) {
					case 0:
						x := newOp("push", 0)
						x.Done = rng.Intn(2) == 0
						m := h.member(h.answers(), x.Done)
						x.S = m.id
						h.pub.Push(m)
						h.put(x)
					case 1:
						h.put(newOp("top", idOf(h.pub.Top())))
					case 2:
						h.put(newOp("pop", idOf(h.pub.Pop())))
					case 3:
						h.put(newOp("popdone", idOf(h.pub.PopDone())))
					default:
						if m, ok := h.pub.Top().(*member); ok {
							m.done = !m.done
							if m.done {
								m.n = 0
							}
							h.pub.Fix(h.pub.Len() - 1)
							h.put(newOp("flip", m.id))
							if !m.done {
								m.n = 0
							}
						}
					}
				}
				for { // nobody may be done with an event
					s := h.pub.PopDone()
					h.put(newOp("popdone", idOf(s)))
					if s == nil {
						break
					}
				}
			}
			if reenter {
				h.more = rng.Intn(3)
			}
			h.event()
			h.more = 0
		}
		_ = doneOnes
	})
	return h.o
}

// ---- recognizers ------------------------------------------------------------------------

type recOp struct {
	Op    string        `json:"op"`
	H     int           `json:"h"`
	Exp0  int           `json:"exp0"`
	User0 int           `json:"user0"`
	Act   []interface{} `json:"act"`
	Exp   int           `json:"exp"`
	Len   int           `json:"len"`
	Done  bool          `json:"done"`
	User  int           `json:"user"`
	Pen   []int         `json:"pen"`
	Calls int           `json:"calls"`
}

type recObs struct {
	K     string  `json:"k"`
	Ops   []recOp `json:"ops"`
	Dup   int     `json:"dup"`
	Panic string  `json:"panic"`
}

var inUse sync.Map

type held struct {
	rec   *uax.Recognizer
	acts  []act
	n     int
	calls *int
}

func userOf(r *uax.Recognizer) int {
	if r.UserData == nil {
		return 0
	}
	if n, ok := r.UserData.(int); ok {
		return n
	}
	return -1
}

func recognizers(rng *rand.Rand, k string, n int) *recObs {
	o := &recObs{K: k, Ops: []recOp{}}
	o.Panic = hlib.Safely(func() {
		hs := map[int]*held{}
		ids := []int{}
		next := 1
		look := func(x recOp, m *held) {
			x.Exp, x.Len, x.Done, x.User = m.rec.Expect, m.rec.MatchLength(), m.rec.Done(), userOf(m.rec)
			if x.Act == nil {
				x.Act = []interface{}{}
			}
			if x.Pen == nil {
				x.Pen = []int{}
			}
			o.Ops = append(o.Ops, x)
		}
		release := func(i int) {
			id := ids[i]
			ids = append(ids[:i], ids[i+1:]...)
			x := recOp{Op: "rel", H: id, Act: []interface{}{}, Pen: []int{}}
			m := hs[id]
			delete(hs, id)
			inUse.Delete(m.rec)
			m.rec.Unsubscribed()
			o.Ops = append(o.Ops, x)
		}
		for i := 0; i < n; i++ {
			if rng.Intn(16) == 0 {
				runtime.Gosched()
			}
			p := rng.Intn(10)
			switch {
			case len(ids) == 0 || p < 2 && len(ids) < 12:
				x := recOp{Op: "new", H: next, Exp0: rng.Intn(50) - 1}
				m := &held{acts: actions(rng, 5), calls: new(int)}
				m.rec = uax.NewPooledRecognizer(x.Exp0, machine(m.acts, m.calls))
				if _, dup := inUse.LoadOrStore(m.rec, true); dup {
					o.Dup++
				}
				hs[next] = m
				ids = append(ids, next)
				next++
				look(x, m)
			case p == 2:
				id := ids[rng.Intn(len(ids))]
				x := recOp{Op: "user", H: id, User0: 1 + rng.Intn(100)}
				hs[id].rec.UserData = x.User0
				look(x, hs[id])
			case p == 3:
				release(rng.Intn(len(ids)))
			default:
				j := rng.Intn(len(ids))
				id := ids[j]
				m := hs[id]
				if m.n > len(m.acts) { // it has been done for some time
					release(j)
					continue
				}
				x := recOp{Op: "ev", H: id}
				a := act{"go", []int{}}
				if m.n < len(m.acts) {
					a = m.acts[m.n]
				}
				m.n++
				x.Act = []interface{}{a.name, a.pen}
				before := *m.calls
				x.Pen = append([]int{}, m.rec.RuneEvent(rune('a'+i), 1)...)
				x.Calls = *m.calls - before
				look(x, m)
			}
		}
		for len(ids) > 0 {
			release(0)
		}
	})
	return o
}

func main() {
	out := hlib.Open()
	rng := hlib.Rng()
	rnd := hlib.Int("RND", 1000)
	switch os.Getenv("MODE") {
	case "pub", "queue":
		for i := 0; i < rnd; i++ {
			out.Put(publish(rng, os.Getenv("MODE") == "queue", fmt.Sprintf("%s history %d of seed %s", os.Getenv("MODE"), i+1, os.Getenv("VERIF_SEED"))))
		}
	case "rec":
		for i := 0; i < rnd; i++ {
			k := fmt.Sprintf("recognizers, history %d of seed %s", i+1, os.Getenv("VERIF_SEED"))
			hlib.Begin(k)
			out.Put(recognizers(rng, k, 10+rng.Intn(80)))
			hlib.Done()
		}
	case "par":
		width := hlib.Int("WIDTH", 16)
		for i := 0; i < rnd; i++ {
			runtime.GOMAXPROCS(1 + rng.Intn(16))
			k := fmt.Sprintf("recognizers in parallel, round %d of seed %s", i+1, os.Getenv("VERIF_SEED"))
			hlib.Begin(k)
			var wg sync.WaitGroup
			res := make([]interface{}, width)
			for j := 0; j < width; j++ {
				r := rand.New(rand.NewSource(rng.Int63()))
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					res[j] = recognizers(r, fmt.Sprintf("%s, owner %d", k, j), 10+r.Intn(80))
				}(j)
			}
			wg.Wait()
			hlib.Done()
			for _, o := range res {
				out.Put(o)
			}
		}
	}
	out.Close()
}
