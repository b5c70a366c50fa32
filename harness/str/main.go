//go:build go1.21

// Records what the real code makes of bytes and strings: first legal characters, grapheme
// strings, display widths and contexts. $MODE selects what is recorded.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/internal/zzverif/hlib"
	"github.com/npillmayer/uax/uax11"
	"golang.org/x/text/language"
)

var rng *rand.Rand
var gcb, wcl hlib.Classes
var gcbNames []string

func ints(s string) []int {
	l := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		l[i] = int(s[i])
	}
	return l
}

// --- first legal character ------------------------------------------------------------------

type firstObs struct {
	K string `json:"k"`
	B []int  `json:"b"`
	S int    `json:"s"`
	Q int    `json:"q"`
	X bool   `json:"x"`
}

var special = []byte{0, 'A', 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}

func first(out *hlib.Out) {
	run := func(s string) {
		o := firstObs{K: fmt.Sprintf("% X", s), B: ints(s)}
		hlib.Begin(o.K)
		i, q := uax.PositionOfFirstLegalRune(s)
		o.S, o.Q, o.X = i, len(q), len(q) <= len(s) && string(q) == s[:len(q)]
		hlib.Done()
		out.Put(o)
	}
	var rec func(b []byte, n int)
	rec = func(b []byte, n int) {
		if n == 0 {
			run(string(b))
			return
		}
		for _, c := range special {
			rec(append(b[:len(b):len(b)], c), n-1)
		}
	}
	for n := 0; n <= hlib.Int("EXH", 3); n++ {
		rec(nil, n)
	}
	for n := hlib.Int("RND", 20000); n > 0; n-- {
		run(string(dirty(rng.Intn(12))))
	}
}

// anyRune returns a code point, often one around the limits of encodings.
func anyRune() rune {
	lims := []rune{0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}
	switch rng.Intn(3) {
	case 0:
		return lims[rng.Intn(len(lims))]
	case 1:
		return rune(rng.Intn(0x3000))
	}
	for {
		if r := rune(rng.Intn(0x110000)); r < 0xd800 || r >= 0xe000 {
			return r
		}
	}
}

// dirty returns bytes of which many are no legal characters.
func dirty(n int) []byte {
	b := []byte{}
	for ; n > 0; n-- {
		e := []byte(string([]rune{anyRune()}))
		switch rng.Intn(6) {
		case 0: // truncated
			b = append(b, e[:rng.Intn(len(e))]...)
		case 1: // start is missing
			b = append(b, e[1:]...)
		case 2:
			b = append(b, special[rng.Intn(len(special))])
		case 3:
			b = append(b, byte(rng.Intn(256)))
		case 4: // one byte is altered
			e[rng.Intn(len(e))] = special[rng.Intn(len(special))]
			b = append(b, e...)
		default:
			if rng.Intn(3) == 0 {
				b = append(b, e...)
			}
		}
	}
	return b
}

// illegal returns bytes without any legal character, whatever legal text follows.
func illegal(n int) string {
	for {
		b := []byte{}
		for ; n > 0; n-- {
			switch c := special[rng.Intn(len(special))]; {
			case c < utf8.RuneSelf:
			case rng.Intn(3) == 0:
				b = append(b, byte(128+rng.Intn(64)))
			default:
				b = append(b, c)
			}
		}
		if i, _ := firstLegal(string(b)); i < 0 {
			return string(b)
		}
	}
}

// bytes which are illegal wherever they are placed between legal characters
var illegalBytes = []byte{0x80, 0x8d, 0xbf, 0xc0, 0xc1, 0xf5, 0xff}

func firstLegal(s string) (int, rune) {
	for i := range []byte(s) {
		if r, sz := utf8.DecodeRuneInString(s[i:]); sz > 1 || r != utf8.RuneError {
			return i, r
		}
	}
	return -1, 0
}

// --- grapheme strings -------------------------------------------------------------------------

type gObs struct {
	K string   `json:"k"`
	M string   `json:"m"`
	B []int    `json:"b"`
	F int      `json:"f"`
	C []int    `json:"c"`
	T []string `json:"t"`
	N int      `json:"n"`
	E []int    `json:"e"`
	X bool     `json:"x"`
	R bool     `json:"r"`
	P string   `json:"p"`
}

func refused(f func()) bool { return hlib.Safely(f) != "" }

// measure fills in what a grapheme string of s tells.
func (o *gObs) measure(s string) {
	o.E = []int{}
	hlib.Begin(o.K)
	defer hlib.Done()
	o.P = hlib.Safely(func() {
		var g grapheme.String
		if rng.Intn(2) == 0 {
			g = grapheme.StringFromString(s)
		} else {
			b := []byte(s)
			g = grapheme.StringFromBytes(b)
			for i := range b { // the string has a copy of its own
				b[i] = 'z'
			}
		}
		o.N = g.Len()
		if o.N > len(s) {
			o.P = "longer than its bytes"
			return
		}
		nth := make([]string, o.N)
		for _, i := range rng.Perm(o.N) { // in any order
			nth[i] = g.Nth(i)
		}
		pos := o.F
		txt := ""
		if o.N < 2000 {
			for _, x := range nth {
				txt += x
			}
		} else {
			b := []byte{}
			for _, x := range nth {
				b = append(b, x...)
			}
			txt = string(b)
		}
		for _, x := range nth {
			pos += len(x)
			o.E = append(o.E, pos)
		}
		o.X = pos <= len(s) && txt == s[o.F:pos] && g.String() == s && g.Len() == o.N
		last := o.N
		if o.N == 0 {
			last = 1
			o.X = o.X && g.Nth(0) == ""
		}
		o.R = refused(func() { g.Nth(-1) }) && refused(func() { g.Nth(last) }) && refused(func() { g.Nth(last + 1 + rng.Intn(300)) })
	})
}

// tail returns an illegal sequence that ends a text, and whatever comes behind.
func tail() string {
	s := illegal(1 + rng.Intn(4))
	if s != "" && rng.Intn(2) == 0 {
		s += "ab\u0301c"
	}
	return s
}

func short(out *hlib.Out, t []string) {
	rs := gcb.Text(rng, t)
	s := string(rs)
	pre := ""
	if rng.Intn(3) == 0 {
		pre = illegal(rng.Intn(5))
	}
	if len(pre) > 0 && s != "" {
		if i, _ := firstLegal(pre + s); i != len(pre) { // cannot be, as s starts with a start byte
			hlib.Die("unexpected start of %q", pre+s)
		}
	}
	if s != "" && rng.Intn(4) == 0 {
		s += tail()
	}
	s = pre + s
	f, _ := firstLegal(s)
	if f < 0 {
		f = 0
	}
	o := gObs{K: fmt.Sprintf("%+q", s), M: "short", B: ints(s), F: f, C: []int{}, T: t}
	o.measure(s)
	out.Put(o)
}

// long texts, of a number of bytes around a limit of the internal representations
func long(out *hlib.Out, size int) {
	pre := ""
	if rng.Intn(3) == 0 {
		pre = illegal(rng.Intn(5))
	}
	stop := size // from there on illegal bytes
	switch rng.Intn(12) {
	case 0, 1: // in the beginning, nothing legal at all
		n := size
		if rng.Intn(2) == 0 {
			n = rng.Intn(size)
		}
		pre = strings.Repeat(string([]byte{illegalBytes[rng.Intn(len(illegalBytes))]}), n)
	case 2, 3:
		stop = rng.Intn(size)
	}
	o := gObs{M: "long", B: []int{}, F: len(pre), C: []int{}, T: []string{}}
	b := []byte(pre)
	names := hlib.RandomWord(rng, gcbNames, 3)
	mix := []int{0, 1, 5, 300}[rng.Intn(4)] // one out of mix is any character
	ascii := rng.Intn(3) == 0               // otherwise, graphemes of one byte each
	for len(b) < stop {
		k := names[rng.Intn(3)]
		r := gcb.Any(rng, k)
		if ascii {
			k, r = "Any", rune(' '+rng.Intn(90))
		}
		if mix > 0 && rng.Intn(mix) == 0 {
			k = gcbNames[rng.Intn(len(gcbNames))]
			r = gcb.Any(rng, k)
		}
		if n := stop - len(b); utf8.RuneLen(r) > n {
			k, r = "Any", 'x'
		}
		b = append(b, string(r)...)
		o.T = append(o.T, k)
		o.C = append(o.C, len(b))
	}
	if len(o.C) == 0 {
		o.F = 0
	}
	for n := 0; len(b) < size; n++ {
		if n == 0 || len(o.C) == 0 || rng.Intn(3) > 0 {
			b = append(b, illegalBytes[rng.Intn(len(illegalBytes))])
		} else {
			b = append(b, 'e')
		}
	}
	s := string(b)
	if len(s) > 40 {
		o.K = fmt.Sprintf("%d bytes: %+q...", len(s), s[:40])
	}
	if size > 65534 {
		o.M, o.T, o.C = "huge", []string{}, []int{}
		o.K = fmt.Sprintf("%d bytes", size)
	}
	o.measure(s)
	if o.M == "huge" {
		o.E = []int{}
	}
	out.Put(o)
}

func gstr(out *hlib.Out) {
	hlib.Words(gcbNames, 0, hlib.Int("EXH", 3), func(t []string) { short(out, t) })
	for n := hlib.Int("RND", 10000); n > 0; n-- {
		short(out, hlib.RandomWord(rng, gcbNames, 2+rng.Intn(20)))
	}
	for n := 245; n < 262; n++ {
		for k := hlib.Int("LONG", 4); k > 0; k-- {
			long(out, n)
		}
	}
	for n := 20 * hlib.Int("LONG", 4); n > 0; n-- {
		long(out, 200+rng.Intn(3000))
	}
	for n := hlib.Int("LONG", 4); n > 0; n-- {
		long(out, 32766-rng.Intn(3))
		long(out, 65534-rng.Intn(3))
		long(out, 65535+rng.Intn(3))
		long(out, 65534-rng.Intn(30000))
	}
}

// --- widths -------------------------------------------------------------------------------

type wText struct {
	K string   `json:"k"`
	M string   `json:"m"`
	T []string `json:"t"`
	C []string `json:"c"`
	D bool     `json:"d"`
	W int      `json:"w"`
	V []int    `json:"v"`
}

type wBytes struct {
	K string `json:"k"`
	M string `json:"m"`
	B []int  `json:"b"`
	W int    `json:"w"`
}

type wRange struct {
	K string   `json:"k"`
	M string   `json:"m"`
	S [6]int   `json:"s"`
	L []string `json:"l"`
}

var contexts = map[bool][]*uax11.Context{
	true:  {uax11.EastAsianContext, {ForceEastAsian: true}, {Locale: "ja"}, {Script: language.MustParseScript("Hant")}},
	false: {uax11.LatinContext, nil, {}, {Locale: "de-AT"}, {Script: language.MustParseScript("Cyrl")}},
}

var fresh = map[bool][]func() *uax11.Context{
	true: {
		func() *uax11.Context { return &uax11.Context{ForceEastAsian: true} },
		func() *uax11.Context { return &uax11.Context{Locale: "zh-TW"} },
		func() *uax11.Context { return &uax11.Context{Script: language.MustParseScript("Hans")} },
	},
	false: {
		func() *uax11.Context { return &uax11.Context{} },
		func() *uax11.Context { return &uax11.Context{Locale: "fr"} },
		func() *uax11.Context { return &uax11.Context{Script: language.MustParseScript("Latn")} },
	},
}

func widths(out *hlib.Out) {
	// before anything else, i.e. without any set-up: an emoji
	out.Put(wText{K: "first use", M: "text", T: []string{"Pict"}, C: []string{"E"}, W: uax11.Width([]byte("\u2764"), nil), V: []int{2}})
	grapheme.SetupGraphemeClasses()
	type char struct {
		r    rune
		t, c string
	}
	class := make([]string, 0x110000)
	for _, r := range hlib.Ranges("width.txt") {
		for i := r.Lo; i <= r.Hi; i++ {
			class[i] = r.Class
		}
	}
	by := map[string][]char{}
	names := []string{}
	for _, k := range gcbNames {
		for _, r := range gcb[k] {
			if c := class[r]; c != "" {
				n := k + "/" + c
				if by[n] == nil {
					names = append(names, n)
				}
				by[n] = append(by[n], char{r, k, c})
			}
		}
	}
	vs := []char{{0xfe0f, "Extend", "VS"}, {0x20e3, "Extend", "VS"}}
	run := func(cs []char) {
		o := wText{M: "text", T: []string{}, C: []string{}, V: []int{}, D: rng.Intn(2) == 0}
		rs := []rune{}
		for _, c := range cs {
			rs = append(rs, c.r)
			o.T = append(o.T, c.t)
			o.C = append(o.C, c.c)
		}
		o.K = hlib.Hex(rs)
		hlib.Begin(o.K)
		l := contexts[o.D]
		ctx := l[rng.Intn(len(l))]
		if ctx != nil && rng.Intn(2) == 0 { // one which has not been used before
			ctx = fresh[o.D][rng.Intn(len(fresh[o.D]))]()
		}
		s := string(rs)
		switch rng.Intn(6) {
		case 0:
			s = illegal(rng.Intn(4)) + s
		case 1:
			if len(s) > 0 {
				s += tail()
			}
		}
		if len(rs) == 0 && s == "" {
			s = ""
		}
		g := grapheme.StringFromString(s)
		o.W = uax11.StringWidth(g, ctx)
		for i := 0; i < g.Len(); i++ {
			o.V = append(o.V, uax11.Width([]byte(g.Nth(i)), ctx))
		}
		hlib.Done()
		out.Put(o)
	}
	any := func() char {
		l := by[names[rng.Intn(len(names))]]
		if rng.Intn(3) == 0 {
			l = l[:1+rng.Intn(min(len(l), 128))]
		}
		return l[rng.Intn(len(l))]
	}
	run(nil)
	for _, n := range names {
		for i := 0; i < 3; i++ {
			l := by[n]
			run([]char{l[rng.Intn(len(l))]})
		}
	}
	for n := hlib.Int("RND", 10000); n > 0; n-- {
		cs := []char{}
		for k := 1 + rng.Intn(10); k > 0; k-- {
			c := any()
			cs = append(cs, c)
			if c.c == "K" && rng.Intn(2) == 0 {
				for j := 1 + rng.Intn(2); j > 0; j-- {
					cs = append(cs, vs[rng.Intn(2)])
				}
			}
		}
		run(cs)
	}
	for n := hlib.Int("RND", 10000); n > 0; n-- {
		b := dirty(rng.Intn(4))
		o := wBytes{K: fmt.Sprintf("% X", b), M: "bytes", B: ints(string(b))}
		hlib.Begin(o.K)
		l := contexts[rng.Intn(2) == 0]
		o.W = uax11.Width(b, l[rng.Intn(len(l))])
		hlib.Done()
		out.Put(o)
	}
	// every code point
	last, have := wRange{}, map[string]bool{}
	lo, prev := 0, 0
	put := func() {
		if lo > 0 && len(last.L) > 0 {
			last.K = fmt.Sprintf("%04X..%04X", lo, prev)
			out.Put(last)
		}
	}
	for c := 1; c <= 0x10ffff; c++ {
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		var s [6]int
		for i, x := range []string{"", "\ufe0f", "\u0301"} {
			b := []byte(string(rune(c)) + x)
			if i == 1 && c%2 == 0 {
				b = []byte(string(rune(c)) + "\u20e3")
			}
			s[2*i], s[2*i+1] = uax11.Width(b, uax11.LatinContext), uax11.Width(b, uax11.EastAsianContext)
		}
		if s != last.S || lo == 0 {
			put()
			last, have = wRange{M: "range", S: s, L: []string{}}, map[string]bool{}
			lo = c
		}
		if k := class[c]; k != "" && !have[k] {
			have[k] = true
			last.L = append(last.L, k)
		}
		prev = c
	}
	put()
}

// --- contexts -------------------------------------------------------------------------------

type ctxFields struct {
	F bool   `json:"f"`
	S string `json:"s"`
	G string `json:"g"`
	I string `json:"i"`
}

type use struct {
	X int    `json:"x"`
	C string `json:"c"`
	W int    `json:"w"`
}

type ctxObs struct {
	K string      `json:"k"`
	X []ctxFields `json:"x"`
	U []use       `json:"u"`
}

var locales = map[string][]string{
	"zh": {"zh", "zh-CN", "zh_CN", "zh-Hans", "zh-Hans-CN", "zh-SG", "cmn"}, "zhTW": {"zh-TW", "zh-HK", "zh_TW", "zh-Hant", "zh-Hant-TW", "zh-MO"},
	"ja": {"ja", "ja-JP", "ja_JP", "ja-US"}, "ko": {"ko", "ko-KR", "ko_KR", "ko-KP"}, "vi": {"vi", "vi-VN", "vi_VN"}, "th": {"th", "th-TH", "th_TH"},
	"mn": {"mn", "mn-MN", "mn_MN"}, "my": {"my", "my-MM", "my_MM"}, "km": {"km", "km-KH", "km_KH"},
	"lo": {"lo", "lo-LA", "lo_LA"}, "bn": {"bn", "bn-BD", "bn-IN"}, "ii": {"ii", "ii-CN"},
	"en": {"en", "en-US", "en_GB", "en-AU", "en-SG"}, "de": {"de", "de-DE", "de_AT"}, "fr": {"fr", "fr-CA", "fr_FR"}, "es": {"es", "es-MX", "es-419"}, "pt": {"pt", "pt-BR", "pt_PT"},
	"sv": {"sv", "sv-SE"}, "tr": {"tr", "tr-TR"}, "ru": {"ru", "ru-RU", "ru_RU"}, "ar": {"ar", "ar-EG"}, "he": {"he", "he-IL", "iw"}, "hi": {"hi", "hi-IN"},
	"el": {"el", "el-GR"}, "hy": {"hy", "hy-AM"}, "ka": {"ka", "ka-GE"},
	"": {"", "", "und", "x!", "C", "POSIX", "xx"},
}
var eaScripts = []string{"Bopo", "Hanb", "Hani", "Hans", "Hant", "Hang", "Hira", "Kana", "Jpan", "Kore", "Hrkt", "Batk", "Beng", "Bugi", "Mymr", "Cham", "Java", "Khmr",
	"Laoo", "Lisu", "Mtei", "Thai", "Yiii", "Bali", "Khar", "Rjng", "Tglg", "Buhd", "Tagb", "Lana", "Plrd", "Jamo", "Kitl", "Kits", "Nkdb", "Nkgb", "Roro", "Wole"}
var otherScripts = []string{"Latn", "Cyrl", "Arab", "Hebr", "Grek", "Deva", "Armn", "Geor", "Ethi", "Taml", "Tibt"}
var ownScript = map[string]bool{"lo": true, "bn": true, "ii": true}

var samples = map[string][]string{"Z": {"\u200b", "\ufeff"}, "E": {"\U0001f600", "\u2764"}, "K": {"1", "#"}, "W": {"世", "ア", "Ａ", "가"},
	"A": {"α", "±", "Я", "\u2223"}, "N": {"א", "ก", "\u05bd"}, "Na": {"a", "~", "ｱ"}}
var sampleNames = []string{"Z", "E", "K", "W", "A", "N", "Na", "A", "N", "A"}

func randomContext(x *ctxFields, locale string) *uax11.Context {
	c := &uax11.Context{ForceEastAsian: x.F, Locale: locale}
	if x.S != "" {
		c.Script = language.MustParseScript(x.S)
	}
	return c
}

func randomFields() (ctxFields, string) {
	x := ctxFields{F: rng.Intn(6) == 0}
	gs := hlib.Classes{}
	for g := range locales {
		gs[g] = nil
	}
	names := gs.Names()
	x.G = names[rng.Intn(len(names))]
	if rng.Intn(4) == 0 {
		x.G = ""
	}
	switch rng.Intn(4) {
	case 0:
		x.S = eaScripts[rng.Intn(len(eaScripts))]
	case 1:
		x.S = otherScripts[rng.Intn(len(otherScripts))]
	}
	if ownScript[x.G] && !x.F {
		x.S = ""
	}
	l := locales[x.G]
	return x, l[rng.Intn(len(l))]
}

// measureOne measures a character of a class one way or the other.
func measureOne(rng *rand.Rand, k string, c *uax11.Context) int {
	s := samples[k][rng.Intn(len(samples[k]))]
	if rng.Intn(2) == 0 {
		return uax11.Width([]byte(s), c)
	}
	return uax11.StringWidth(grapheme.StringFromString(s), c)
}

func ctxs(out *hlib.Out) {
	envs := map[string][]string{"ja": {"ja_JP.UTF-8", "ja_JP", "ja"}, "zh": {"zh_CN.GB18030", "zh_CN.UTF-8"}, "zhTW": {"zh_TW.Big5", "zh_TW.UTF-8"}, "ko": {"ko_KR.eucKR"},
		"en": {"en_US.UTF-8", "en_GB", ""}, "de": {"de_DE.UTF-8", "de_DE@euro"}, "": {"C", "POSIX", "C.UTF-8"}, "th": {"th_TH"}, "ru": {"ru_RU.KOI8-R"}}
	egs := []string{"ja", "zh", "zhTW", "ko", "en", "de", "", "th", "ru"}
	grapheme.SetupGraphemeClasses()
	for n := hlib.Int("RND", 5000); n > 0; n-- {
		o := ctxObs{X: []ctxFields{}, U: []use{}}
		cs := []*uax11.Context{}
		used := []bool{}
		grow := func() {
			x, loc := randomFields()
			var c *uax11.Context
			if rng.Intn(5) == 0 {
				x = ctxFields{G: egs[rng.Intn(len(egs))]}
				l := envs[x.G]
				loc = l[rng.Intn(len(l))]
				os.Setenv("LC_ALL", loc)
				os.Setenv("LANG", "")
				if rng.Intn(2) == 0 {
					os.Setenv("LC_ALL", "")
					os.Setenv("LANG", loc)
				}
				c = uax11.ContextFromEnvironment()
				loc = "env " + loc
			} else {
				c = randomContext(&x, loc)
			}
			o.K += fmt.Sprintf("[%v %s %s]", x.F, x.S, loc)
			o.X = append(o.X, x)
			cs = append(cs, c)
			used = append(used, false)
		}
		grow()
		for k := 1 + rng.Intn(8); k > 0; k-- {
			if rng.Intn(3) == 0 {
				grow()
			}
			i := rng.Intn(len(cs)+3) - 2
			u := use{X: i, C: sampleNames[rng.Intn(len(sampleNames))]}
			var c *uax11.Context
			switch {
			case i == -2:
				c = uax11.EastAsianContext
			case i == -1:
				c = uax11.LatinContext
			case i > 0:
				c = cs[i-1]
				used[i-1] = true
			}
			hlib.Begin(o.K)
			u.W = measureOne(rng, u.C, c)
			hlib.Done()
			o.U = append(o.U, u)
		}
		for i := range cs {
			if used[i] {
				o.X[i].I = cs[i].Script.String()
			}
		}
		out.Put(o)
	}
}

// several goroutines measure with contexts of their own and the predefined ones
func ctxpar(out *hlib.Out) {
	for n := hlib.Int("RND", 200); n > 0; n-- {
		width := 8
		obs := make([]ctxObs, width)
		var wg sync.WaitGroup
		for i := range obs {
			x, loc := randomFields()
			o := &obs[i]
			o.K = fmt.Sprintf("parallel [%v %s %s]", x.F, x.S, loc)
			o.X, o.U = []ctxFields{x}, []use{}
			rng := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := randomContext(&o.X[0], loc)
				for k := 10; k > 0; k-- {
					u := use{X: rng.Intn(4) - 2, C: sampleNames[rng.Intn(len(sampleNames))]}
					u.W = measureOne(rng, u.C, []*uax11.Context{uax11.EastAsianContext, uax11.LatinContext, nil, c}[u.X+2])
					o.U = append(o.U, u)
				}
			}()
		}
		hlib.Begin(obs[0].K)
		wg.Wait()
		hlib.Done()
		for _, o := range obs {
			out.Put(o)
		}
	}
}

func main() {
	rng = hlib.Rng()
	out := hlib.Open()
	gcb = hlib.Load("gcb.txt")
	gcbNames = gcb.Names()
	switch mode := os.Getenv("MODE"); mode {
	case "first":
		first(out)
	case "gstr":
		gstr(out)
	case "width":
		widths(out)
	case "ctx":
		ctxs(out)
	case "ctxpar":
		ctxpar(out)
	default:
		hlib.Die("unknown mode %q", mode)
	}
	out.Close()
}
