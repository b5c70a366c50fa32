//go:build go1.21

// Records the classes of all code points, and which tables list them.
package main

import (
	"strings"
	"unicode"

	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/internal/zzverif/hlib"
	"github.com/npillmayer/uax/uax29"
)

type obs struct {
	K  string   `json:"k"`
	P  string   `json:"p"`
	Lo int      `json:"lo"`
	Hi int      `json:"hi"`
	C  string   `json:"c"`
	M  []string `json:"m"`
}

type table struct {
	name string
	t    *unicode.RangeTable
}

var short = map[string]string{"Double_Quote": "DQ", "Single_Quote": "SQ", "Regional_Indicator": "RI",
	"Hebrew_Letter": "Hebrew", "Emoji_Presentation": "EPres", "Emoji_Modifier": "EMod",
	"Emoji_Modifier_Base": "EBase", "Emoji_Component": "EComp", "Extended_Pictographic": "ExtPict"}

func name(s string) string {
	s = strings.TrimSuffix(s, "Class")
	if n, ok := short[s]; ok {
		return n
	}
	return s
}

func main() {
	rng := hlib.Rng()
	out := hlib.Open()
	record := func(p string, class func(rune) string, tables []table) {
		var o obs
		put := func() {
			if o.P != "" {
				o.K = p + " " + hlib.Hex([]rune{rune(o.Lo), rune(o.Hi)})
				out.Put(o)
			}
		}
		for c := 1; c <= 0x10ffff; c++ {
			if c >= 0xd800 && c < 0xe000 {
				continue
			}
			hlib.Begin(p + " of a code point")
			m := []string{}
			for _, t := range tables {
				if unicode.Is(t.t, rune(c)) {
					m = append(m, t.name)
				}
			}
			k := class(rune(c))
			if k != o.C || o.Hi != c-1 || strings.Join(m, " ") != strings.Join(o.M, " ") {
				put()
				o = obs{P: p, Lo: c, C: k, M: m}
			}
			o.Hi = c
		}
		put()
	}
	set := []func(){uax29.SetupUAX29Classes, grapheme.SetupGraphemeClasses, emoji.SetupEmojisClasses}
	rng.Shuffle(3, func(i, j int) { set[i], set[j] = set[j], set[i] })
	for _, f := range append(set, set...) { // in any order, and once more
		f()
	}
	record("wb", func(r rune) string { return name(uax29.ClassForRune(r).String()) }, []table{
		{"ALetter", uax29.ALetter}, {"CR", uax29.CR}, {"DQ", uax29.Double_Quote}, {"Extend", uax29.Extend},
		{"ExtendNumLet", uax29.ExtendNumLet}, {"Format", uax29.Format}, {"Hebrew", uax29.Hebrew_Letter},
		{"Katakana", uax29.Katakana}, {"LF", uax29.LF}, {"MidLetter", uax29.MidLetter}, {"MidNum", uax29.MidNum},
		{"MidNumLet", uax29.MidNumLet}, {"Newline", uax29.Newline}, {"Numeric", uax29.Numeric},
		{"RI", uax29.Regional_Indicator}, {"SQ", uax29.Single_Quote}, {"WSegSpace", uax29.WSegSpace}, {"ZWJ", uax29.ZWJ}})
	record("gcb", func(r rune) string { return name(grapheme.ClassForRune(r).String()) }, []table{
		{"CR", grapheme.CR}, {"LF", grapheme.LF}, {"Prepend", grapheme.Prepend}, {"Control", grapheme.Control},
		{"Extend", grapheme.Extend}, {"RI", grapheme.Regional_Indicator}, {"SpacingMark", grapheme.SpacingMark},
		{"L", grapheme.L}, {"V", grapheme.V}, {"T", grapheme.T}, {"LV", grapheme.LV}, {"LVT", grapheme.LVT}, {"ZWJ", grapheme.ZWJ}})
	record("emoji", func(r rune) string {
		c := emoji.EmojisClassForRune(r)
		if c == -1 {
			return "none"
		}
		return name(c.String())
	}, []table{{"Emoji", emoji.Emoji}, {"EPres", emoji.Emoji_Presentation}, {"EMod", emoji.Emoji_Modifier},
		{"EBase", emoji.Emoji_Modifier_Base}, {"EComp", emoji.Emoji_Component}, {"ExtPict", emoji.Extended_Pictographic}})
	out.Close()
}
