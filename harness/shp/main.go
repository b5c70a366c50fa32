//go:build go1.21

// Records which tables for shaping list which code points, and the tables themselves.
package main

import (
	"sort"
	"strings"
	"unicode"

	"github.com/npillmayer/uax/internal/zzverif/hlib"
	"github.com/npillmayer/uax/shaping"
)

type obs struct {
	K   string   `json:"k"`
	P   string   `json:"p"`
	Lo  int      `json:"lo"`
	Hi  int      `json:"hi"`
	M   []string `json:"m"`
	T   string   `json:"t"`
	R16 [][3]int `json:"r16"`
	R32 [][3]int `json:"r32"`
	Lat int      `json:"lat"`
}

var packages = map[string]map[string]*unicode.RangeTable{
	"arab": {
		"C": shaping.ARAB_C,
		"D": shaping.ARAB_D,
		"L": shaping.ARAB_L,
		"R": shaping.ARAB_R,
		"T": shaping.ARAB_T,
		"U": shaping.ARAB_U,
	},
	"inpc": {
		"Bottom":                   shaping.UIPC_Bottom,
		"Bottom_And_Left":          shaping.UIPC_Bottom_And_Left,
		"Bottom_And_Right":         shaping.UIPC_Bottom_And_Right,
		"Left":                     shaping.UIPC_Left,
		"Left_And_Right":           shaping.UIPC_Left_And_Right,
		"Overstruck":               shaping.UIPC_Overstruck,
		"Right":                    shaping.UIPC_Right,
		"Top":                      shaping.UIPC_Top,
		"Top_And_Bottom":           shaping.UIPC_Top_And_Bottom,
		"Top_And_Bottom_And_Left":  shaping.UIPC_Top_And_Bottom_And_Left,
		"Top_And_Bottom_And_Right": shaping.UIPC_Top_And_Bottom_And_Right,
		"Top_And_Left":             shaping.UIPC_Top_And_Left,
		"Top_And_Left_And_Right":   shaping.UIPC_Top_And_Left_And_Right,
		"Top_And_Right":            shaping.UIPC_Top_And_Right,
		"Visual_Order_Left":        shaping.UIPC_Visual_Order_Left,
	},
	"insc": {
		"Avagraha":                    shaping.UISC_Avagraha,
		"Bindu":                       shaping.UISC_Bindu,
		"Brahmi_Joining_Number":       shaping.UISC_Brahmi_Joining_Number,
		"Cantillation_Mark":           shaping.UISC_Cantillation_Mark,
		"Consonant":                   shaping.UISC_Consonant,
		"Consonant_Dead":              shaping.UISC_Consonant_Dead,
		"Consonant_Final":             shaping.UISC_Consonant_Final,
		"Consonant_Head_Letter":       shaping.UISC_Consonant_Head_Letter,
		"Consonant_Initial_Postfixed": shaping.UISC_Consonant_Initial_Postfixed,
		"Consonant_Killer":            shaping.UISC_Consonant_Killer,
		"Consonant_Medial":            shaping.UISC_Consonant_Medial,
		"Consonant_Placeholder":       shaping.UISC_Consonant_Placeholder,
		"Consonant_Preceding_Repha":   shaping.UISC_Consonant_Preceding_Repha,
		"Consonant_Prefixed":          shaping.UISC_Consonant_Prefixed,
		"Consonant_Subjoined":         shaping.UISC_Consonant_Subjoined,
		"Consonant_Succeeding_Repha":  shaping.UISC_Consonant_Succeeding_Repha,
		"Consonant_With_Stacker":      shaping.UISC_Consonant_With_Stacker,
		"Gemination_Mark":             shaping.UISC_Gemination_Mark,
		"Invisible_Stacker":           shaping.UISC_Invisible_Stacker,
		"Joiner":                      shaping.UISC_Joiner,
		"Modifying_Letter":            shaping.UISC_Modifying_Letter,
		"Non_Joiner":                  shaping.UISC_Non_Joiner,
		"Nukta":                       shaping.UISC_Nukta,
		"Number":                      shaping.UISC_Number,
		"Number_Joiner":               shaping.UISC_Number_Joiner,
		"Pure_Killer":                 shaping.UISC_Pure_Killer,
		"Register_Shifter":            shaping.UISC_Register_Shifter,
		"Syllable_Modifier":           shaping.UISC_Syllable_Modifier,
		"Tone_Letter":                 shaping.UISC_Tone_Letter,
		"Tone_Mark":                   shaping.UISC_Tone_Mark,
		"Virama":                      shaping.UISC_Virama,
		"Visarga":                     shaping.UISC_Visarga,
		"Vowel":                       shaping.UISC_Vowel,
		"Vowel_Dependent":             shaping.UISC_Vowel_Dependent,
		"Vowel_Independent":           shaping.UISC_Vowel_Independent,
	},
}

func main() {
	out := hlib.Open()
	for _, p := range []string{"arab", "inpc", "insc"} {
		names := []string{}
		for n, t := range packages[p] {
			names = append(names, n)
			o := obs{K: p + " table " + n, P: p, T: n, M: []string{}, R16: [][3]int{}, R32: [][3]int{}, Lat: t.LatinOffset}
			for _, r := range t.R16 {
				o.R16 = append(o.R16, [3]int{int(r.Lo), int(r.Hi), int(r.Stride)})
			}
			for _, r := range t.R32 {
				o.R32 = append(o.R32, [3]int{int(r.Lo), int(r.Hi), int(r.Stride)})
			}
			out.Put(o)
		}
		sort.Strings(names)
		var o obs
		put := func() {
			if o.P != "" {
				o.K = p + " " + hlib.Hex([]rune{rune(o.Lo), rune(o.Hi)})
				out.Put(o)
			}
		}
		for c := 0; c <= 0x10ffff; c++ {
			m := []string{}
			for _, n := range names {
				if unicode.Is(packages[p][n], rune(c)) {
					m = append(m, n)
				}
			}
			if c == 0 || c == 0xd800 || c == 0xe000 || strings.Join(m, " ") != strings.Join(o.M, " ") {
				put()
				o = obs{P: p, Lo: c, M: m, R16: [][3]int{}, R32: [][3]int{}}
			}
			o.Hi = c
		}
		put()
	}
	out.Close()
}
