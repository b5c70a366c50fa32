"""Definitions of the planted bugs, see mkseed.py. edits: (file, old text (must be unique), new text)."""
SEEDS = []
def seed(**k): SEEDS.append(k)

SEGTEST = '''
package %(pkg)s_test

import (
	"strings"
	"testing"

	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/%(pkg)s"
)

func TestZZDemo(t *testing.T) {
	%(setup)s
	for _, c := range []struct{ in, want string }{%(cases)s} {
		seg := segment.NewSegmenter(%(new)s)
		seg.Init(strings.NewReader(c.in))
		got := []string{}
		for seg.Next() {
			got = append(got, seg.Text())
		}
		if strings.Join(got, "|") != c.want {
			t.Errorf("%%+q is segmented into %%+q, should be %%+q", c.in, strings.Join(got, "|"), c.want)
		}
	}
}
'''
def words(cases): return SEGTEST % dict(pkg='uax29', setup='', new='uax29.NewWordBreaker(1)', cases=cases)
def graphs(cases): return SEGTEST % dict(pkg='grapheme', setup='grapheme.SetupGraphemeClasses()', new='grapheme.NewBreaker(1)', cases=cases)

seed(id='W02-zwj-not-counted', property='W02', pkg='uax29',
     needs='a ZWJ between the middle character and the second letter (or digit) of a three-part word',
     breaks='ZWJ is ignored without counting it, so that the suppressing penalty is put one position off',
     edits=[('uax29/uax29.go', '''	if c == ExtendClass || c == FormatClass || c == ZWJClass {
		rec.MatchLen++
		return true
	}
	return false''', '''	if c == ExtendClass || c == FormatClass {
		rec.MatchLen++
		return true
	}
	return c == ZWJClass''')],
     demo=words('{"a:\\u200da", "a:\\u200da"}, {"1,\\u200d1 ", "1,\\u200d1| "}'))
seed(id='W02-hebrew-dq-ignorable', property='W02', pkg='uax29',
     needs='Hebrew letter, double quote, two ignorable characters, Hebrew letter',
     breaks='rule WB7b/c gives up on an ignorable character that follows another one behind the double quote',
     edits=[('uax29/uax29.go', '''	if checkIgnoredCharacters(rec, c) {
		return finish_WB7bc
	}''', '''	if rec.MatchLen == rec.Expect && checkIgnoredCharacters(rec, c) {
		return finish_WB7bc
	}''')],
     demo=words('{"\\u05d0\\"\\u0308\\u0308\\u05d0", "\\u05d0\\"\\u0308\\u0308\\u05d0"}'))
seed(id='W02-ri-block-ignorable', property='W02', pkg='uax29',
     needs='three regional indicators with a format character after the first one',
     breaks='a format character lifts the block on regional indicators, so that the second one of a pair starts a pair, too',
     edits=[('uax29/uax29.go', '''	if checkIgnoredCharacters(rec, c) {
		return finish_WB15
	}
	gb := rec.UserData.(*WordBreaker)
	gb.unblock(Regional_IndicatorClass)''', '''	gb := rec.UserData.(*WordBreaker)
	if c == FormatClass {
		gb.unblock(c)
	}
	if checkIgnoredCharacters(rec, c) {
		return finish_WB15
	}
	gb.unblock(Regional_IndicatorClass)''')],
     demo=words('{"\\U0001F1E6\\u00ad\\U0001F1E7\\U0001F1E8", "\\U0001F1E6\\u00ad\\U0001F1E7|\\U0001F1E8"}'))
seed(id='G01-pict-extend-twice', property='G01', pkg='grapheme',
     needs='an emoji ZWJ sequence with two extending characters before the ZWJ',
     breaks='GB11 accepts at most one Extend between pictograph and ZWJ',
     edits=[('grapheme/grapheme.go', '''	} else if cpClass == int(ExtendClass) {
		rec.MatchLen++
		return rule_GB11Cont''', '''	} else if cpClass == int(ExtendClass) && rec.MatchLen == 0 {
		rec.MatchLen++
		return rule_GB11Cont''')],
     demo=graphs('{"\\U0001F469\\u0308\\u0308\\u200d\\U0001F469", "\\U0001F469\\u0308\\u0308\\u200d\\U0001F469"}'))
seed(id='G01-ri-unblock', property='G01', pkg='grapheme',
     needs='a flag that follows a single regional indicator and a character that is neither a regional indicator nor starts a rule',
     breaks='after a lone regional indicator the pairing of the next ones stays blocked',
     edits=[('grapheme/grapheme.go', '''	gb.unblock(Regional_IndicatorClass)
	if c == Regional_IndicatorClass {
		return''', '''	if c != ExtendClass {
		gb.unblock(Regional_IndicatorClass)
	}
	if c == Regional_IndicatorClass {
		return''')],
     demo=graphs('{"\\U0001F1E6\\u0308\\U0001F1E7\\U0001F1E8", "\\U0001F1E6\\u0308|\\U0001F1E7\\U0001F1E8"}'))

# ---- bidi -------------------------------------------------------------------------------
BIDI = '''
package bidi_test

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/npillmayer/uax/bidi"
)

func opts(rtl bool) []bidi.Option {
	if rtl {
		return []bidi.Option{bidi.TestMode(true), bidi.DefaultDirection(bidi.RightToLeft)}
	}
	return []bidi.Option{bidi.TestMode(true)}
}

func dirs(r *bidi.ResolvedLevels, text string) string {
	s := ""
	for i := range text {
		if r.DirectionAt(uint64(i)) == bidi.LeftToRight {
			s += "L"
		} else {
			s += "R"
		}
	}
	return s
}

// order returns the text in visual order
func order(r *bidi.ResolvedLevels, text string, rtl bool) string {
	s := ""
	runs := r.Reorder().Runs
	for k := range runs {
		run := runs[k]
		if rtl {
			run = runs[len(runs)-1-k]
		}
		it := run.SegmentIterator(rtl)
		for it.Next() {
			d, f, t := it.Segment()
			seg := []rune(text[f:t])
			if d == bidi.RightToLeft {
				for i, j := 0, len(seg)-1; i < j; i, j = i+1, j-1 {
					seg[i], seg[j] = seg[j], seg[i]
				}
			}
			s += string(seg)
		}
	}
	return s
}

var _ = fmt.Sprint
var _ sync.Mutex
var _ = strings.Join

func TestZZDemo(t *testing.T) {
%s
}
'''
def bdirs(*cases):
    return BIDI % ''.join('''	if g := dirs(bidi.ResolveParagraph(strings.NewReader(%s), nil, opts(%s)...), %s); g != "%s" {
		t.Errorf("directions are %%s", g)
	}
''' % (s, rtl, s, w) for s, rtl, w in cases)
def border(*cases):
    return BIDI % ''.join('''	if g := order(bidi.ResolveParagraph(strings.NewReader(%s), nil, opts(%s)...), %s, %s); g != %s {
		t.Errorf("order is %%s", g)
	}
''' % (s, rtl, s, rtl, w) for s, rtl, w in cases)

seed(id='B02-n1-9-jump', property='B02', pkg='bidi',
     needs='European number, neutral, Arabic number, neutral, number in a left-to-right paragraph',
     breaks='after rule N1 for EN NI AN the parser steps over the AN, which is the context of the next neutral',
     edits=[('bidi/actions.go', 'makeMidSwapRule("N1-9", lhs, bidi.R, 2)', 'makeMidSwapRule("N1-9", lhs, bidi.R, 3)')],
     demo=bdirs(('"\\u05d01!\\u0660!\\u0660"', 'false', 'RLRLRL')))
seed(id='B02-bracket-pop', property='B02', pkg='bidi',
     needs='a bracket pair that encloses an unclosed bracket of another kind, which is closed behind it',
     breaks='just the top of the bracket stack is popped instead of everything through the matching bracket',
     edits=[('bidi/brackets.go', '			bs = bs[:i]\n', '			bs = bs[:len(bs)-1]\n')],
     demo=bdirs(('"[a(a]a]"', 'true', 'RLLLRLR')))
seed(id='B03-iterator-even', property='B03', pkg='bidi',
     needs='a run with an even number of segments which is read in reverse order',
     breaks='the two middle segments of a run keep their order',
     edits=[('bidi/reordering.go', 'mid := len(it.scraps) / 2', 'mid := (len(it.scraps) - 1) / 2')],
     demo=border(('"\\u06601"', 'true', '"\\u06601"')))
seed(id='B04-shift-children', property='B04', pkg='bidi',
     needs='split with shift to zero in front of a line with two isolates in a run, the inside of the second one being queried',
     breaks='positions inside of isolates are not shifted, except for the first one of a run',
     edits=[('bidi/reordering.go', '''		s.l = validcharpos(s.l, offset)
		s.r = validcharpos(s.r, offset)
		(*scraps)[i] = s
		for _, ch := range s.children {
			shiftzero(&ch, offset)
		}
''', '''		s.l, s.r = validcharpos(s.l, offset), validcharpos(s.r, offset)
		(*scraps)[i] = s
		if len(s.children) > 0 {
			shiftzero(&s.children[0], offset)
		}
''')],
     demo=BIDI % '''	text := "abc d<EF=g<HI=j"
	_, s := bidi.ResolveParagraph(strings.NewReader(text), nil, opts(false)...).Split(4, true)
	if g := dirs(s, text[4:]); g[2:4] != "RR" || g[7:9] != "RR" || g[0] != 'L' || g[5] != 'L' {
		t.Error(g)
	}''')
seed(id='B02-short-positions', property='B02', pkg='bidi',
     needs='a text of more than 65535 bytes',
     breaks='positions are of 16 bits, so that runs behind byte 65535 are lost or confused with those in front',
     edits=[('bidi/scrap.go', 'type charpos uint32', 'type charpos uint16')],
     demo=BIDI % '''	text := strings.Repeat("a", 65530) + strings.Repeat("AB cd ", 20)
	w := strings.Repeat("L", 65530) + strings.Repeat("RRLLLL", 20)
	if g := dirs(bidi.ResolveParagraph(strings.NewReader(text), nil, opts(false)...), text); g != w {
		t.Error(g[65500:])
	}''')
seed(id='B04-ordering-memory', property='B04', pkg='bidi',
     needs='an ordering which is read only after something else has been reordered',
     breaks='orderings are made in the same memory, one after the other',
     edits=[('bidi/reordering.go', '	return &Ordering{Runs: r}\n', '	runs = append(runs[:0], r...)\n	return &Ordering{Runs: runs}\n'),
            ('bidi/reordering.go', '// DirectionAt returns the text direction at', 'var runs []Run // memory for orderings\n\n// DirectionAt returns the text direction at')],
     demo=BIDI % '''	r := bidi.ResolveParagraph(strings.NewReader("ab CD ef"), nil, opts(false)...)
	p, s := r.Split(4, false)
	a, b := p.Reorder(), s.Reorder()
	read := func(o *bidi.Ordering) string {
		w := ""
		for k := range o.Runs {
			it := o.Runs[k].SegmentIterator(false)
			for it.Next() {
				d, f, t := it.Segment()
				w += fmt.Sprint(d, f, t, " ")
			}
		}
		return w
	}
	if read(a) != read(p.Reorder()) || read(b) != read(s.Reorder()) {
		t.Error(read(a))
	}
	a, b = p.Reorder(), s.Reorder()
	if x, y := read(a), read(b); x == y {
		t.Error(x, y)
	}''')
seed(id='B04-rest-class', property='B04', pkg='bidi',
     needs='split inside of a run which carries isolates and is of the opposite direction',
     breaks='the second part of a run with isolates is taken for neutral',
     edits=[('bidi/reordering.go', '		rest := scrap{r: s.r, bidiclz: s.bidiclz}\n', '''		rest := scrap{r: s.r, bidiclz: cNI}
		if len(s.children) <= 1 {
			rest.bidiclz = s.bidiclz
		}
''')],
     demo=BIDI % '''	text := "AB>cd=EF>gh=IJ"
	r := bidi.ResolveParagraph(strings.NewReader(text), nil, opts(false)...)
	w := dirs(r, text)
	for at := range text {
		p, s := r.Split(uint64(at), false)
		if g := dirs(p, text[:at]) + dirs(s, text)[at:]; g != w {
			t.Errorf("split at %d: %s, should be %s", at, g, w)
		}
	}''')
seed(id='B05-adjacent-markup', property='B05', pkg='bidi',
     needs='markup at a position one byte behind another query, i.e. around a single ASCII character',
     breaks='markup directly behind a one-byte character is overlooked',
     edits=[('bidi/scanner.go', 'sc.lastMarkupPos < int64(pos) {', '(sc.lastMarkupPos+1 < int64(pos) || pos == 0) {')],
     demo=BIDI % '''	r := bidi.ResolveParagraph(strings.NewReader("ABC DEF"), func(p uint64) int {
		return map[uint64]int{1: bidi.MarkupLRI, 2: bidi.MarkupPDI}[p]
	}, opts(false)...)
	if g := dirs(r, "ABC DEF"); g != "RRRRRRR" {
		t.Error(g)
	}
	r = bidi.ResolveParagraph(strings.NewReader("ab1 DE"), func(p uint64) int {
		return map[uint64]int{2: bidi.MarkupRLI, 3: bidi.MarkupPDI}[p]
	}, opts(false)...)
	if g := order(r, "ab1 DE", false); g != "ab1 ED" {
		t.Error(g)
	}''')
seed(id='B05-pdi-first', property='B05', pkg='bidi',
     needs='markup which closes an isolate and opens another one at the same position',
     breaks='of a combined PDI and RLI mark just the PDI is handled',
     edits=[('bidi/scanner.go', 'sc.lastMarkup = d - MarkupPDI //', 'sc.lastMarkup = (d - MarkupPDI) & MarkupLRI //')],
     demo=BIDI % '''	r := bidi.ResolveParagraph(strings.NewReader("a!b!c"), func(p uint64) int {
		return map[uint64]int{1: bidi.MarkupLRI, 3: bidi.MarkupPDIRLI, 4: bidi.MarkupPDI}[p]
	}, opts(false)...)
	if g := dirs(r, "a!b!c"); g != "LLLRL" {
		t.Error(g)
	}''')
seed(id='B06-trie-once', property='B06', pkg='bidi', flags='-race',
     needs='the first two paragraphs of a process being resolved at the same time',
     breaks='the rules table is set up without synchronization',
     edits=[('bidi/resolver.go', '	prepareTrieOnce.Do(func() {\n', '	setup := func() {\n'),
            ('bidi/resolver.go', '''		rulesTrie = trie
	})
''', '''		rulesTrie = trie
	}
	if rulesTrie == nil {
		setup()
	}
'''), ('bidi/resolver.go', 'var prepareTrieOnce sync.Once    //', 'var _ sync.Once //')],
     demo=BIDI % '''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if g := dirs(bidi.ResolveParagraph(strings.NewReader("abC1"), nil, opts(false)...), "abC1"); g != "LLRL" {
				t.Error(g)
			}
		}()
	}
	wg.Wait()''')
seed(id='B06-shared-stack', property='B06', pkg='bidi', flags='-race',
     needs='two paragraphs being resolved at the same time',
     breaks='parsers take their stack from a buffer which all of them share',
     edits=[('bidi/resolver.go', '		stack: make([]scrap, 0, 64),\n', '		stack: stackMem[:0],\n'),
            ('bidi/resolver.go', '// newParser creates a Parser, which', 'var stackMem [64]scrap\n\n// newParser creates a Parser, which')],
     demo=BIDI % '''	var wg sync.WaitGroup
	for i := 0; i < 64; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			text := []string{"abC1", "ABC d ", "1 A b C d E f G h"}[i%3]
			want := []string{"LLRL", "RRRLLL", "LLRLLLRLLLRLLLRLL"}[i%3]
			if g := dirs(bidi.ResolveParagraph(strings.NewReader(text), nil, opts(false)...), text); g[:2] != want[:2] {
				t.Error(text, g)
			}
		}(i)
	}
	wg.Wait()''')
seed(id='B01-third-run-lost', property='B01', pkg='bidi',
     needs='an isolate which yields three or more runs, the first of which is melded with the run before',
     breaks='of the runs of an isolate just the first two are kept',
     edits=[('bidi/reordering.go', '''		runs = append(runs, childRuns[1:]...)
''', '''		if len(childRuns) > 1 {
			runs = append(runs, childRuns[1])
		}
''')],
     demo=BIDI % '''	for _, text := range []string{"a>b<C=d<E=f=g", "A<B>c=D>e=F=G"} {
		for _, rtl := range []bool{true, false} {
			n := len(order(bidi.ResolveParagraph(strings.NewReader(text), nil, opts(rtl)...), text, rtl))
			if n != len(text) {
				t.Errorf("%s: %d bytes of %d", text, n, len(text))
			}
		}
	}''')
seed(id='B01-split-before-pdi', property='B01', pkg='bidi',
     needs='levels split directly in front of the PDI that ends an isolate, the second part being reordered',
     breaks='the rest of an isolate does not start with an isolate initiator if just the PDI is left, reordering panics',
     edits=[('bidi/reordering.go', '''		if isisolate(scraps[0]) {
			rseg''', '''		if isisolate(scraps[0]) && i+1 < len(scraps) {
			rseg''')],
     demo=BIDI % '''	text := "ab<CD=ef"
	_, s := bidi.ResolveParagraph(strings.NewReader(text), nil, opts(false)...).Split(5, false)
	if n := len(order(s, text, false)); n != 3 {
		t.Error(n)
	}''')
seed(id='B03-nested-not-reversed', property='B03', pkg='bidi',
     needs='an isolate with two pieces, nested in an isolate of the direction opposite to the paragraph',
     breaks='an isolate of opposite direction is reversed without what is nested in it',
     edits=[('bidi/reordering.go', '				reverseWithoutIsolates(ch, 0, len(ch))\n', '				reverse(ch, 1, len(ch)-1)\n')],
     demo=border(('"a<B<Cd=e=f"', 'false', '"a<e<dC=B=f"')))

SEG = '''
package segment_test

import (
	"errors"
	"io"
	"strings"
	"testing"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/segment"
)

var _ = errors.New
var _ = io.EOF
var _ = strings.Repeat

// script is a breaker reporting the n-th penalties and match length for the n-th character
type script struct {
	pen [][]int
	lam []int
	n   int
}

func (b *script) CodePointClassFor(r rune) int  { return 0 }
func (b *script) StartRulesFor(r rune, c int)   {}
func (b *script) ProceedWithRune(r rune, c int) { b.n++ }
func (b *script) LongestActiveMatch() int {
	if b.n <= len(b.lam) {
		return b.lam[b.n-1]
	}
	return 0
}
func (b *script) Penalties() []int {
	if b.n <= len(b.pen) {
		return b.pen[b.n-1]
	}
	return nil
}

const no = uax.InfinitePenalty

func all(s *segment.Segmenter) string {
	segs := []string{}
	for s.Next() {
		segs = append(segs, s.Text())
	}
	return strings.Join(segs, "|")
}

func TestZZDemo(t *testing.T) {
%s
}
'''
SIMPLE = '	s := segment.NewSegmenter(segment.NewSimpleWordBreaker())\n'
seed(id='S01-queue-grow', property='S01', pkg='segment', needs='a segment of more than 64 characters, i.e. the queue has to grow while it does not wrap around',
     breaks='growing a full queue loses what it holds',
     edits=[('segment/deque.go', 'if q.tail > q.head {', 'if q.tail >= q.head {')],
     demo=SEG % (SIMPLE + '''	text := strings.Repeat("abcdefghij", 7)
	s.Init(strings.NewReader(text))
	if g := all(s); g != text {
		t.Error(g)
	}'''))
seed(id='S01-queue-shrink', property='S01', pkg='segment', needs='a queue that has grown and wrapped around, and is delivered in small segments afterwards',
     breaks='when a queue that wraps around shrinks, what is left at its front is cut off',
     edits=[('segment/deque.go', '		n := copy(newBuf, q.buf[q.head:])', '		n := copy(newBuf[:q.count], q.buf[max(q.head, len(q.buf)-minCapacity/2):])')],
     demo=SEG % ('''	for n := 1; n < 200; n++ { // words, then a long look-ahead which yields breaks after every other character
		for m := 65; m < 300; m += 7 {
			b := &script{}
			text := strings.Repeat("x", n)
			for i := 0; i < n; i++ {
				b.pen = append(b.pen, []int{1})
				b.lam = append(b.lam, 0)
			}
			rev := []int{0}
			for i := 0; i < m; i++ {
				text += string(rune('a' + i%26))
				b.pen = append(b.pen, nil)
				b.lam = append(b.lam, i+1)
				rev = append(rev, 1)
			}
			b.pen = append(b.pen, rev)
			b.lam = append(b.lam, 0)
			s := segment.NewSegmenter(b)
			s.Init(strings.NewReader(text))
			if g := strings.ReplaceAll(all(s), "|", ""); g != text {
				t.Fatal(n, m, g, text)
			}
		}
	}'''))
seed(id='S01-buffer-grows-twice', property='S01', pkg='segment', needs='a segment longer than two times the initial buffer',
     breaks='when the output buffer grows for a second time just its first part is copied',
     edits=[('segment/segment.go', 'copy(rw.output[:len(old)], old)', 'copy(rw.output, old[:min(len(old), startBufSize)])')],
     demo=SEG % (SIMPLE + '''	text := strings.Repeat("abcdefghij", 1000)
	s.Init(strings.NewReader(text))
	if g := all(s); g != text {
		t.Error(len(g))
	}'''))
seed(id='S02-zero-of-primary', property='S02', pkg='segment', needs='a secondary breaker and different settings for zero penalties',
     breaks='zero penalties of secondary breakers are judged by the setting for the primary one',
     edits=[('segment/segment.go', 'isPossibleBreak(q.penalty1, s.breakOnZero[1])', 'isPossibleBreak(q.penalty1, s.breakOnZero[0])')],
     demo=SEG % ('''	for _, z := range []bool{true, false} {
		s := segment.NewSegmenter(&script{pen: [][]int{{no}, {no}, {0, 1}}}, &script{pen: [][]int{{0}, {0}, {0, 1}}})
		s.BreakOnZero(false, z)
		s.Init(strings.NewReader("ab"))
		want := "ab"
		if z {
			want = "a|b"
		}
		if g := all(s); g != want {
			t.Error(z, g)
		}
	}'''))
seed(id='S02-match-of-third', property='S02', pkg='segment', needs='three breakers, the last one with a match longer than those of the others',
     breaks='active matches are just those of the primary and the first secondary breaker',
     edits=[('segment/segment.go', '			for _, breaker := range s.breakers {\n				cpClass := breaker.CodePointClassFor(r)', '			for k, breaker := range s.breakers {\n				cpClass := breaker.CodePointClassFor(r)'),
            ('segment/segment.go', 'lam > s.longestActiveMatch {', 'lam > s.longestActiveMatch && k <= 1 {')],
     demo=SEG % ('''	s := segment.NewSegmenter(&script{pen: [][]int{{no}, {no}, {0, 1}}}, &script{pen: [][]int{{1}, {1}, {0, 1}}},
		&script{lam: []int{1, 2}, pen: [][]int{{}, {}, {0, 0, no}}})
	s.Init(strings.NewReader("ab"))
	if g := all(s); g != "ab" {
		t.Error(g)
	}'''))
seed(id='S02-penalties-add-up', property='S02', pkg='segment', needs='a secondary breaker which forbids a break (or reports zero and breaks elsewhere) within a segment',
     breaks='the penalty told for the secondary breakers is the sum over the characters of the segment',
     edits=[('segment/segment.go', 's.lastPenalties[0], s.lastPenalties[1] = p0, p1', 's.lastPenalties[0], s.lastPenalties[1] = p0, s.lastPenalties[1]+p1')],
     demo=SEG % ('''	s := segment.NewSegmenter(&script{pen: [][]int{{no}, {no}, {0, 1}}}, &script{pen: [][]int{{no + 7}, {5}, {0, 0}}})
	s.Init(strings.NewReader("ab"))
	if !s.Next() || s.Text() != "ab" {
		t.Fatal(s.Text())
	}
	if p, q := s.Penalties(); q != 5 {
		t.Error(p, q)
	}'''))
BND = '''	for k := 0; k < 9; k++ {
%s
	}'''
seed(id='S03-match-over-bound', property='S03', pkg='segment', needs='a match that is active at the bound, with a break before it',
     breaks='reading stops at the bound although a match that is still active may yield a break before it',
     edits=[('segment/segment.go', 's.pos-s.longestActiveMatch > bound', 's.pos-min(s.longestActiveMatch, 8) > bound')],
     demo=SEG % ('''	s := segment.NewSegmenter(&script{lam: []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, pen: [][]int{12: {0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}})
	s.Init(strings.NewReader("abcdefghijkl"))
	got := ""
	for _, b := range []int{3, 12} {
		for s.BoundedNext(b) {
			got += s.Text() + "|"
		}
	}
	if got != "ab|c|defghijkl|" {
		t.Error(got)
	}'''))
seed(id='S03-match-starts-at-bound', property='S03', pkg='segment', needs='a match that starts exactly at the bound, and no break there',
     breaks='text in front of the bound is not delivered if a match starts at the bound',
     edits=[('segment/segment.go', '} else if i == boundDist+1 {', '} else if i == boundDist+1 && i < to {')],
     demo=SEG % ('''	s := segment.NewSegmenter(&script{lam: []int{0, 0, 1, 2, 3}, pen: [][]int{{no}, {no}, {}, {}, {}, {0, 1}}})
	s.Init(strings.NewReader("abcde"))
	got := ""
	for _, b := range []int{2, 5} {
		for s.BoundedNext(b) {
			got += s.Text() + "|"
		}
	}
	if got != "ab|cde|" {
		t.Error(got)
	}'''))
seed(id='S04-position-kept', property='S04', pkg='segment', needs='a segmenter used for a second text, with a bound',
     breaks='the position in the text is not reset',
     edits=[('segment/segment.go', '		s.pos = 0\n', '')],
     demo=SEG % (SIMPLE + '''	for i := 0; i < 2; i++ {
		s.Init(strings.NewReader("ab cd ef"))
		got := ""
		for s.BoundedNext(5) {
			got += s.Text() + "|"
		}
		if got != "ab| |cd|" {
			t.Error(got)
		}
	}'''))
seed(id='S04-goes-on-after-error', property='S04', pkg='segment', needs='a reader that fails once and would deliver more if asked again, and a client that does so',
     breaks='after an error of the reader segmenting continues',
     edits=[('segment/segment.go', '''Errorf("ReadRune() error: %s", err)
		s.atEOF = true''', '''Errorf("ReadRune() error: %s", err)''')],
     demo=SEG % (SIMPLE + '''	s.Init(&failing{rs: []rune("ab cd ef"), at: 4})
	if g := all(s); g != "ab| " || s.Err() == nil {
		t.Error(g, s.Err())
	}
	if s.Next() || s.Err() == nil {
		t.Error("goes on", s.Text())
	}''').rstrip() + '''

type failing struct {
	rs []rune
	i  int
	at int
}

func (f *failing) ReadRune() (rune, int, error) {
	if f.i == f.at {
		f.at = -1
		return 0, 0, errors.New("failed")
	}
	if f.i >= len(f.rs) {
		return 0, 0, io.EOF
	}
	f.i++
	return f.rs[f.i-1], 1, nil
}
''')
seed(id='S04-slice-end-kept', property='S04', pkg='segment', needs='a segmenter used for a slice of runes, given up in the middle, then used for another slice',
     breaks='the end of the last segment in the slice is not reset',
     edits=[('segment/segment.go', 'rw.start, rw.end = 0, 0', 'rw.start = 0')],
     demo=SEG % (SIMPLE + '''	s.InitFromSlice([]rune("xy z"))
	s.Next()
	s.InitFromSlice([]rune("ab cd"))
	if g := all(s); g != "ab| |cd" {
		t.Error(g)
	}'''))
seed(id='W01-line-separators', property='W01', pkg='segment', needs='NEL, LINE SEPARATOR or PARAGRAPH SEPARATOR',
     breaks='white space is taken to be ASCII white space and the space separators',
     edits=[('segment/simplewordbreak.go', '	if unicode.IsSpace(r) {', "	if unicode.Is(unicode.Zs, r) || r >= '\\t' && r <= '\\r' {")],
     demo=SEG % (SIMPLE + '''	s.Init(strings.NewReader("ab\\u0085cd\\u2028ef"))
	if g := all(s); g != "ab|\\u0085|cd|\\u2028|ef" {
		t.Error(g)
	}'''))
seed(id='W01-after-space-at-end', property='W01', pkg='segment', needs='text that ends with white space after more than one word',
     breaks='at the end of the text the penalty for white space is the one for words',
     edits=[('segment/simplewordbreak.go', 'if swb.matchType == spaceType {', 'if swb.matchType == spaceType && r != 0 {')],
     demo=SEG % (SIMPLE + '''	s.Init(strings.NewReader("ab cd "))
	p := 0
	for s.Next() {
		p, _ = s.Penalties()
	}
	if p != segment.PenaltyAfterWhitespace {
		t.Error(p)
	}'''))

PUB = '''
package uax_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/npillmayer/uax"
)

var _ sync.WaitGroup

// sub is a subscriber that lives for some events
type sub struct {
	life, n int
	pen     []int
	uns     int
}

func (s *sub) RuneEvent(r rune, c int) []int {
	s.n++
	if s.n == s.life {
		return s.pen
	}
	return nil
}
func (s *sub) MatchLength() int { return s.n }
func (s *sub) Done() bool       { return s.n >= s.life }
func (s *sub) Unsubscribed()    { s.uns++ }

// lives has n subscribers with lives as given by the digits of a number, and checks the calls
func lives(t *testing.T, n, code, base int) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%%d subscribers, code %%d: %%v", n, code, r)
		}
	}()
	pub := uax.NewRunePublisher()
	subs := []*sub{}
	for i := 0; i < n; i++ {
		s := &sub{life: 1 + code%%base, pen: []int{0, i}}
		code /= base
		subs = append(subs, s)
		pub.SubscribeMe(s)
	}
	for ev := 1; ev <= base+1; ev++ {
		want, far, acc := 0, 0, false
		for i, s := range subs {
			if s.life == ev {
				want, acc = want+i, true
			} else if s.life > ev {
				far = ev
			}
		}
		longest, pen := pub.PublishRuneEvent('a', 1)
		if longest != far || acc && (len(pen) != 2 || pen[1] != want) || !acc && len(pen) > 0 {
			t.Errorf("%%d subscribers, event %%d: %%d %%v, should be %%d %%d", n, ev, longest, pen, far, want)
		}
		for i, s := range subs {
			if n := min(ev, s.life); s.n != n || s.uns == 1 != (s.life <= ev) {
				t.Errorf("subscriber %%d called %%d times in %%d events", i, s.n, ev)
			}
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var _ = fmt.Sprint

func TestZZDemo(t *testing.T) {
%s
}
'''
ALLLIVES = '''	for n := 1; n <= 5; n++ {
		for code := 0; code < 1024; code++ {
			lives(t, n, code, 4)
		}
	}'''
seed(id='N01-second-done-stays', property='N01', pkg='.', needs='more than twelve subscribers getting done with the same event',
     breaks='at most twelve subscribers are taken out of the queue per event',
     edits=[('automata.go', '''	for subscr := rpub.PopDone(); subscr != nil; subscr = rpub.PopDone() {
		subscr.Unsubscribed()
	}''', '''	for n := 0; n < 12; n++ {
		if subscr := rpub.PopDone(); subscr != nil {
			subscr.Unsubscribed()
		}
	}''')], demo=PUB % '''	for n := 1; n <= 20; n++ {
		lives(t, n, 0, 4)
	}''')
seed(id='N01-longest-of-done', property='N01', pkg='.', needs='a subscriber which aborts without resetting its match, or accepts a match longer than all active ones',
     breaks='the longest match includes those of recognizers which have just accepted more than two characters',
     edits=[('automata.go', 'if !subscr.Done() { // compare', 'if !subscr.Done() || subscr.MatchLength() > 2 { // compare')],
     demo=PUB % ALLLIVES)
seed(id='N01-swap-below-top', property='N01', pkg='.', needs='more than twelve subscribers, nobody done yet in an event, then the last but one subscriber in the queue gets done',
     breaks='the subscriber next to the top is not moved up when it is done',
     edits=[('prioq.go', '} else if i < pq.Len()-1 { // gap', '} else if i < pq.Len()-2 || pq.Len() <= 12 && i < pq.Len()-1 { // gap')],
     demo=PUB % '''	for n := 1; n <= 16; n++ {
		for code := 0; code < 1<<16; code += 7 {
			lives(t, n, code, 2)
		}
	}''')
seed(id='N01-sum-of-first-three', property='N01', pkg='.', needs='two subscribers accepting with the same event, reporting more than three penalties',
     breaks='penalties from the fourth one on are not summed up but overwritten',
     edits=[('automata.go', '				rpub.penaltiesTotal[j] += p\n', '''				if j > 2 {
					rpub.penaltiesTotal[j] = p
				} else {
					rpub.penaltiesTotal[j] = rpub.penaltiesTotal[j] + p
				}
''')], demo=PUB % '''	pub := uax.NewRunePublisher()
	pub.SubscribeMe(&sub{life: 1, pen: []int{1, 2, 3, 4, 5}})
	pub.SubscribeMe(&sub{life: 1, pen: []int{1, 2, 3, 4, 5}})
	if _, p := pub.PublishRuneEvent('a', 1); fmt.Sprint(p) != "[2 4 6 8 10]" {
		t.Error(p)
	}''')
REC = '''	accept := func(rec *uax.Recognizer, r rune, c int) uax.NfaStateFn { return uax.DoAccept(rec, 1, 2, 3) }
	match := func(rec *uax.Recognizer, r rune, c int) uax.NfaStateFn { rec.MatchLen++; return nil }
	var _, _ uax.NfaStateFn = accept, match
'''
seed(id='N02-stale-penalties', property='N02', pkg='.', needs='a recognizer that has accepted and is recycled for a rule which ends without penalties',
     breaks='penalties are not cleared when a recognizer is recycled',
     edits=[('automata.go', '	rec.penalties = nil\n', '')],
     demo=PUB % (REC + '''	for i := 0; i < 100; i++ {
		rec := uax.NewPooledRecognizer(1, accept)
		rec.RuneEvent('a', 1)
		rec.Unsubscribed()
		rec = uax.NewPooledRecognizer(1, match)
		if p := rec.RuneEvent('a', 1); len(p) > 0 {
			t.Fatal(p)
		}
		rec.Unsubscribed()
	}'''))
CLR = '''	rec.MatchLen = 0
	rec.nextStep = nil
'''
RET = '	_ = globalRecognizerPool.opool.ReturnObject(globalRecognizerPool.ctx, rec)\n'
seed(id='N02-cleared-after-return', property='N02', pkg='.', flags='-race', needs='two goroutines, one of them borrowing a recognizer while another one is giving it back',
     breaks='a recognizer is given back to the pool before it is cleared',
     edits=[('automata.go', CLR + RET, RET + CLR)],
     demo=PUB % (REC + '''	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20000; j++ {
				rec := uax.NewPooledRecognizer(1, match)
				if p := rec.RuneEvent('a', 1); rec.MatchLength() != 1 || !rec.Done() {
					t.Error(p)
					return
				}
				rec.Unsubscribed()
			}
		}()
	}
	wg.Wait()'''))
seed(id='N02-one-kept-aside', property='N02', pkg='.', flags='-race', needs='several goroutines using recognizers at the same time',
     breaks='the most recently released recognizer is kept aside of the pool, without a lock',
     edits=[('automata.go', RET, '''	if lastReleased == nil {
		lastReleased = rec
		return
	}
''' + RET), ('automata.go', '	o, _ := globalRecognizerPool.opool.Borrow', '''	if rec := lastReleased; rec != nil {
		lastReleased = nil
		rec.Expect = cpClass
		rec.nextStep = stateFn
		return rec
	}
	o, _ := globalRecognizerPool.opool.Borrow'''),
            ('automata.go', 'var globalRecognizerPool *recognizerPool\n', 'var (\n	globalRecognizerPool *recognizerPool\n	lastReleased         *Recognizer // fast path\n)\n')],
     demo=PUB % (REC + '''	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20000; j++ {
				rec := uax.NewPooledRecognizer(1, match)
				if p := rec.RuneEvent('a', 1); rec.MatchLength() != 1 || !rec.Done() {
					t.Error(p)
					return
				}
				rec.Unsubscribed()
			}
		}()
	}
	wg.Wait()'''))
CONC = '''
package %(pkg)s_test

import (
	"strings"
	"sync"
	"testing"

	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
)

var _ = grapheme.NewBreaker
var _ = uax29.NewWordBreaker
var _ sync.WaitGroup

func all(s *segment.Segmenter) string {
	l := []string{}
	for s.Next() {
		l = append(l, s.Text())
	}
	return strings.Join(l, "|")
}

func TestZZDemo(t *testing.T) {
%(body)s
}
'''
seed(id='S05-shared-blocks', property='S05', pkg='segment', needs='two grapheme segmenters used in turn, one of them in the middle of a pair of regional indicators',
     breaks='which rules are blocked is kept for all grapheme breakers together',
     edits=[('grapheme/grapheme.go', '	gb.blocked = make(map[GraphemeClass]bool)\n', '	gb.blocked = blockedClasses\n'),
            ('grapheme/grapheme.go', '// NewBreaker creates', '// classes no rules are started for\nvar blockedClasses = make(map[GraphemeClass]bool)\n\n// NewBreaker creates')],
     demo=CONC % dict(pkg='segment', body='''	grapheme.SetupGraphemeClasses()
	a, b := segment.NewSegmenter(grapheme.NewBreaker(1)), segment.NewSegmenter(grapheme.NewBreaker(1))
	flags := "\\U0001F1E6\\U0001F1E7\\U0001F1E8\\U0001F1E9"
	for i := 0; i < 3; i++ {
		a.Init(strings.NewReader("ab" + flags))
		for j := 0; j <= i; j++ {
			a.Next()
		}
		b.Init(strings.NewReader(flags))
		if g := all(b); g != flags[:8]+"|"+flags[8:] {
			t.Errorf("%+q", g)
		}
	}'''))
seed(id='S05-emoji-flag', property='S05', pkg='uax29', flags='-race', needs='first use from several goroutines: one of them goes on while another one is still filling the table',
     breaks='the emoji classes are marked as set up before they are',
     edits=[('emoji/emoji.go', 'var setupOnce sync.Once', 'var setupStarted int32'), ('emoji/emoji.go', '	"sync"\n', '	"sync/atomic"\n'),
            ('emoji/emoji.go', '	setupOnce.Do(setupEmojisClasses)\n', '	if atomic.CompareAndSwapInt32(&setupStarted, 0, 1) {\n		setupEmojisClasses()\n	}\n')],
     demo=CONC % dict(pkg='uax29', body='''	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := segment.NewSegmenter(uax29.NewWordBreaker(1))
			s.Init(strings.NewReader("a\\u200d\\u2764b"))
			if g := all(s); g != "a\\u200d\\u2764|b" {
				t.Errorf("%+q", g)
			}
		}()
	}
	wg.Wait()'''))
seed(id='S05-shared-sum', property='S05', pkg='uax29', flags='-race', needs='two segmenters used at the same time',
     breaks='penalties are summed up in a buffer shared by all publishers',
     edits=[('automata.go', '		rpub.penaltiesTotal = make([]int, 1024)', '		rpub.penaltiesTotal = penaltiesBuffer[:]'),
            ('automata.go', '// PublishRuneEvent triggers a rune', '// penalties are handed out just until the next event\nvar penaltiesBuffer [1024]int\n\n// PublishRuneEvent triggers a rune')],
     demo=CONC % dict(pkg='uax29', body='''	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				s := segment.NewSegmenter(uax29.NewWordBreaker(1))
				s.Init(strings.NewReader("ab cd\\u0308ef, gh"))
				if g := all(s); g != "ab| |cd\\u0308ef|,| |gh" {
					t.Errorf("%+q", g)
				}
			}
		}()
	}
	wg.Wait()'''))
STR = '''
package uax11_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/uax11"
	"golang.org/x/text/language"
)

var _ = uax.NewRunePublisher
var _ = grapheme.NewBreaker
var _ = uax11.Width
var _ = strings.Repeat
var _ = language.Make

func eq(t *testing.T, got, want interface{}) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Errorf("got %%v, should be %%v", got, want)
	}
}

func TestZZDemo(t *testing.T) {
%s
}
'''.replace('%%v', '%v')
def strs(body): return STR.replace('%s', body)
seed(id='F01-skips-two', property='F01', pkg='uax11', needs='an illegal start byte directly followed by a legal multi-byte character',
     breaks='behind an illegal start byte the byte that should have continued it is skipped, too',
     edits=[('uax.go', '		if utf8.RuneStart(s[i]) {\n', '		if utf8.RuneStart(s[i]) && (i == 0 || s[i-1] < 0xe0 || s[i] < utf8.RuneSelf) {\n')],
     demo=strs('''	for _, c := range []struct {
		s string
		i int
	}{{"\\xe2\\u00e9a", 1}, {"\\xe2\\x80a", 2}, {"\\xf0\\x9f\\u4e16", 2}, {"\\xf0\\u4e16", 1}} {
		i, _ := uax.PositionOfFirstLegalRune(c.s)
		eq(t, i, c.i)
	}'''))
seed(id='F01-replacement-char', property='F01', pkg='uax11', needs='the first legal character is U+FFFD itself, encoded legally',
     breaks='a legally encoded U+FFFD is taken for an illegal sequence',
     edits=[('uax.go', '		if utf8.RuneStart(s[i]) {\n', '		if utf8.RuneStart(s[i]) && !(i+2 < l && s[i:i+3] == "\\uFFFD") {\n')],
     demo=strs('''	i, _ := uax.PositionOfFirstLegalRune("\\x80\\ufffda")
	eq(t, i, 1)'''))
seed(id='G02-mid-limit', property='G02', pkg='uax11', needs='a text of exactly 255 bytes (and some more) with an element that ends there',
     breaks='texts of 255 and 256 bytes use the representation with one byte per offset',
     edits=[('grapheme/string.go', 'len(s) < math.MaxUint8 {', 'len(s) <= math.MaxUint8+1 {')],
     demo=strs('''	for n := 250; n < 260; n++ {
		g := grapheme.StringFromString(strings.Repeat("x", n))
		eq(t, g.Len(), n)
		got := ""
		func() {
			defer func() { recover() }()
			for i := 0; i < g.Len(); i++ {
				got += g.Nth(i)
			}
		}()
		eq(t, got, strings.Repeat("x", n))
	}'''))
seed(id='G02-capacity', property='G02', pkg='uax11', needs='a text of 512 or more bytes in which more than every second byte ends an element',
     breaks='offsets of long texts are kept in a buffer of fixed size that wraps around',
     edits=[('grapheme/string.go', '		gstr.breaks = append(gstr.breaks, uint16(br))\n', '''		if len(gstr.breaks) <= len(s)/2+128 { // most elements have more than one byte
			gstr.breaks = append(gstr.breaks, 0)
		}
		gstr.breaks[len(gstr.breaks)-1] = uint16(br)
''')],
     demo=strs('''	for _, s := range []string{"x", "世"} {
		for _, n := range []int{100, 255, 400, 1000} {
			g := grapheme.StringFromString(strings.Repeat(s, n))
			eq(t, g.Len(), n)
		}
	}'''))
seed(id='E01-ambiguous-before-mark', property='E01', pkg='uax11', needs='an ambiguous character with a combining mark behind it, measured in an East Asian context',
     breaks='a grapheme of more than one character is not wide unless its first character is wide by itself',
     edits=[('uax11/width.go', 'func resolveToWide(grphm []byte, cat width.Kind) width.Kind {\n	switch cat {\n', '''func resolveToWide(grphm []byte, cat width.Kind) width.Kind {
	if utf8.RuneCount(grphm) > 1 && cat == width.EastAsianAmbiguous {
		return width.EastAsianNarrow
	}
	switch cat {
''',), ('uax11/width.go', '	case width.Neutral, width.EastAsianAmbiguous, width.EastAsianWide, width.EastAsianFullwidth:', '	case width.EastAsianWide, width.EastAsianFullwidth, width.Neutral, width.EastAsianAmbiguous:')],
     demo=strs('''	eq(t, uax11.Width([]byte("\\u03b1"), uax11.EastAsianContext), 2)
	eq(t, uax11.Width([]byte("\\u03b1\\u0301"), uax11.EastAsianContext), 2)'''))
seed(id='E01-halfwidth', property='E01', pkg='uax11', needs='a halfwidth character (Katakana, Hangul, or a halfwidth symbol) in an East Asian context',
     breaks='in an East Asian context just narrow characters stay narrow, halfwidth ones become wide',
     edits=[('uax11/width.go', '''	case width.Neutral, width.EastAsianAmbiguous, width.EastAsianWide, width.EastAsianFullwidth:
		return width.EastAsianWide
	}
	return width.EastAsianNarrow''', '''	case width.EastAsianNarrow:
		return width.EastAsianNarrow
	}
	return width.EastAsianWide''')],
     demo=strs('''	eq(t, uax11.Width([]byte("\\uff71"), uax11.EastAsianContext), 1)'''))
seed(id='E01-string-context', property='E01', pkg='uax11', needs='StringWidth with a context which has not been used before and names an East Asian locale',
     breaks='measuring a string takes a fresh context for the Latin one',
     edits=[('uax11/width.go', '''	if context == nil {
		context = makeLatinContext()
	} else if context.resolve == nil {
		context = evaluateContext(context)
	}
	w := 0
''', '''	if context == nil || context.resolve == nil && !context.ForceEastAsian && context.Script.String() == "Zzzz" {
		context = makeLatinContext()
	} else if context.resolve == nil {
		context = evaluateContext(context)
	}
	w := 0
''')],
     demo=strs('''	g := grapheme.StringFromString("\\u03b1b")
	eq(t, uax11.StringWidth(g, &uax11.Context{Locale: "ja-JP"}), 3)'''))
seed(id='E02-nil-remembers', property='E02', pkg='uax11', needs='a measurement with an own context between two measurements without a context',
     breaks='without a context the one used most recently is taken',
     edits=[('uax11/width.go', '''	if context == nil {
		context = makeLatinContext()
	} else if context.resolve == nil {
		context = evaluateContext(context)
	}
	return graphemeWidth(grphm, context)''', '''	if context == nil {
		context = recent
	} else if context.resolve == nil {
		context = evaluateContext(context)
		recent = context
	}
	return graphemeWidth(grphm, context)'''), ('uax11/width.go', '''// StringWidth calculates''', '''var recent = makeLatinContext()

// StringWidth calculates''')],
     demo=strs('''	eq(t, uax11.Width([]byte("\\u03b1"), nil), 1)
	eq(t, uax11.Width([]byte("\\u03b1"), &uax11.Context{Locale: "ja"}), 2)
	eq(t, uax11.Width([]byte("\\u03b1"), nil), 1)'''))
seed(id='E02-script-first', property='E02', pkg='uax11', needs='a context with an East Asian locale and the Latin script',
     breaks='a known script which is not East Asian decides, whatever the locale is',
     edits=[('uax11/width.go', '	_, _, confidence := eaMatch.Match(lang)\n	if confidence == language.No {', '''	_, _, confidence := eaMatch.Match(lang)
	if confidence == language.No || scrcode == "Latn" && confidence < language.Exact || scrcode == "Cyrl" {''')],
     demo=strs('''	latn, cyrl := language.MustParseScript("Latn"), language.MustParseScript("Cyrl")
	eq(t, uax11.Width([]byte("\\u03b1"), &uax11.Context{Locale: "mn-MN"}), 2)
	eq(t, uax11.Width([]byte("\\u03b1"), &uax11.Context{Locale: "zh-TW", Script: latn}), 2)
	eq(t, uax11.Width([]byte("\\u03b1"), &uax11.Context{Locale: "ja", Script: cyrl}), 2)'''))
seed(id='E02-match-cached', property='E02', pkg='uax11', needs='two contexts with different locales of the same language and script, used one after the other',
     breaks='whether a locale is East Asian is remembered per script',
     edits=[('uax11/width.go', '''	_, _, confidence := eaMatch.Match(lang)
	if confidence == language.No {''', '''	confidence, ok := matches[scrcode]
	if !ok {
		_, _, confidence = eaMatch.Match(lang)
		matches[scrcode] = confidence
	}
	if confidence == language.No {'''), ('uax11/width.go', '// A matcher for CJK', '// locales usually do not differ within a script\nvar matches = make(map[string]language.Confidence)\n\n// A matcher for CJK')],
     demo=strs('''	eq(t, uax11.Width([]byte("\\u03b1"), &uax11.Context{Locale: "de"}), 1)
	eq(t, uax11.Width([]byte("\\u03b1"), &uax11.Context{Locale: "vi"}), 2)'''))
# ---- tables of classes ----
def inpkg(pkg, body, imports=''):
    return '\npackage %s\n\nimport (\n\t"testing"\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n' % (pkg, imports, body)
seed(id='C01-stringer-of-classes', property='C01', pkg='uax29', needs='a rare letter (Georgian capital Ha of the old alphabet)',
     breaks='a letter is missing from the table of ALetter', edits=[('uax29/uax29classes.go', "'\\u10a3', ", "")],
     demo=inpkg('uax29', '''	NewWordBreaker(1)
	if c := ClassForRune(0x10a3); c != ALetterClass {
		t.Errorf("class is %s", c)
	}'''))
seed(id='C01-grapheme-ranges', property='C01', pkg='grapheme', needs='the first and the last Hangul syllable of type LVT, or a Hangul Jamo of the extended block',
     breaks='code points missing at both ends of a class',
     edits=[('grapheme/grapheme.go', '''		if urange != nil && unicode.Is(urange, r) {
			return c
		}
	}
	return Any''', '''		if urange != nil && unicode.Is(urange, r) {
			if c == LVTClass && (r-0xac00)%0x1c == 0x1b && r > 0xd790 {
				continue
			}
			return c
		}
	}
	return Any''')],
     demo=inpkg('grapheme', '''	SetupGraphemeClasses()
	if c := ClassForRune(0xd7a3); c != LVTClass {
		t.Errorf("class is %s", c)
	}'''))
seed(id='C01-emoji-order', property='C01', pkg='emoji', needs='the class of a code point that is an emoji and something else, or pictographic only',
     breaks='the loop over the classes ends before the last one',
     edits=[('emoji/emoji.go', 'c <= Extended_PictographicClass; c++', 'c < Extended_PictographicClass; c++')],
     demo=inpkg('emoji', '''	SetupEmojisClasses()
	if c := EmojisClassForRune(0x1f10d); c != Extended_PictographicClass {
		t.Errorf("class is %d", c)
	}'''))
TRIE = '''
	trie, _ := NewTinyHashTrie(139, 46)
	words := [][]byte{%s}
	pos := map[int]string{}
	for _, w := range words {
		trie.AllocPositionForWord(w)
	}
	trie.Freeze()
	for _, w := range words {
		p := trie.AllocPositionForWord(w)
		if p == 0 {
			t.Errorf("%%v is lost", w)
		} else if o, ok := pos[p]; ok {
			t.Errorf("%%v is found at the position of %%v", w, []byte(o))
		}
		pos[p] = string(w)
	}'''
TRIEALL = inpkg('trie', '''
	for seed := 1; seed < 3000; seed++ {
		s := uint32(seed)
		rnd := func(n int) int { s = s*1664525 + 1013904223; return int(s>>8) % n }
		trie, _ := NewTinyHashTrie(211, 24)
		words := map[string]bool{}
		func() {
			defer func() { recover() }()
			for i := 0; i < 30; i++ {
				w := make([]byte, 1+rnd(4))
				for j := range w {
					w[j] = byte(1 + rnd(20))
				}
				trie.AllocPositionForWord(w)
				for j := range w {
					words[string(w[:j+1])] = true
				}
			}
		}()
		if len(words) == 0 {
			continue
		}
		trie.Freeze()
		seen := map[int]string{}
		for w := range words {
			p := trie.AllocPositionForWord([]byte(w))
			if o, ok := seen[p]; ok || p == 0 {
				t.Fatalf("%v is lost or at the place of %v", []byte(w), []byte(o))
			}
			seen[p] = w
		}
	}''')
seed(id='T01-last-of-family', property='T01', pkg='bidi/trie', needs='a family of at least two children which is moved, with the place of the last one taken by somebody else',
     breaks='a new home of a family is not checked for its last child',
     edits=[('bidi/trie/hashtrie.go', '''		if trie.ch[r+delta] == empty {
			break // found a slot
		}''', '''		if trie.sibling[r] == trie.link[p] {
			break // found a slot
		}''')], demo=TRIEALL)
seed(id='T01-parent-of-moved', property='T01', pkg='bidi/trie', needs='a family moved twice: first its parent\'s, then its own',
     breaks='the link from the header of a family to its parent is not corrected in families of the fourth level',
     edits=[('bidi/trie/hashtrie.go', '''		if trie.link[r] != empty {
			trie.link[trie.link[r]] = r + delta
		}
		r = trie.sibling[r]''', '''		if trie.link[r] != empty && n < 3 {
			trie.link[trie.link[r]] = r + delta
		}
		r = trie.sibling[r]''')], demo=TRIEALL)
seed(id='T01-iterate-past-end', property='T01', pkg='bidi/trie', needs='an iterator that is moved on after it has reported that there is no such word',
     breaks='a finished iterator starts with the next word',
     edits=[('bidi/trie/hashtrie.go', '		ti.trie = nil // end of iteration\n', '		ti.n = 0 // end of iteration\n')],
     demo=inpkg('trie', '''
	trie, _ := NewTinyHashTrie(139, 46)
	trie.AllocPositionForWord([]byte{1, 2, 3})
	trie.Freeze()
	it := trie.Iterator()
	for i, c := range []int8{1, 2, 4, 1, 2, 3} {
		if p := it.Next(c); (p != 0) != (i < 2) {
			t.Errorf("%d: %d", i, p)
		}
	}'''))
UCDT = lambda cases: inpkg('ucdparse', '''
	for _, c := range []struct{ in, want string }{%s} {
		got := ""
		Parse(strings.NewReader(c.in), func(t *Token) {
			if a, b := t.Range(); b != 0 {
				got += fmt.Sprintf("%%X-%%X=%%s/%%s|", a, b, strings.TrimSpace(t.Field(1)), t.Comment)
			}
		})
		if got != c.want {
			t.Errorf("%%q: got %%s, expected %%s", c.in, got, c.want)
		}
	}''' % cases, '\t"fmt"\n\t"strings"\n')
seed(id='U01-digit-at-line-end', property='U01', pkg='internal/ucdparse', needs='a comment or a field with characters outside of ASCII in a line before another one',
     breaks='the rest of a line is cut by the number of characters, not bytes, read so far if it starts behind a range',
     edits=[('internal/ucdparse/linebuf.go', '''		s = string(buf.Lookahead) + buf.Text[buf.ByteCursor:buf.Line.Size()]''', '''		s = string(buf.Lookahead) + buf.Text[buf.Cursor:len([]rune(buf.Text))]''')],
     demo=UCDT('{"0041..0043;XX # \\u00e4\\u00f6 end\\n0044;YY\\n", "41-43=XX/\\u00e4\\u00f6 end|44-44=YY/|"}'))
seed(id='U01-comment-line', property='U01', pkg='internal/ucdparse', needs='a comment line that is indented by more than one character',
     breaks='comment lines which are indented are not ignored', edits=[('internal/ucdparse/linebuf.go', "`^\\s*#`", "`^\\s?#`")],
     demo=inpkg('ucdparse', '''
	n := 0
	Parse(strings.NewReader("0041;A\\n  # comment\\n0042;B\\n"), func(t *Token) {
		if t.Comment == "comment" {
			t.Error = nil
			n++
		}
	})
	if n != 0 {
		panic("comment reported as data")
	}''', '\t"strings"\n'))
seed(id='U01-lowercase-hex', property='U01', pkg='internal/ucdparse', needs='a code point written with a lower case f',
     breaks='the digit f is not known', edits=[('internal/ucdparse/scan.go', "(r >= 'a' && r <= 'f')", "(r >= 'a' && r < 'f')")],
     demo=UCDT('{"00fe..00ff ;A\\n", "FE-FF=A/|"}'))
# ---- break test files ----
seed(id='U03-null-character', property='U03', pkg='internal/ucdparse', needs='a test with the code point U+0000',
     breaks='the null character is taken for a word that is no number, and is dropped',
     edits=[('internal/ucdparse/testfiles.go', '''			n, _ := strconv.ParseUint(token, 16, 64)
''', '''			n, _ := strconv.ParseUint(token, 16, 64)
			if n == 0 {
				continue // not a number
			}
''')],
     demo=inpkg('ucdparse', '''
	in, out := BreakTestInput("÷ 0041 × 0000 ÷ 0042 ÷")
	if in != "A\\x00B" || len(out) != 2 || out[0] != "A\\x00" {
		panic("wrong test")
	}'''))
seed(id='U03-planes', property='U03', pkg='internal/ucdparse', needs='a test with a code point behind the supplementary multilingual plane',
     breaks='code points from U+20000 on are cut to 17 bits in the segments, and in the input',
     edits=[('internal/ucdparse/testfiles.go', 'run.WriteRune(rune(n))\n', 'run.WriteRune(rune(n & 0x1ffff))\n'),
            ('internal/ucdparse/testfiles.go', 'inp.WriteRune(rune(n))\n', 'inp.WriteRune(rune(n & 0x1ffff))\n')],
     demo=inpkg('ucdparse', '''
	in, out := BreakTestInput("÷ 20000 ÷ E0020 ÷")
	if in != "\\U00020000\\U000E0020" || len(out) != 2 || out[0] != "\\U00020000" {
		panic("wrong test")
	}'''))
seed(id='U03-error-lost', property='U03', pkg='internal/ucdparse', needs='a test file with a line that is too long to be read, behind others',
     breaks='a file that cannot be read to its end looks complete if there were tests before',
     edits=[('internal/ucdparse/testfiles.go', '''	return tf.scanner.Err()
''', '''	if tf.text != "" {
		return nil
	}
	return tf.scanner.Err()
''')],
     demo=inpkg('ucdparse', '''
	dir, err := os.MkdirTemp("", "u03")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := dir + "/t.txt"
	if err := os.WriteFile(name, []byte("÷ 0041 ÷\\n÷ 0042 ÷ # "+strings.Repeat("x", 70000)+"\\n"), 0644); err != nil {
		panic(err)
	}
	tf := OpenTestFile(name, nil)
	defer tf.Close()
	for tf.Scan() {
	}
	if tf.Err() == nil {
		panic("no error")
	}''', '\t"os"\n\t"strings"\n'))
# ---- generators ----
seed(id='U02-preamble-prefix', property='U02', pkg='internal/tablegen', needs='a data file with two categories one of which is a prefix followed by the name of the other',
     breaks='categories named with blanks around are collected in tables of their own',
     edits=[('internal/tablegen/main.go', '''		t = strings.TrimSpace(t)
''', '''		t = strings.TrimLeft(t, " ")
''')],
     demo=inpkg('main', '''
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("0041..0043 ; A ; x\\n0045 ; A; y\\n"))
	}))
	out := t.TempDir() + "/out.go"
	b, err := exec.Command("go", "run", ".", "-u", srv.URL, "-o", out, "-p", "x").CombinedOutput()
	if err != nil {
		t.Fatal(string(b))
	}
	src, _ := os.ReadFile(out)
	if n := strings.Count(string(src), "&unicode.RangeTable"); n != 1 {
		t.Errorf("%d tables:\\n%s", n, src)
	}''', '\t"net/http"\n\t"net/http/httptest"\n\t"os"\n\t"os/exec"\n\t"strings"\n'))
seed(id='U02-index-wrap', property='U02', pkg='uax14/internal/generator', needs='the names of classes in the generated source behind the first line wrap',
     breaks='the names of classes are cut at wrong places in generated code',
     edits=[('uax14/internal/generator/generator.go', '''		total := 0
		for _, s := range str {
			l := len(s) + 5''', '''		total := uint8(0)
		for _, s := range str {
			l := uint8(len(s) + 5)''')],
     demo=inpkg('main', '''
	f := funcMap["startinxs"].(func([]string) string)
	want, total := []string{}, 0
	for _, n := range uax14classnames {
		total += len(n) + 5
		want = append(want, strconv.Itoa(total))
	}
	got := strings.FieldsFunc(f(uax14classnames), func(r rune) bool { return r < '0' || r > '9' })
	if strings.Join(got, " ") != strings.Join(want, " ") {
		t.Errorf("got  %v\\nwant %v", got, want)
	}''', '\t"strconv"\n\t"strings"\n'))
seed(id='U02-bracket-type', property='U02', pkg='bidi/internal/gen', needs='a bracket file with the type in upper case, or a closing bracket coming first',
     breaks='everything but closing brackets is taken as an opening bracket',
     edits=[('bidi/internal/gen/brackgen.go', 'typ != "o"', 'typ == "c"')],
     demo=inpkg('main', '''
	d := t.TempDir()
	os.WriteFile(d+"/BidiBrackets.txt", []byte("0028; 0029; o # (\\n0029; 0028; c # )\\n0030; 0031; n # none\\n"), 0666)
	os.Chdir(d)
	if n := len(readBrackets()); n != 1 {
		t.Errorf("%d pairs", n)
	}''', '\t"os"\n'))
# ---- shaping ----
seed(id='C02-joining-row', property='C02', pkg='shaping', needs='U+10D00 or another of the rare left-joining letters',
     breaks='a row missing', edits=[('shaping/arabictables.go', '		{0x10acd, 0x10acd, 1},\n', '')],
     demo=inpkg('shaping', '''	if !unicode.Is(ARAB_L, 0x10acd) {
		t.Error("10acd is not left-joining")
	}''', '\t"unicode"\n'))
seed(id='C02-latin-offset', property='C02', pkg='shaping', needs='the multiplication sign looked up with unicode.Is in a table of more than 18 entries, or the offset itself',
     breaks='the Latin offset is too large', edits=[('shaping/uisctables.go', '	LatinOffset: 3,\n', '	LatinOffset: 2,\n'), ('shaping/uisctables.go', '		{0x00a0, 0x00a0, 1},\n		{0x00d7, 0x00d7, 1},\n', '		{0x00a0, 0x00a0, 1},\n')],
     demo=inpkg('shaping', '''	if !unicode.Is(UISC_Consonant_Placeholder, 0xd7) {
		t.Error("00d7 is not a placeholder")
	}''', '\t"unicode"\n'))
# ---- line breaks ----
def lines(cases): return SEGTEST % dict(pkg='uax14', setup='', new='uax14.NewLineWrap()', cases=cases)
seed(id='L01-b2-spaces', property='L01', pkg='uax14', needs='two em dashes with two or more spaces in between',
     breaks='LB17 allows for one space only', edits=[('uax14/rules.go', '''	if c == SPClass {
		return finish_LB17
	}
	if c == B2Class {''', '''	if c == SPClass && rec.MatchLen < 2 {
		rec.MatchLen++
		return finish_LB17
	}
	if c == B2Class {''')],
     demo=lines('{"\\u2014  \\u2014", "\\u2014  \\u2014"}, {"\\u2014 \\u2014", "\\u2014 \\u2014"}'))
seed(id='L01-postfix-after-close', property='L01', pkg='uax14', needs='a number followed by two closing brackets and a percent sign',
     breaks='more than one closing bracket may end a number', edits=[('uax14/rules.go', '''	c := UAX14Class(cpClass)
	if c == PRClass || c == POClass {
		return uax.DoAccept(rec, ps(25, p(25), rec.MatchLen)...)
	}
	return uax.DoAccept(rec, ps(25, 0, rec.MatchLen)...)''', '''	c := UAX14Class(cpClass)
	if c == PRClass || c == POClass {
		return uax.DoAccept(rec, ps(25, p(25), rec.MatchLen)...)
	} else if c == CLClass {
		rec.MatchLen++
		return step5_LB25
	}
	return uax.DoAccept(rec, ps(25, 0, rec.MatchLen)...)''')],
     demo=lines('{"1)}%", "1)}|%"}, {"1)%", "1)%"}'))
seed(id='L01-glue-after-hyphen', property='L01', pkg='uax14', needs='a no-break space after a hyphen or a tabulator (LB12a)',
     breaks='the class in front of glue is taken from the rune\'s own event', edits=[('uax14/rules.go', 'if last == SPClass || last == BAClass || last == HYClass {', 'if last == SPClass || last == BAClass || last == HYClass && uax14.shadow == HYClass {')],
     demo=lines('{"a-\\u00a0b", "a-|\\u00a0b"}'))
seed(id='L01-ri-block', property='L01', pkg='uax14', needs='a single regional indicator symbol followed by a text without any, then by a flag',
     breaks='rules for regional indicators stay blocked after a lonely one', edits=[('uax14/rules.go', '''		lw.unblock()
		return uax.DoAccept(rec, 0, p(30))
	}
	lw.unblock()
	return uax.DoAbort(rec)''', '''		lw.unblock()
		return uax.DoAccept(rec, 0, p(30))
	}
	if c != SPClass {
		lw.unblock()
	}
	return uax.DoAbort(rec)''')],
     demo=lines('{"\\U0001f1e6 \\U0001f1e6\\U0001f1e7", "\\U0001f1e6 |\\U0001f1e6\\U0001f1e7"}'))
seed(id='L01-complex-context', property='L01', pkg='uax14', needs='a Thai or Khmer vowel sign that is a spacing mark (Mc)',
     breaks='spacing marks of class SA are letters', edits=[('uax14/uax14.go', '		if unicode.Is(unicode.Mn, r) || unicode.Is(unicode.Mc, r) {', '		if unicode.Is(unicode.Mn, r) {')],
     demo=lines('{"\\u4e00\\u17b6\\u4e01", "\\u4e00\\u17b6|\\u4e01"}, {"\\u4e00\\u17b6", "\\u4e00\\u17b6"}'))
seed(id='L01-em-dash-weight', property='L01', pkg='uax14', needs='a contingent break next to a character of two rules which suppress a break each',
     breaks='LB20 is overruled by the sum of weaker rules', edits=[('uax14/rules.go', 'return uax.DoAccept(rec, -p(20), -p(20))', 'return uax.DoAccept(rec, -p(20), -p(24))')],
     demo=lines('{"\\u00b4\\ufffca", "\\u00b4|\\ufffc|a"}'))
COMB = '''
package segment_test

import (
	"strings"
	"testing"

	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
)

func pieces(s *segment.Segmenter, text string) []string {
	l := []string{}
	s.Init(strings.NewReader(text))
	for s.Next() {
		l = append(l, s.Text())
	}
	return l
}

func TestZZDemo(t *testing.T) {
	grapheme.SetupGraphemeClasses()
	%s
}
'''
seed(id='S06-match-of-last', property='S06', pkg='segment', needs='a primary breaker with a match that is still active when the secondary breaker has none',
     breaks='the longest active match is that of the last breaker', edits=[('segment/segment.go', 'lam > s.longestActiveMatch {', 'lam > s.longestActiveMatch || breaker != s.breakers[0] {')],
     demo=COMB % '''s := segment.NewSegmenter(uax29.NewWordBreaker(1), grapheme.NewBreaker(1))
	s.Init(strings.NewReader("a.b"))
	s.Next()
	if p, _ := s.Penalties(); s.Text() != "a" || p < 10000 {
		t.Error(p, s.Text())
	}''')
seed(id='S06-dropped-per-breaker', property='S06', pkg='segment', needs='a secondary breaker with penalties for more characters than the primary one, for a position in front of a break of the primary one',
     breaks='penalties of secondary breakers reach back just as far as those of the primary breaker did', edits=[('segment/segment.go', '				s.insertPenalties(s.inxForBreaker(breaker), breaker.Penalties())', '''				p := breaker.Penalties()
				if breaker != s.breakers[0] {
					p = p[:min(len(p), max(3, len(s.breakers[0].Penalties())))]
				}
				s.insertPenalties(s.inxForBreaker(breaker), p)''')],
     demo=COMB % '''s := segment.NewSegmenter(segment.NewSimpleWordBreaker(), uax29.NewWordBreaker(1))
	if l := pieces(s, "a.\\u0301\\u0301b c"); strings.Join(l, "|") != "a.\\u0301\\u0301b| |c" {
		t.Errorf("%q", l)
	}''')
seed(id='S06-slot-not-cleared', property='S06', pkg='segment', needs='two breakers, and a text long enough for the queue to wrap around',
     breaks='an element of the queue keeps the secondary penalty of the character it held before', edits=[('segment/deque.go', 'q.buf[q.tail] = atom{r: r, penalty0: p0, penalty1: p1}', 'q.buf[q.tail].r, q.buf[q.tail].penalty0 = r, p0\n	q.buf[q.tail].penalty1 += p1'),
            ('segment/deque.go', '	q.buf[q.head] = atom{} // re-initialize atom\n	// Calculate new head position.', '	q.buf[q.head].r, q.buf[q.head].penalty0 = 0, 0\n	// Calculate new head position.')],
     demo=COMB % '''s := segment.NewSegmenter(grapheme.NewBreaker(1), uax29.NewWordBreaker(1))
	s.Init(strings.NewReader(strings.Repeat("aa(b)", 40)))
	for i := 0; s.Next(); i++ {
		if _, q := s.Penalties(); (q < 10000) != (i%5 != 0) {
			t.Error(i, s.Text(), q)
		}
	}''')
