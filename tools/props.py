#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand; both are committed)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

prop('B01', 'Bidi resolution always finishes and covers the text',
 'For every text, ill-formed UTF-8 included, bidi resolution returns, and so do reordering and splitting of its result; no input makes it panic or hang. The resolved level runs cover the text from its first to its last byte without gaps and overlaps, and the segments of the reordered runs cover every byte exactly once.',
 ['inputs', 'schedules'], 'all texts incl. unmatched isolate initiators and PDIs, nested isolates and brackets, ignorable characters; both base directions; any interleaving of scanner and parser',
 'The tests resolve some 40 hand-picked strings; unmatched and nested isolates in particular have next to unlimited combinations, and coverage of the text is not asserted.',
 ['bidi/scanner.go', 'bidi/resolver.go', 'bidi/reordering.go', 'bidi/scrap.go'],
 [('scanner goroutine posts scraps into a pipe, terminated by NULL', 'bidi/scanner.go Scan/stop'),
  ('parser reduces scraps, recursion for isolates', 'bidi/resolver.go pass1/parseIRS/applySubIRS/pass2'),
  ('flattening of nested scraps', 'bidi/reordering.go flatten/flattenIRS')],
 [('stack/sp', 'scraps read and not yet reduced', 'bidi/resolver.go parser'), ('IRStack', 'open isolates', 'bidi/scanner.go bidiScanner')],
 ['ResolveParagraph', 'ResolvedLevels.Reorder', 'ResolvedLevels.DirectionAt'])
prop('B02', 'Resolved bidi levels are those of UAX#9',
 'The direction resolved for every character of a paragraph is the one the rules of the Unicode Bidirectional Algorithm (X5a-X10, W1-W7, N0-N2, I1-I2) prescribe for it, for both paragraph directions.',
 ['inputs'], 'all sequences of bidi classes (strong, weak, neutral, brackets, balanced isolates, ignorables) and all nestings',
 'Rules interact (one rule\'s result is the next one\'s context); tests sample a few short strings, mostly one rule each, and none with nested isolates plus brackets plus numbers.',
 ['bidi/uaxrules.go', 'bidi/actions.go', 'bidi/scanner.go', 'bidi/resolver.go', 'bidi/brackets.go', 'bidi/bracketpairs.go', 'bidi/trie/hashtrie.go'],
 [('W1-W3 and embedding context while scanning', 'bidi/scanner.go applyRulesW1to3/inheritStrongTypes'),
  ('rewrite rules W4-N2 found through a hash trie', 'bidi/actions.go, bidi/resolver.go matchRulesLHS'),
  ('bracket pairs N0', 'bidi/brackets.go, bidi/resolver.go performRuleN0')], None,
 ['ResolvedLevels.DirectionAt'])
prop('B03', 'Reordering yields the visual order of UAX#9',
 'Reading the ordered runs of a resolved paragraph, each in its own direction, gives the characters in exactly the order rule L2 of the Unicode Bidirectional Algorithm prescribes for their levels, including numbers within right-to-left text and nested isolates.',
 ['inputs'], 'all sequences of bidi classes with balanced isolates, both paragraph directions',
 'Tests print the runs for a few strings; nested levels (numbers in R2L text in isolates in R2L text) are not reached.',
 ['bidi/reordering.go'], [('reverse runs of a level', 'bidi/reordering.go reorder/reverse'), ('flatten isolates', 'bidi/reordering.go flattenIRS')], None,
 ['ResolvedLevels.Reorder', 'Run.SegmentIterator'])
prop('B04', 'Splitting and querying resolved levels is exact and side-effect free',
 'Splitting resolved levels at any position yields two parts whose directions are those of the corresponding positions of the whole, counted from zero if asked to; splitting, reordering and querying may be repeated in any order and always answer as if they were the first operation.',
 ['inputs', 'histories'], 'all texts, all split positions (character boundaries), both settings of the shift, sequences of split / reorder / query operations',
 'Just one split position of one string is tested; aliasing between the parts shows only after a sequence of operations.',
 ['bidi/reordering.go'], [('split copies scraps', 'bidi/reordering.go Split/split/copyScraps'), ('shift to zero', 'bidi/reordering.go shiftzero')], None,
 ['ResolvedLevels.Split', 'ResolvedLevels.DirectionAt', 'ResolvedLevels.Reorder'])
prop('B05', 'Out-of-line bidi markup acts like inline isolates',
 'Isolating a part of the text by out-of-line markup resolves every character to the same direction and the same place in visual order as surrounding it with the corresponding isolate characters, wherever in the text the markup is placed.',
 ['inputs', 'configurations'], 'all texts, all balanced placements of markup incl. first and last position and nesting',
 'A single test places one isolate in the middle of a string.',
 ['bidi/scanner.go', 'bidi/resolver.go'], [('markup callback is queried for every position', 'bidi/scanner.go nextRune')], None,
 ['ResolveParagraph'])
prop('B06', 'Bidi resolution is deterministic and independent of concurrency',
 'Resolving a text gives the same result however its scanner and parser are scheduled, whatever chunks its reader delivers, and however many other paragraphs are being resolved at the same time; there is no data race and no goroutine is left behind.',
 ['schedules'], 'all schedules of scanner and parser, all chunkings of the input, parallel resolution of several paragraphs (incl. the very first ones, which set up shared tables)',
 'Tests resolve one paragraph after the other with a reader that delivers everything at once.',
 ['bidi/scanner.go', 'bidi/resolver.go', 'bidi/brackets.go'],
 [('pipe between scanner and parser', 'bidi/resolver.go ResolveParagraph/nextInputScrap'), ('shared rule trie set up once', 'bidi/resolver.go prepareRulesTrie'), ('bracket pairs guarded by a mutex', 'bidi/scanner.go')], None,
 ['ResolveParagraph'])
prop('N01', 'Rune publisher serves every active recognizer exactly once',
 'Every rune event reaches each recognizer that is subscribed and not done exactly once, and no recognizer that was done before; the penalties returned are the element-wise sum over all recognizers which accepted with this event, the distance is the longest match of those still active, and every recognizer that got done is signed off exactly once.',
 ['histories'], 'all sequences of subscriptions and rune events with recognizers of any lifetime, i.e. every order in which recognizers get done',
 'One test pushes a handful of recognizers in one order; the queue re-orders itself in place while it is being iterated.',
 ['automata.go', 'prioq.go'], [('iteration from the top of the queue with swaps', 'automata.go PublishRuneEvent'), ('gap between active and done subscribers', 'prioq.go Fix/bubbleUp/bubbleDown/PopDone')],
 [('q/gap', 'subscribers, active ones below gap', 'prioq.go DefaultRunePublisher')], ['PublishRuneEvent', 'SubscribeMe'])
prop('N02', 'Recognizers obey their life cycle and are recycled safely',
 'A recognizer reports penalties exactly with the event that completes an accepted match, none before and none with an abort, calls no state function after it is done, and an active recognizer is never in use by two owners: whatever is recycled through the pool, concurrently or not, behaves like a new one.',
 ['histories', 'schedules'], 'all runs of recognizers through shift, accept and abort, with recycling in any order and from several goroutines',
 'Recycling needs a history (a recognizer released with state and borrowed again), and several goroutines share the pool.',
 ['automata.go'], [('state functions', 'automata.go RuneEvent/DoAccept/DoAbort'), ('pool', 'automata.go NewPooledRecognizer/releaseIntoPool')], None,
 ['NewPooledRecognizer', 'Recognizer.RuneEvent'])
prop('S01', 'Segments put together are the text',
 'The segments a segmenter delivers, put together, are exactly the input text, nothing lost, duplicated or altered, in order and never empty, for any text and any length of segments up to the configured maximum; runes, bytes and text of a segment agree.',
 ['inputs', 'configurations'], 'all texts, all breakers whose penalties end with a break at the end of text, all lookaheads (incl. those which make the internal queue grow, wrap around and shrink)',
 'Tests use short ASCII texts; buffer growth, ring wrap-around and long lookahead are not reached together.',
 ['segment/segment.go', 'segment/deque.go'], [('queue of runes', 'segment/deque.go'), ('output buffer', 'segment/segment.go runewrite'), ('cut off front segment', 'segment/segment.go getFrontSegment')],
 [('deque', 'runes read and not delivered', 'segment/segment.go Segmenter')], ['Segmenter.Next', 'Segmenter.Text'])
prop('S02', 'Segments end exactly where the penalties say so',
 'A segmenter breaks after a character if and only if the penalty summed up over the reports of the primary breaker, or that of the secondary breakers taken together, allows it - zero counting as a break just where configured - and never before all active matches have passed the position; the penalties reported with a segment are those of its break.',
 ['inputs', 'configurations'], 'all sequences of penalty reports and match lengths of one to three breakers, all settings of break-on-zero',
 'Tests combine two real breakers on one sentence; penalties arriving late, summing up, or cancelling each other are not covered.',
 ['segment/segment.go'], [('distribution of penalties', 'segment/segment.go insertPenalties'), ('search up to the longest active match', 'segment/segment.go findBreakOpportunity/searchBreakOpportunity')], None,
 ['Segmenter.Next', 'Segmenter.Penalties'])
prop('S03', 'Bounded segmenting stops at the bound and resumes without loss',
 'Segmenting with a bound delivers the same segments as without, except that no segment extends past the bound: text before it that has no break of its own ends at the bound, and the segmenter stops there. Afterwards segmenting can be continued, with another bound or none, and the segments put together are the text.',
 ['inputs', 'histories'], 'all texts, all sequences of bounded and unbounded calls with rising bounds',
 'Tests use one text with two bounds and do not resume.',
 ['segment/segment.go'], [('bound in characters', 'segment/segment.go BoundedNext/findBreakOpportunity/getFrontSegment')], None,
 ['Segmenter.BoundedNext', 'Segmenter.Err'])
prop('S04', 'A segmenter can be reused, and errors surface exactly once',
 'After (re-)initialization a segmenter behaves like a new one on the new text, wherever it was left in the previous text and whatever error occurred; without an input source, with a failing reader or with a segment longer than the maximum it stops and reports an error, and at the regular end of the text it reports none.',
 ['histories', 'fault_sequences'], 'all positions at which a text is abandoned, reader errors at any position, all segment lengths around the maximum',
 'Tests re-use a segmenter only after it came to the end of a text; reader errors and over-long segments are not tested.',
 ['segment/segment.go', 'segment/simplewordbreak.go', 'uax29/uax29.go', 'grapheme/grapheme.go'], [('reset', 'segment/segment.go Init/init'), ('error handling', 'segment/segment.go setErr/next')], None,
 ['Segmenter.Init', 'Segmenter.InitFromSlice', 'Segmenter.Err'])
prop('S05', 'Independent segmenters do not influence each other',
 'Segmenters with breakers of their own may be used concurrently, from the very first use on: each delivers the segments it would deliver alone, without data races, although they share class tables and recycled recognizers.',
 ['schedules'], 'all interleavings of several segmenters (simple words, words, graphemes, lines, and pairs of them) incl. first-time initialization',
 'No test runs two segmenters at the same time.',
 ['automata.go', 'uax29/uax29.go', 'grapheme/grapheme.go', 'emoji/emoji.go'], [('global pool', 'automata.go'), ('sync.Once set-up', 'uax29/uax29.go SetupUAX29Classes')], None, ['Segmenter.Next'])
prop('S06', 'Breakers combined in a segmenter do not influence each other',
 'A segmenter with a primary and a secondary breaker ends a segment exactly where one of the two would alone - of word, grapheme, line and simple word breaker -, and the two penalties reported with a segment tell which of them does, and whether it is mandatory.',
 ['inputs', 'configurations'], 'all texts, all pairs of the breakers as primary and secondary one',
 'Breakers report penalties late and for different positions, and the segmenter has to wait for the longer match of the two; tests combine breakers in a few sentences, and look at the number of segments only.',
 ['segment/segment.go', 'segment/deque.go', 'segment/simplewordbreak.go', 'uax29/uax29.go', 'grapheme/grapheme.go', 'uax14/uax14.go'],
 [('penalties of every breaker are inserted into the queue', 'segment/segment.go readEnoughInputAndFindBreak/insertPenalties'), ('longest match of all breakers', 'segment/segment.go readEnoughInputAndFindBreak')], None, ['Segmenter.Next', 'Segmenter.Penalties'])
prop('W01', 'The simple word breaker splits at whitespace',
 'With the simple word breaker every maximal run of whitespace and every maximal run of other characters is one segment, with the documented penalty before and after whitespace.',
 ['inputs'], 'all texts over whitespace and non-whitespace of all Unicode whitespace characters, alone and as a secondary breaker',
 'Tests use ASCII blanks in short sentences.',
 ['segment/simplewordbreak.go'], [('runs', 'segment/simplewordbreak.go ProceedWithRune')], None, ['Segmenter.Next', 'Segmenter.Penalties'])
prop('W02', 'Word segments are those of UAX#29',
 'Segmenting with the word breaker breaks a text exactly at the word boundaries of UAX#29 (rules WB1-WB999), and breaks after hard line breaks are reported as mandatory.',
 ['inputs'], 'all sequences of word-break classes, any character of a class',
 'The official test file covers pairs of classes and few longer contexts; ignorable characters in the middle of three-part rules are not covered.',
 ['uax29/uax29.go', 'uax29/uax29classes.go'], [('one recognizer per rule', 'uax29/uax29.go rule_WB*'), ('blocking of regional indicators', 'uax29/uax29.go rule_WB15')], None, ['Segmenter.Next'])
prop('G01', 'Grapheme segments are those of UAX#29',
 'Segmenting with the grapheme breaker breaks a text exactly at the extended grapheme cluster boundaries of UAX#29 (rules GB1-GB999).',
 ['inputs'], 'all sequences of grapheme-break classes, any character of a class',
 'The official test file covers pairs of classes; the repository tolerates failures in it.',
 ['grapheme/grapheme.go', 'grapheme/graphemeclasses.go'], [('one recognizer per rule', 'grapheme/grapheme.go rule_GB*')], None, ['Segmenter.Next'])
prop('G02', 'A grapheme string indexes the graphemes of its text',
 'A grapheme string built from a Go string or bytes has as many elements as its legal text - from the first legal character up to the first illegal byte behind it - has grapheme clusters, element n is the n-th cluster in any order of access, and the elements put together are the legal text; the original string is returned unchanged, indices out of range and texts of more than 65534 bytes are refused.',
 ['inputs'], 'all texts incl. empty ones, illegal leading bytes, and lengths around the limits of the internal representations',
 'Tests use two short strings; offsets beyond one byte and illegal input are not covered.',
 ['grapheme/string.go'], [('short and mid strings', 'grapheme/string.go makeShortString/makeMidString')], None, ['StringFromString', 'Nth', 'Len'])
prop('E01', 'Display width follows East Asian width and context',
 'The width of a grapheme is 0, 1 or 2 as its first character demands: 2 for wide and fullwidth characters, emoji and keycap sequences, 2 or 1 for ambiguous and neutral characters depending on the context, 1 otherwise, 0 for empty, illegal or zero-width input; the width of a string is the sum over its graphemes.',
 ['inputs', 'configurations'], 'every code point of Unicode, all contexts, strings of graphemes',
 'Tests measure about 20 characters.',
 ['uax11/width.go'], [('classification', 'uax11/width.go graphemeWidth'), ('resolver per context', 'uax11/width.go resolveToNarrow/resolveToWide')], None, ['Width', 'StringWidth'])
prop('E02', 'East Asian context is derived from script and locale',
 'A context demands East Asian widths exactly if it is forced to, its script (completed from its locale, if none is given) is an East or South East Asian one, or its locale is that of such a language; the answer does not depend on what has been measured before, with this context, another one or none.',
 ['configurations', 'histories'], 'all combinations of force flag, script and locale; histories of uses',
 'Tests use three contexts.',
 ['uax11/width.go'], [('evaluation of partial contexts', 'uax11/width.go evaluateContext/findResolver')], None, ['Width', 'ContextFromEnvironment'])
prop('C01', 'Class tables are those of the Unicode Character Database',
 'Every code point is assigned the word-break class, grapheme-break class and emoji properties which the Unicode Character Database (version 11) lists for it, and a code point has one word-break and one grapheme-break class only; all others have the default classes.',
 ['inputs'], 'all code points assigned in Unicode 11',
 'Tests look up a handful of code points of 1.1 million.',
 ['uax29/uax29classes.go', 'grapheme/graphemeclasses.go', 'emoji/emojiclasses.go', 'emoji/emoji.go'], [('generated range tables', 'uax29/uax29classes.go, grapheme/graphemeclasses.go, emoji/emojiclasses.go')], None, ['ClassForRune', 'EmojisClassForRune'])
prop('T01', 'The hash trie tells exactly the stored words apart',
 'After a set of words has been stored, looking up any word arrives at a position if and only if it is a prefix of a stored word (single characters have a position always), and different prefixes have different positions, in whatever order the words were stored; words are refused only if the trie is crowded, and nothing stored is lost by that; a frozen trie is not changed by look-ups.',
 ['histories', 'inputs'], 'all sets of words up to a size, all orders of insertion (families being relocated), all look-ups',
 'Tests insert few words; relocation of families depends on the order of insertion.',
 ['bidi/trie/hashtrie.go'], [('first-child and family insertion with relocation', 'bidi/trie/hashtrie.go')], None, ['AllocPositionForWord', 'Iterator.Next'])
prop('F01', 'The first legal character of a byte sequence is found',
 'For any bytes, the position reported is that of the first byte which starts a valid UTF-8 encoding (a legally encoded U+FFFD included), together with the illegal bytes in front of it; if there is none, -1 is reported together with all the bytes.',
 ['inputs'], 'all byte sequences, i.e. all mixtures of valid, truncated and overlong encodings', 'Not tested for truncated or illegal sequences in all positions.',
 ['uax.go'], [('skip illegal bytes', 'uax.go PositionOfFirstLegalRune')], None, ['PositionOfFirstLegalRune'])
prop('U01', 'UCD files are parsed line by line, completely',
 'Parsing a Unicode Character Database file reports every data line exactly once and in order, with its code point range, trimmed fields and comment, whatever blank and comment lines are in between and whatever the line ends are (LF, CR LF, CR); an error of the reader or a line too long to be read ends parsing with an error, after all the lines before it have been reported.',
 ['inputs'], 'all sequences of data, range, blank and comment lines with any white space and line ends, reader errors at any position',
 'Tests parse three small excerpts.',
 ['internal/ucdparse/scan.go', 'internal/ucdparse/linebuf.go', 'internal/ucdparse/ucdparse.go'], [('scanner steps', 'internal/ucdparse/scan.go'), ('line buffer', 'internal/ucdparse/linebuf.go')], None, ['Parse'])
prop('U02', 'Table generators write exactly what their data files list',
 'A generator run on a Unicode data file writes tables in which every class (category, script, bracket pair, …) contains exactly the code points the file lists for it, as sorted ranges and with a Latin offset unicode.Is can search with, the first and the last range of each table included and U+0000 only if listed; a data file that cannot be obtained or read completely is an error, and no table is made of it.',
 ['inputs'], 'all data files: any set of code points and ranges per class, in any order, touching and separate ranges, 16 and 32 bit',
 'There are no tests of the generators; that generated tables look right where they are tested does not show what is missing from them.',
 ['internal/ucdparse/gentables.go', 'internal/tablegen/main.go', 'uax14/internal/generator/generator.go', 'uax29/internal/generator/generator.go', 'grapheme/internal/generator/generator.go', 'emoji/internal/generator/generator.go', 'bidi/internal/gen/brackgen.go'],
 [('collect ranges and print them', 'internal/ucdparse/gentables.go')], None, ['generated source files'])
prop('U03', 'Break test files are read line by line, completely',
 'Reading a break test file of the Unicode Character Database delivers every test exactly once and in order, each with its own text and comment, whatever blank and comment lines are in between; a file that cannot be read completely reports an error, after the tests before have been delivered; a test is split into all its code points and into the segments its boundary marks delimit.',
 ['inputs'], 'all sequences of tests with and without comments, blank and comment lines, and all divisions of any code points',
 'The conformance tests are driven by this reader and cannot notice tests that it skips, repeats or distorts.',
 ['internal/ucdparse/testfiles.go'], [('next test', 'internal/ucdparse/testfiles.go Scan'), ('split a test', 'internal/ucdparse/testfiles.go BreakTestInput')], None, ['OpenTestFile', 'Scan', 'Text', 'Comment', 'Err', 'BreakTestInput'])
prop('C02', 'Shaping tables are those of the Unicode data',
 'The tables of Arabic joining types and of Indic positional and syllabic categories list exactly the code points which have the joining type or category in Unicode 13, and are well-formed range tables (sorted, disjoint, correct Latin offset), so that unicode.Is finds all of them.',
 ['inputs'], 'all code points', 'There are no tests for the shaping tables.',
 ['shaping/arabictables.go', 'shaping/uipctables.go', 'shaping/uisctables.go'], [('range tables', 'shaping/')], None, ['unicode.Is'])
prop('L01', 'Line breaks are those of UAX#14',
 'Segmenting with the line breaker allows a break at exactly the line break opportunities of UAX#14 (Unicode 10, with the regular expression for numbers of its test file), and reports exactly those which are mandatory, the end of the text included, with a penalty of at most -10000; classes are resolved as in LB1, and combining marks never make a difference to the rules (LB9, LB10).',
 ['inputs', 'histories'], 'all sequences of line break classes; breakers new, used before, or taken away in the midst of a text', 'The package is not even built in this working copy, as its class table is generated and missing; the test file of UAX#14 consists of pairs of classes, nearly all of them.',
 ['uax14/uax14.go', 'uax14/rules.go'], [('one recognizer per rule, penalties add up', 'uax14/rules.go'), ('resolution and substitution of classes', 'uax14/uax14.go CodePointClassFor')], None, ['Segmenter.Next', 'Segmenter.Penalties'])

# ---------------------------------------------------------------------------------------------
TLA = 'explicit TLA+ specification, model checked with TLC; TLC judges behaviour recorded from the Go code'
CHECKS = {
 'W02': 'TLC checks two formulations of the word rules (declarative and left-to-right machine) against each other for all texts up to a bound over all 21 classes; every class sequence up to 3 (4) characters and seeded random longer ones are segmented by the real code and judged by the specification. Trusted: class representatives drawn from perl\'s Unicode data.',
 'B01': 'TLC judges, for every class sequence over 20 bidi classes up to length 3 (partial alphabets 4-6) and seeded random ones (unbalanced isolates, embeddings, paragraph ends, texts of 2000 characters), that the level runs and the segments of the reordered runs recorded from the real code cover the text exactly once; panics and hangs of resolve, split, reorder and query are violations.',
 'B02': 'UAX9.tla states rules X5a-X10, W1-W7, N0-N2, I1-I2 declaratively; TLC checks its own invariants (isolates act as neutrals, removed characters do not matter, brackets nest) and judges the direction of every character resolved by the real code, for all balanced class sequences up to length 3 (partial alphabets 4-6) and seeded random and structured ones, both paragraph directions.',
 'B03': 'As B02; rule L2 of the specification is applied to the specified levels and compared with the characters read run by run from the real ordering.',
 'B04': 'BidiOps.tla: parts of a paragraph as values. Random histories of split, reorder and query over a pool of parts, recorded from the real code, are judged step by step; in the end every part is queried again.',
 'B05': 'As B02 and B03, with isolates of the specified text given to the real code as out-of-line markup.',
 'B06': 'BidiPipe.tla models scanner and parser as processes (TLC: no deadlock, no process left behind, no bracket pair looked up before it is recorded, all schedules up to 5 scraps). The real code resolves many paragraphs at the same time under the race detector, with slow readers and varying GOMAXPROCS; every result is judged against UAX9.tla. Schedules of the real code are sampled, not enumerated.',
 'G01': 'As W02, for the grapheme rules: all class sequences up to 4 (5) characters and seeded random longer ones.',

 'S05': 'SetupMC.tla (tables set up once by the first user, shared by all) and RecPool.tla, model checked exhaustively for a few users. Many segmenters (simple words, words, graphemes, lines, pairs of these) are driven concurrently by the real code, step by step in random interleavings and in parallel under the race detector, in several processes from the very first use on; TLC judges every text against the rules of words, graphemes and white space. Schedules of the real code are sampled, not enumerated.',
 'F01': 'Utf8.tla states the well-formed encodings; TLC checks it against encoding of code points and the first legal position for all byte sequences over representatives up to 4 (5) bytes. All sequences over 25 special bytes up to 3 (4) and random mixtures of truncated, altered and legal encodings are given to the real code and judged.',
 'G02': 'GString.tla: strings as offsets, with the representation of short and long texts checked against the graphemes for all texts up to a bound. The real strings of all class sequences up to 3 (4), random texts with illegal bytes in front and behind, and texts around 255, 32766 and 65535 bytes are accessed in random order and judged.',
 'E01': 'EAWidth.tla over classes of characters and graphemes, sums checked against a scan from left to right by TLC. Every class in every grapheme class and random strings, in fresh and used contexts, are judged; likewise the width of every code point that Unicode decides on (data of perl), in all contexts.',
 'E02': 'EAContext.tla: force flag, script, locale and histories of uses; TLC checks that caching answers is invisible. Histories of contexts used by the real code in random order, and the predefined ones in parallel under the race detector, are judged.',
 'S01': 'Segmenter.tla: a queue of characters read and not delivered, penalties added after the fact, calls with and without bound. TLC explores all scripts of reports up to a bound, and checks that the ring buffer with growing and shrinking (SegRing.tla) refines it. Scripted and real breakers are run through the real segmenter (small, long and huge segments around buffer and maximum sizes); what they reported is recorded with the answers, and TLC judges every answer.',
 'S02': 'As S01, over scripts of one to three breakers with penalties arriving late, summing up and cancelling each other, and all settings of break-on-zero.',
 'S03': 'As S01, over histories of bounded and unbounded calls with rising bounds.',
 'S04': 'As S01, over segmenters left anywhere in texts, failing readers and small maximum sizes; in addition the answers are compared with those of a segmenter never used before.',
 'S06': 'As S02 for the model (two breakers in Segmenter.tla). All 12 pairs of real breakers segment pairs of all joint classes and random texts; what each of the two reports is judged against the rules of words, graphemes, lines and white space separately.',
 'W01': 'SimpleWord.tla: white space runs and their penalties, declaratively and as a machine (checked against each other by TLC); all class sequences up to a length and random texts of the real breaker are judged, and the class of every code point.',
 'N01': 'Publisher.tla states an event declaratively; PublisherQ.tla is the array with a gap that is re-ordered while it is being iterated, model checked exhaustively (3 and 4 subscribers, subscriptions in the middle of events, queue operations) for: everybody active is served exactly once, sums and distances, nobody lost, order kept. Random histories of the real publisher with scripted subscribers and recognizers are judged by TLC.',
 'N02': 'Recognizer.tla (life cycle) and RecPool.tla (recycling by several owners, field accesses not atomic), model checked exhaustively; random histories of real recognizers, sequentially and by 16 owners at the same time under the race detector, are judged by TLC; a recognizer borrowed twice is a violation.',

 'C01': 'ClassTables.tla: a look-up by search in range tables against the function the tables stand for, checked by TLC for all small tables (disjoint, sorted, look-ups total). The class of every code point is recorded from the real code as ranges, and judged against the ranges of the Unicode data (from perl and the UCD files in the repository); code points Unicode 11 does not decide on are left out.',
 'T01': 'Trie.tla states a trie as a set of words; TrieHash.tla is the hash table with families being relocated, model checked for all sets of words and orders of insertion over small alphabets and tables (3, 5, 7 slots). Random histories of insertions, look-ups and freezing of the real trie in several sizes are judged by TLC.',
 'L01': 'LineBreakRules.tla states LB2-LB31 declaratively, LineBreak.tla as a left-to-right machine with bounded memory; TLC checks that they agree for all texts up to 3 (4) over all 38 classes and up to 6 over those of numbers. The class table missing in the repository is generated with its generator and overlaid; all class pairs (triples), all sequences of 4 out of 15 classes, and random texts with marks and spaces are segmented by the real code and judged, as is the class of every code point.',
 'U02': 'RangeTable.tla states which tables stand for which sets of code points; a machine collecting ranges in file order is checked against it by TLC for all small inputs. The generators are built from the repository and run on random data files (dense, sparse, touching, 16/32 bit, incomplete downloads from a local server); TLC judges the tables in the files they write.',
 'C02': 'As C01, for the range tables of the shaping package: their ranges and Latin offsets are recorded from the real code and judged against the Unicode data and RangeTable.tla.',
 'U03': 'UcdTest.tla states the tests of a file, and input and segments of a test, on top of Ucd.tla; a reader of single characters is checked against that by TLC for all files of up to 6 (7) pieces. Files made of all short sequences of lines, random and large ones, with lines that are too long, and all divisions of up to 7 code points are read by the real code and judged.',
 'U01': 'Ucd.tla states the items of a text of lines; a left-to-right machine is checked against it by TLC for all texts up to a length over the significant characters. Generated files (all short line sequences, random longer ones, all line ends, huge lines, failing readers) are parsed by the real code and judged.',
}
NA = {}
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
         'hooks': {'guard': 'verif (none in use)', 'enable': 'no hooks: harnesses are compiled into the module through go build -overlay', 'source_commits': []},
         'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. Checks: python3 check.py <property> <tier>.'}
    for p in P:
        i = p['id']
        if i in CHECKS:
            m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                                'technique': TLA, 'level': 'model_checking', 'level_note': CHECKS[i]})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
main()
