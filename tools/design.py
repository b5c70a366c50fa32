# writes DESIGN.md
import json,glob,os
head = r'''# Verification of npillmayer/uax with TLA+

## 1 Language

**TLA+, checked with TLC.** Quint/Apalache was not chosen. The specifications are about sequences of
unbounded shape (texts, queues, run lists, tries), which TLC enumerates explicitly and fast and for
which symbolic checking stalls; the declarative operators of the Unicode rules (quantifiers over
positions) evaluate well in TLC; and the binding to the code needs `Json` and `IOUtils` of the
CommunityModules, so that one and the same module is model checked *and* used as the judge of what
the real code did. Types are the one thing missed.

## 2 Architecture

```
spec/X.tla        what a component does: state, transitions, declarative rules
spec/XMC.tla      the model: exhaustive exploration of X within bounds (X*.cfg), usually two
                  independent formulations checked against each other (declarative / machine)
spec/XTrace.tla   the judge: X applied to observations recorded from the real code (on Chunked.tla)
harness/x/        Go program compiled into the module; drives the real code, records observations
lib/checks.py     one function per property: models to check, inputs to drive, judges to apply
check.py          the entry point: check.py PROPERTY quick|thorough
data/             Unicode data (from perl's Unicode tables and hand-listed exceptions), independent
                  of the repository; tools/gen_data.py and tools/gen_data.pl write it
```

1. **Model.** Every component has a specification of its own, model checked exhaustively within small
   bounds. Two kinds of things are checked there: the properties themselves (nothing lost, everybody
   served once, no deadlock, no aliasing, ...), and agreement of two formulations, where the rules are
   declarative (a Unicode annex as it is written; and a left-to-right machine with bounded memory as
   the code has it). This catches wrong specifications, e.g. a rule transcribed wrongly.
2. **Drive.** A Go harness is compiled *into* the module with `go build -overlay` (nothing is written
   to /repo, no hooks are needed: the overlay lets a `main` package live under the module's path, so
   that internal packages may be imported). It drives the API of the real code with every input up
   to a bound, which are the behaviours TLC enumerates, and with seeded random longer ones
   (`VERIF_SEED`), and records what it observes: one JSON object per line.
3. **Judge.** TLC evaluates the specification on every single recorded observation
   (`Chunked.tla`: the file is dealt out to 8 workers in chunks, a violated observation is printed
   with its number). A check is an *error* (exit 2) unless TLC reports having judged every
   observation, and at least a minimum number (`min_obs`).

The direction is thus *trace checking*: traces of the real code are checked against the
specification, with the specification's own input space as the generator. It was preferred to replaying
TLC traces since most state machines here are functions of their input sequence: enumerating the
inputs *is* enumerating the behaviours, and no translation of states is needed. Where the order of
events is free (publisher, recycling, split/reorder histories), histories are recorded as
sequences of steps, and the judge steps the specification along them.

A verdict always comes from behaviour of the real code that the specification does not allow.
Panics, hangs and data races are violations as well: the harness notes down the input it is about
to work on; `vlib.run` recognizes a crash (Go stack dump naming code of the repository), a deadline
(`HANG` seconds without progress) and a race report, and writes the replay from this note.
Failures to compile the harness, missing observations, and a harness which fails by itself are errors,
never violations. Unexported names are avoided, since a refactoring may change them.
All harnesses use exported API only, except where noted (pub, trie).

Replays: `/verif/replay/<id>-*.json` hold the observation, the reason and the command.

### Determinism, cost

All random choices come from `VERIF_SEED`. Quick checks take 5 to 60 s each (about 10 min in total),
thorough ones up to 10 minutes. `/verif/evidence/<id>.json` is written by every run: states
and transitions of the models, number of observations judged, seeds, and bounds.

### No hooks

`/repo` has only `fix:` commits. Schedules of goroutines are influenced from outside: readers which
deliver slowly or in random chunks, tracers (the package's own tracing interface) that yield or sleep,
GOMAXPROCS, and many processes (first use). So interleavings of the *real code* are sampled; of the
*models* they are enumerated.

## 3 Properties

All properties are decided with the technique; `not_applicable` is empty.

'''
S=[]
def sec(id, spec, real, oracle, reach, limits=''):
    S.append((id, spec, real, oracle, reach, limits))
sec('B01','BidiCoverTrace: runs tile the text; UAX9MC checks that L2 of the specification is a permutation.',
 'All class sequences up to 3 over 21 classes, up to 4 (6) over 11 partial alphabets, random (structured, unbalanced isolates, legacy embeddings, paragraph ends), and texts up to 2000 characters, or with characters repeated up to 65540 times; readers which fail, or deliver nothing now and then: resolve, reorder, segments.',
 'level runs and segments cover every byte exactly once; no panic, no hang.',
 'unmatched and nested isolates combined with brackets and numbers; the parser is a rewriting system whose termination is not obvious.',
 'Illegal bytes are neutrals of one byte each.')
sec('B02','UAX9.tla states X5a-X10 (isolates incl. FSI), W1-W7, N0-N2 with BD16 and its limit of 63, the maximum depth of 125 levels, I1-I2, one operator per rule. UAX9MC: an isolate acts as a neutral to its outside; ignorable characters do not matter; a character may be repeated at will without changing anything else (StutterOk; by induction texts of any length are judged by short ones); isolates beyond the maximum depth are neutrals; pairs nest; levels within bounds; for all texts up to 3 (4) over 19 classes and up to 6 over isolates.',
 'As B01, with stray PDIs but without unclosed isolates; plus deep bracket nesting around the limit of 63 and isolates nested beyond 125 levels; plus texts with long runs of few classes, and texts some characters of which are repeated up to 65540 times (positions beyond 16 bits), all of them with one direction and in order; plus SWEEP: every bracket with every kind of partner and every neutral in a context in which its class shows. Characters of a class are drawn at random from all characters of that class.',
 'direction of every character and of every byte of it.',
 'rules are contexts for one another; the code finds them as rewrite rules with jumps in a trie, so that every rule may be missed in a particular context only.',
 'Directions are observable, levels are not. Unclosed isolates are treated differently by design (comment in scanner.go) and are excluded; legacy embeddings likewise (documented). Rule L1 is left to the client.')
sec('B03','as B02, with L2 on the specified levels.','as B02.','sequence of characters in visual order, read off run by run as documented by SegmentIterator (R2L paragraphs read from the right).','number runs within R2L runs within isolates.')
sec('B04','BidiOps.tla: parts of a paragraph are values; split makes two parts, reorder and query change nothing.',
 'Random histories (3 to 8, thorough 20 operations) over a pool of parts; every part is queried at the end.','every answer of every step.',
 'aliasing between parts shows only after a sequence of operations on both of them.')
sec('B05','as B02: the specified text has isolates, the real one markup.','all of B02\'s balanced texts which markup can express, incl. FSI characters closed by markup.','direction and visual order of every character.','placement at first/last/adjacent positions and combined markup.')
sec('B06','BidiPipe.tla: scanner and parser as processes with a channel and the mutex around bracket pairs. TLC: no deadlock, the scanner ends, no pair is looked up before it is recorded, for all schedules up to 5 scraps.',
 'Many paragraphs at the same time under the race detector, slow readers, noisy tracers, several processes (first use sets up the rule trie), and goroutine leak check in `alone` mode.',
 'every result is judged against UAX9.tla; races; goroutines left.','schedules.', 'Schedules of the real code are sampled.')
sec('N01','Publisher.tla (an event: who is served, sums, distance); PublisherQ.tla (the array with a gap reordered during iteration). TLC: PublisherQ refines Publisher for 3/4 subscribers, all lifetimes, subscriptions in the middle of an event.',
 'Random histories with scripted subscribers; the queue by itself.','who was called, how often, penalties, distance, sign-offs, order of queue.','order in which recognizers get done decides which are moved.',
 'Penalties of a recognizer that was done before are not asked for; one subscribing during an event takes part from the next one on.')
sec('N02','Recognizer.tla (life cycle), RecPool.tla (pool used by several owners, field accesses not atomic). TLC: no recognizer has two owners, a fresh one is clean.',
 'Random life cycles; 16 owners in parallel under the race detector.','penalties with each event, state function calls, identity of recognizers borrowed, fields when borrowed.','recycling makes a mistake show up in another, later user.')
sec('S01','Segmenter.tla: queue of runes read and not delivered, penalties added after the fact; SegRing.tla: ring buffer with growing/shrinking refines a sequence (TLC).',
 'Scripted breakers (any reports, any match length), real breakers; small, long and huge segments around the sizes of buffers.','segments concatenated, runes/bytes/text agreement, never empty.','buffer wrap-around depends on history of growth and position.')
sec('S02','as S01; SegmenterMC explores all scripts of reports up to a bound and checks: break iff the penalties say so, never before an active match ends.','scripts of 1-3 breakers, late penalties, sums, cancellation, BreakOnZero settings.','segment ends and penalties of each segment.','penalties arrive late and from several breakers.',
 'Whether a secondary breaker\'s longer match delays delivery has no influence on the segments, and is not judged.')
sec('S03','as S02 with BoundedNext.','histories of bounded/unbounded calls with rising bounds.','segments, positions, end-of-text vs. bound.','position of the bound relative to active matches.')
sec('S04','as S01 with Init and errors.','segmenters left anywhere in a text (mid-match, at error, at bound), failing readers, small maximum sizes, several re-initializations.','answers equal those of a new segmenter, Err() as specified.','state left behind in breakers, publisher, queue.')
sec('S05','Setup.tla (lazy set-up by the first user) and RecPool.tla.','segmenters with word, grapheme, simple and line breakers driven step by step interleaved and in parallel (race detector), many processes.','every text is judged against its rules (W02/G01/W01/L01); races.','schedules; first use.')
sec('S06','as S02: Segmenter.tla with two breakers.','all 12 pairs of real breakers; pairs of all joint classes (sampled in quick), random texts of characters found in all class tables.','what each breaker reports, told apart by the two penalties, against the rules of W02/G01/L01/W01.','the longer match of the two must be waited for; late penalties.','Three or more breakers: the penalties of secondary ones are summed up by design and cannot be told apart; scripts (S02) cover them.')
sec('W01','SimpleWord.tla: runs of white space, two formulations.','all class sequences up to 11 (15), random texts, class of every code point.','segments, penalties.','long runs and borders of the white space class.')
sec('W02','WordBreakRules.tla (WB1-WB999 declaratively, Unicode 11), WordBreak.tla (left-to-right machine), equal for all texts up to the bound over all 21 classes.',
 'all class sequences up to 3 (4) over representatives, random longer ones; any character of a class.','break positions; mandatory breaks.','context rules over ignorable characters of unbounded number.',
 'Statement on mandatory breaks: breaks reported as mandatory are after hard breaks (AfterHard is contained in h, h contained in HardBreaks).')
sec('G01','GraphemeRules.tla, Grapheme.tla likewise.','all class sequences up to 4 (5) and random.','break positions.','regional indicators parity, emoji ZWJ sequences.','U+FFFD is Control, as pinned by the existing tests.')
sec('G02','GString.tla: representation of short and long texts against the graphemes.','class sequences up to 3 (4), illegal bytes in front and behind, lengths around 255/32766/65535, random order of access.','Len, Nth, String, refusals.','limits of the representations times access order.')
sec('E01','EAWidth.tla over classes of characters; sum over graphemes against a left-to-right scan.','every class in every grapheme class, strings, fresh and used contexts; width of every code point Unicode decides on.','widths.','all code points, history of contexts.',
 'x/text lists U+1F93B, U+1F946 and noncharacters as wide: excluded. FE0F, 20E3 and tags by themselves are unspecified.')
sec('E02','EAContext.tla; caching is invisible (TLC).','histories of contexts in random order, predefined ones in parallel.','answer of each use.','order of uses.')
sec('F01','Utf8.tla: well-formed encodings; against encoding of code points for all byte sequences up to 4 (5).','all sequences up to 3 (4) over 25 special bytes, random mixtures.','position and illegal prefix.','combinations of truncated and illegal encodings.')
sec('C01','ClassTables.tla; search in ranges against the function.','class of every code point, as ranges.','data of Unicode 11 (from perl\'s and the UCD data at hand).','all of 0x110000 code points.','code points that later versions changed are left out (`free`).')
sec('C02','RangeTable.tla: which tables stand for which sets, binary search incl. Latin offset.','every table of package shaping, all code points.','Unicode 13 data, joining types T/U hand-listed.','all code points.','code points changed since (1734, 953, 954, A926-A92A, AFB, 1B03, 1B81, A982) are left out.')
sec('L01','LineBreakRules.tla (LB2-LB31 with the number tailoring of the test file), LineBreak.tla (machine), equal for all texts up to 3 (4) over 38 classes and 6 over classes of numbers.',
 'all pairs (triples) of classes, sequences of 4 over partial alphabets, random with marks and spaces; class of every code point. The class table is not part of the repository; it is generated by the repository\'s generator from data/lb.txt and overlaid.',
 'opportunities and mandatory breaks.','rules overrule each other through sums of penalties; marks and spaces of unbounded number.','Unicode 10 rules. NUL excluded (class eot).')
sec('T01','Trie.tla (set of words), TrieHash.tla (hash table with families being relocated), refinement for all word sets over small alphabets and tables.','random histories of insert/lookup/freeze in tries of several sizes.','every answer.','relocation depends on the order of insertion.')
sec('U01','Ucd.tla: items of a text of lines; against a machine.','all short sequences of lines, random ones, all line ends, huge lines, failing readers.','all items, final error.','combinations of line forms and ends.')
sec('U03','UcdTest.tla: tests of a file, parts of a test; against a machine reading characters.','all short sequences of lines, random and large files, over-long lines, all divisions of up to 7 code points.','texts and comments (white space around them aside), error, input and segments.','the conformance tests rely on this reader.','Judged for well-formed tests; surrogates excluded (no part of a string); behind an error there is no promise.')
sec('U02','RangeTable.tla; a collecting machine against it.','generators built and run on random data files; downloads from a local server, incomplete, too.','tables in the generated file are parsed and judged.','generators have no tests at all.','Surrogates are excluded (written by %q).')
head2 = r'''
## 4 Genuine defects found

`known-findings.txt` lists them with their commits: 53 repairs (one `fix:` commit each, the 57
stable tests pass with each of them), no open finding. The heaviest ones: bidi lost text of isolates
and resolved numbers, brackets and R2L paragraphs wrongly; hung or panicked for unmatched isolates,
empty paragraphs and FSI; splitting levels changed the whole; the segmenter truncated long segments,
kept errors and breaker state over Init, and BoundedNext lost text; recycled recognizers carried user
data of former owners; data races in the set-up of breakers; the trie-driven UAX#14 rules for
numbers, ZWJ, Hebrew letters and regional indicators; generated tables lacked their last range.

## 5 False alarms met and corrected

- W02, mandatory breaks: the first statement demanded equality with HardBreaks; the breaker reports
  some of them only as plain breaks. Statement corrected to the inclusion above.
- S01, "whole segments": with an active match of a secondary breaker delivery may be delayed; judge corrected.
- N02, penalties of recognizers already done: publisher does not ask for them; statement corrected.
- C02, U+1734: changed in Unicode 14, data corrected.
- E01, U+1F93B: the data package lists it as wide; excluded.
- C02/C01: code points changed after the version the tables are of are excluded.

## 6 What the checks cannot see

- Timing or memory (leaks other than goroutines), and performance.
- Interleavings inside of Go statements beyond what the race detector sees.
- Inputs longer than the bounds combined with structure the generators do not produce.
- Data tables of golang.org/x/text: trusted as the classification bidi uses; SWEEP compares brackets and
  neutrals, which the package derives itself.
- The generator trusts representatives only in exhaustive parts; random parts draw any character
  of a class.

## 7 Planted bugs

`seeded/<id>/` (written by tools/mkseed.py from tools/seeds.py, each verified: builds, the
stable tests pass, demo fails with and passes without the patch). All of them are caught by the quick check of their
property:

'''
tail = r'''
## 8 How the checks themselves were tested

- *Mutants.* 8 % of all mutants of the code (operators, constants, conditions, deleted statements; 516 of
  them, drawn at random): 211 are killed by the stable tests, 167 by the quick checks, 17 do not yield a
  working generator (an error of the check, not a verdict), 121 survive. Survivors were read one by one:
  capacities, trace texts, dead code (parts of segment/deque.go, helpers in uax29.go), rule numbers used as
  tags, and counters nobody reads. Four gaps were found and closed (Run.IsOpposite, SegmentIterator.EOF, token
  types of the UCD parser, a script of East Asia), and with them two defects (section 4).
- *Coverage.* The harnesses of the quick checks execute 92 % of the statements of all packages. What is left
  is String methods, traces, dead code, panics on broken invariants, and the generators' fatal errors. Gaps found
  this way: Init(nil), RuneBuffer in use, long grapheme strings without legal characters, a segment asked for
  before the first one is read.
- *Edits that keep the behaviour.* A tool rewrote the whole repository at once (if/else inverted, loop
  conditions moved into bodies, comparisons swapped, 500 function bodies moved into helpers, comments dropped);
  the checks stay quiet on the outcome. Statements without effect and comments are tried by vcheck.
- *Seeds.* The quick checks are quiet for other values of VERIF_SEED, too, and the thorough ones on the
  unchanged tree; generators depend on the seed only.
'''
P={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
out=[head]
order=[i for i in P]
D={s[0]:s for s in S}
for i in order:
    assert i in D, i
    _,spec,real,oracle,reach,limits=D[i]
    out.append('### %s %s\n\n- *Specified:* %s\n- *Driven:* %s\n- *Judged:* %s\n- *Beyond tests:* %s\n'%(i,P[i]['title'],spec,real,oracle,reach))
    if limits: out.append('- *Limits:* %s\n'%limits)
    out.append('\n')
out.append(head2)
out.append('| bug | what it breaks |\n|---|---|\n')
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); out.append('| %s | %s |\n'%(os.path.basename(os.path.dirname(f)),m['what_it_breaks']))
out.append(tail)
open('/verif/DESIGN.md','w').write(''.join(out))
