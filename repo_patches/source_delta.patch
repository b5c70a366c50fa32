From df02ebd39434d989a37d21166e7826130ac1f2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 01/53] fix: bidi rules W7 and N1 return only the scraps they
 matched

The actions of W7 and of the mid-swap rules returned the complete remaining
stack as RHS, making the parser duplicate scraps or loop forever
(e.g. on R EN R EN).
---
 bidi/actions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index d22f252..89a3231 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -142,7 +142,7 @@ func ruleW7() (*bidiRule, []byte) {
 				L[0].bidiclz = bidi.L
 				return L, 0, true // replace EN with L, start again with L
 			}
-			return match, 1, true // step over EN
+			return match[:1], 1, true // step over EN
 		},
 	}, lhs
 }
@@ -322,7 +322,7 @@ func makeMidSwapRule(name string, lhs []byte, c bidi.Class, jmp int) *bidiRule {
 		pass:   2, // all mid-swap rules are Nx rules ⇒ pass 2
 		action: func(match []scrap) ([]scrap, int, bool) {
 			match[1].bidiclz = c // change class of middle interval
-			return match, jmp, false
+			return match[:len(lhs)], jmp, false
 		},
 	}
 }
-- 
2.43.0


From 56577481975405997e45abd3421e6b76e7f15262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 02/53] fix: bidi rules N1-3/4/5/8 keep the result of
 collapsing neutrals

The result of collapse() was discarded, losing the text position of the
collapsed scrap (N1-3/4) or leaving the neutral unresolved (N1-5/8).
---
 bidi/actions.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 89a3231..29ddfe5 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -187,9 +187,8 @@ func ruleN1_3() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.AN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -202,9 +201,8 @@ func ruleN1_4() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.EN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -217,7 +215,7 @@ func ruleN1_5() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -240,7 +238,7 @@ func ruleN1_8() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
-- 
2.43.0


From e8594d2e1d12b437ac20d8a5520bdb56bafd6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 03/53] fix: assign bidi rules to their final trie positions

Allocating a word may relocate a family of the hash trie, thus positions
returned early may become stale: rules N1-5, N1-6, N1-8 and N1-9 were never found.
---
 bidi/resolver.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 9bc664e..1ff4a14 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -553,6 +553,7 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 		r, lhs = ruleR()
 		allocRule(trie, r, lhs)
 		// ------------------------------
+		assignRules(trie)
 		trie.Freeze()
 		tracer().SetTraceLevel(tracelevel)
 		tracer().Debugf("--- freeze trie -------------")
@@ -564,9 +565,23 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 
 func allocRule(trie *trie.TinyHashTrie, rule *bidiRule, lhs []byte) {
 	tracer().Debugf("storing rule %s for LHS=%v", rule.name, lhs)
-	pointer := trie.AllocPositionForWord(lhs)
-	//T().Debugf("  -> %d", pointer)
-	rules[pointer] = rule
+	trie.AllocPositionForWord(lhs)
+	allocated = append(allocated, allocatedRule{rule, lhs})
+}
+
+// Allocating a word may relocate words already contained in the trie, thus positions
+// are stable only after all the words have been allocated.
+type allocatedRule struct {
+	rule *bidiRule
+	lhs  []byte
+}
+
+var allocated []allocatedRule
+
+func assignRules(trie *trie.TinyHashTrie) {
+	for _, a := range allocated {
+		rules[trie.AllocPositionForWord(a.lhs)] = a.rule
+	}
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 3101b36d917b08af802e3209574b5cbcf220f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 04/53] fix: start-of-sequence type of a R2L paragraph is R

---
 bidi/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index ca64101..146c85f 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -218,6 +218,7 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 	if sc.hasMode(optionOuterR2L) {
 		tracer().Infof("resolving paragraph with R2L embedding context")
 		current.context.SetEmbedding(bidi.RightToLeft)
+		current.context.strong = bidi.R // sos
 		if setIRS {
 			current.bidiclz = bidi.RLI
 		}
-- 
2.43.0


From 518b2f0ef07537277d54337a79bef088cd9bad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 05/53] fix: bidi scanner queries out-of-line markup at
 position 0

---
 bidi/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 146c85f..03b8fe6 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -48,6 +48,7 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.runeScanner.Split(bufio.ScanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
+	sc.lastMarkupPos = -1 // no position queried yet
 	sc.bd16 = makeBracketPairHandler(0, nil)
 	sc.IRS = make(map[charpos]*bracketPairHandler)
 	sc.IRS[0] = sc.bd16
-- 
2.43.0


From 02db1b94d9084622cf874be362960a17277fdf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 06/53] fix: bidi strong type contexts (W1, W2, W7) and bracket
 pairs (N0)

The scanner lost track of strong types in mixed runs (AL followed by EN, strong
types after an AL, after isolates, NSM at the start of a paragraph). N0 relied on
these contexts and was interleaved with N1/N2, misclassifying brackets; bracket
pairings were shared with the scanner without synchronization.
---
 bidi/brackets.go |  34 ++--------
 bidi/resolver.go | 168 +++++++++++++++++++++++++----------------------
 bidi/scanner.go  | 110 +++++++++++++------------------
 bidi/scrap.go    |  48 ++------------
 4 files changed, 143 insertions(+), 217 deletions(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 28bc499..a42171c 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -67,10 +67,9 @@ func isbracket(s scrap) bool {
 type bracketPairHandler struct {
 	stack    bracketStack        // stack to trace bracket nesting
 	pairings pairingsList        // result list of matching bracket pairings
-	mx       sync.Mutex          // guards pairings, as parser will access them, too
+	mx       sync.Mutex          // guards pairings and next, as parser will access them, too
 	next     *bracketPairHandler // handlers will be stacked for nested isolate runs
 	firstpos charpos             // text position of first character in isolating run sequence
-	lastpos  charpos             // text position of PDI
 }
 
 // This is the stack to perform the algorithm described above
@@ -95,6 +94,8 @@ func makeBracketPairHandler(first charpos, previous *bracketPairHandler) *bracke
 		firstpos: first,
 	}
 	if previous != nil {
+		previous.mx.Lock()
+		defer previous.mx.Unlock()
 		previous.next = h
 	}
 	return h
@@ -188,35 +189,10 @@ func (bph *bracketPairHandler) FindBracketPairing(s scrap) (pairing, bool) {
 	return pairing{}, false
 }
 
-// Rule N0 may change the bidi class of bracket scraps to a strong type.
-// The parser rule for N0 will call changeOpeningBracketClass in such
-// cases.
-func (bph *bracketPairHandler) changeOpeningBracketClass(s scrap) {
+func (bph *bracketPairHandler) nextHandler() *bracketPairHandler {
 	bph.mx.Lock()
 	defer bph.mx.Unlock()
-	for i, pair := range bph.pairings {
-		if pair.opening.l == s.l {
-			bph.pairings[i].opening.bidiclz = s.bidiclz
-		}
-	}
-}
-
-// UAX#9 rule W7 may change scraps of class EN to class L. However, the
-// matching of brackets further down the input may already have been stored
-// with a context. As soon as W7 pops up a new strong type L, those contexts
-// may be invalid. The parser will detect such situations and then call this
-// function to update the contexts of bracket pairs already found.
-func (bph *bracketPairHandler) UpdateClosingBrackets(s scrap) {
-	bph.mx.Lock()
-	defer bph.mx.Unlock()
-	for _, pair := range bph.pairings {
-		if s.l < pair.opening.l {
-			pair.opening.context.SetStrongType(s.bidiclz, s.l)
-		}
-		if s.l < pair.closing.l {
-			pair.closing.context.SetStrongType(s.bidiclz, s.l)
-		}
-	}
+	return bph.next
 }
 
 func (bph *bracketPairHandler) dump() {
diff --git a/bidi/resolver.go b/bidi/resolver.go
index 1ff4a14..ff1a177 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -215,12 +215,8 @@ func (p *parser) pass1(startIRS int) bool {
 			}
 		}
 		tracer().Debugf("applying UAX#9 rule %s", rule.name)
-		rhs, jmp, newL := rule.action(p.stack[p.sp:len(p.stack)])
+		rhs, jmp, _ := rule.action(p.stack[p.sp:len(p.stack)])
 		p.reduce(rule.lhsLen, rhs, startIRS)
-		if newL {
-			bd16 := p.sc.findBD16ForPos(p.stack[p.sp].l)
-			bd16.UpdateClosingBrackets(p.stack[p.sp])
-		}
 		p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
 		walk = false
 	}
@@ -261,16 +257,11 @@ func (p *parser) applySubIRS(startIRS int) int {
 // there should be only a single scrap on the stack with bidi class L.
 //
 func (p *parser) pass2(startIRS int) {
+	p.performRuleN0(startIRS)
 	p.sp = startIRS
 	for !p.passed(bidi.PDI) && p.sp < len(p.stack) {
 		e := min(len(p.stack), p.sp+3)
 		tracer().Debugf("trying to match %v at %d", p.stack[p.sp:e], p.sp)
-		//if p.stack[p.sp].bidiclz == cBRACKC {
-		if isbracket(p.stack[p.sp]) {
-			jmp := p.performRuleN0()
-			p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
-			continue
-		}
 		rule, shortrule := p.matchRulesLHS(p.stack[p.sp:len(p.stack)], 2)
 		if rule == nil || rule.pass < 2 {
 			if shortrule == nil || shortrule.pass < 2 {
@@ -282,7 +273,7 @@ func (p *parser) pass2(startIRS int) {
 		tracer().Debugf("applying UAX#9 rule %s", rule.name)
 		rhs, jmp, _ := rule.action(p.stack[p.sp:len(p.stack)])
 		p.reduce(rule.lhsLen, rhs, startIRS)
-		p.sp = max(0, p.sp+jmp) // avoid jumping left of 0
+		p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
 	}
 }
 
@@ -329,6 +320,7 @@ func (p *parser) parseIRS(startIRS int) ([]scrap, int, int, bool) {
 			bidiclz:  cNI,
 			l:        p.stack[startIRS].l,
 			r:        p.stack[startIRS+runlen-1].r,
+			context:  p.stack[startIRS-1].context, // context of the enclosing sequence
 			children: [][]scrap{copyStackSegm(p.stack, startIRS, runlen)},
 		}
 		tracer().Debugf("bidi parser created NI-child %v", ni.children[0])
@@ -404,84 +396,104 @@ func (p *parser) matchRulesLHS(scraps []scrap, minlen int) (*bidiRule, *bidiRule
 //     order of the text positions of the opening paired brackets using the logic
 //     given below. Within this scope, bidirectional types EN and AN are treated as R.
 //
-func (p *parser) performRuleN0() (jmp int) {
-	tracer().Debugf("applying UAX#9 rule N0 (bracket pairs) with %s", p.stack[p.sp])
-	jmp = 1 // default is to walk over the bracket
-	if p.stack[p.sp].bidiclz == cBRACKO {
-		// Identify the bracket pairs in the current isolating run sequence according to BD16.
-		openBr := p.stack[p.sp]
-		closeBr, found := p.findCorrespondingBracket(openBr)
-		if !found {
-			tracer().Debugf("Did not find closing bracket for %s", openBr)
-			closeBr.bidiclz = cNI
-			return
-		}
-		tracer().Debugf("closing bracket for %s is %s", openBr, closeBr)
-		tracer().Debugf("closing bracket has context=%v", closeBr.context)
-		tracer().Debugf("closing bracket has match pos=%d", closeBr.context.matchPos)
-		// a. Inspect the bidirectional types of the characters enclosed within the
-		//    bracket pair.
-		if closeBr.HasEmbeddingMatchAfter(openBr) {
-			// b. If any strong type (either L or R) matching the embedding direction
-			//    is found, set the type for both brackets in the pair to match the
-			//    embedding direction.
-			openBr.bidiclz = openBr.context.embeddingDir
-			jmp = -2
-		} else if closeBr.HasOppositeAfter(openBr) {
-			// c. Otherwise, if there is a strong type it must be opposite the embedding
-			//    direction. Therefore, test for an established context with a preceding
-			//    strong type by checking backwards before the opening paired bracket
-			//    until the first strong type (L, R, or sos) is found.
-			if openBr.StrongContext() == openBr.o() {
-				// c.1. If the preceding strong type is also opposite the embedding
-				//      direction, context is established, so set the type for both
-				//      brackets in the pair to that direction.
-				openBr.bidiclz = opposite(openBr.context.embeddingDir)
+// Rule N0 has to be completed for an isolating run sequence before any of the rules
+// N1 and N2 may be applied to it, as brackets may serve as strong context for neutrals.
+// After performRuleN0 there are no more bracket scraps for the isolating run sequence.
+//
+func (p *parser) performRuleN0(startIRS int) {
+	end := startIRS + 1
+	for end < len(p.stack) && p.stack[end].bidiclz != bidi.PDI {
+		end++
+	}
+	irs := p.stack[startIRS+1 : end]
+	e := directionClass(p.stack[startIRS].context.EmbeddingDir())
+	strong := e // most recent strong type before the current bracket, initially sos
+	for i, s := range irs {
+		if s.bidiclz == cBRACKO {
+			// Identify the bracket pairs in the current isolating run sequence according to BD16.
+			if j := p.findClosingBracket(irs, i); j > i {
+				tracer().Debugf("applying UAX#9 rule N0 to bracket pair %s … %s", s, irs[j])
+				c := bracketPairClass(irs[i+1:j], e, strong)
+				irs[i].bidiclz, irs[j].bidiclz = c, c
 			} else {
-				// c.2. Otherwise set the type for both brackets in the pair to the
-				//      embedding direction.
-				openBr.bidiclz = openBr.context.embeddingDir
+				irs[i].bidiclz = cNI
 			}
-			jmp = -2
-		} else {
-			tracer().Debugf("no strong types found within bracket pair")
-			// d. Otherwise, there are no strong types within the bracket pair.
-			//    Therefore, do not set the type for that bracket pair.
-			openBr.bidiclz = cNI
-			jmp = -1
+		} else if s.bidiclz == cBRACKC {
+			irs[i].bidiclz = cNI
 		}
-		p.changeBracketBidiClass(openBr)
-		p.stack[p.sp] = openBr
-	} else {
-		closeBr := p.stack[p.sp]
-		if openBr, found := p.findCorrespondingBracket(closeBr); found {
-			closeBr.bidiclz = openBr.bidiclz
-		} else {
-			closeBr.bidiclz = cNI
+		if d := directionClass(irs[i].bidiclz); d != cNI {
+			strong = d
 		}
-		p.stack[p.sp] = closeBr
-		if closeBr.bidiclz != cNI {
-			jmp = -2
+	}
+	// brackets may have been changed to NI, collect sequences of NIs
+	n := 0
+	for _, s := range irs {
+		if n > 0 && s.bidiclz == cNI && irs[n-1].bidiclz == cNI {
+			irs[n-1] = collapse(irs[n-1], s, cNI)
+			continue
 		}
+		irs[n] = s
+		n++
 	}
-	return
+	p.stack = append(p.stack[:startIRS+1+n], p.stack[end:]...)
 }
 
-func (p *parser) findCorrespondingBracket(s scrap) (scrap, bool) {
-	bd16 := p.sc.findBD16ForPos(s.l)
-	pair, found := bd16.FindBracketPairing(s)
-	if found {
-		if s.bidiclz == cBRACKO {
-			return pair.closing, true
+// bracketPairClass returns the bidi class for a pair of brackets, given the scraps
+// enclosed by the brackets, the embedding direction and the preceding strong type.
+func bracketPairClass(enclosed []scrap, e, strong bidi.Class) bidi.Class {
+	// a. Inspect the bidirectional types of the characters enclosed within the
+	//    bracket pair.
+	opp := false
+	for _, s := range enclosed {
+		switch directionClass(s.bidiclz) {
+		case e:
+			// b. If any strong type (either L or R) matching the embedding direction
+			//    is found, set the type for both brackets in the pair to match the
+			//    embedding direction.
+			return e
+		case opposite(e):
+			opp = true
 		}
-		return pair.opening, true
 	}
-	return s, false
+	if opp {
+		// c. Otherwise, if there is a strong type it must be opposite the embedding
+		//    direction. Therefore, test for an established context with a preceding
+		//    strong type by checking backwards before the opening paired bracket
+		//    until the first strong type (L, R, or sos) is found. If the preceding
+		//    strong type is also opposite the embedding direction, set the type for
+		//    both brackets in the pair to that direction, otherwise set it to the
+		//    embedding direction.
+		return strong
+	}
+	// d. Otherwise, there are no strong types within the bracket pair.
+	//    Therefore, do not set the type for that bracket pair.
+	return cNI
 }
 
-func (p *parser) changeBracketBidiClass(s scrap) {
-	bd16 := p.sc.findBD16ForPos(s.l)
-	bd16.changeOpeningBracketClass(s)
+// Within the scope of rule N0, EN and AN are treated as R.
+func directionClass(c bidi.Class) bidi.Class {
+	switch c {
+	case bidi.L:
+		return bidi.L
+	case bidi.R, bidi.AL, bidi.EN, bidi.AN:
+		return bidi.R
+	}
+	return cNI
+}
+
+// findClosingBracket returns the index of the closing bracket for opening bracket irs[i],
+// or -1 if irs[i] is not part of a bracket pair.
+func (p *parser) findClosingBracket(irs []scrap, i int) int {
+	pair, found := p.sc.findBracketPairing(irs[i])
+	if !found {
+		return -1
+	}
+	for j := i + 1; j < len(irs); j++ {
+		if irs[j].bidiclz == cBRACKC && irs[j].l == pair.closing.l {
+			return j
+		}
+	}
+	return -1
 }
 
 // --- Rules trie ------------------------------------------------------------
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 03b8fe6..036df78 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -13,7 +13,6 @@ package bidi
 
 import (
 	"bufio"
-	"fmt"
 	"io"
 	"strconv"
 	"unicode"
@@ -31,9 +30,10 @@ type bidiScanner struct {
 	markup        OutOfLineBidiMarkup             // markup for isolating run sequence delimiting
 	lastMarkupPos int64                           // last position of out-of-line markup
 	lastMarkup    int                             // last / remaining markup
-	IRS           map[charpos]*bracketPairHandler // isolating run sequences and their pair handlers
-	IRSStack      []charpos                       // start positions of IRSs
+	bd16root      *bracketPairHandler             // pair handler for the outermost IRS, start of list
+	IRSStack      []*bracketPairHandler           // pair handlers of nested isolating run sequences
 	ctxstack      []dirContext                    // context stack for IRSs
+	strong        bidi.Class                      // most recent strong type (L, R, AL, sos)
 }
 
 // NewScanner creates a scanner for bidi formatting. It will read runs of text
@@ -50,10 +50,9 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.lastMarkup = -1
 	sc.lastMarkupPos = -1 // no position queried yet
 	sc.bd16 = makeBracketPairHandler(0, nil)
-	sc.IRS = make(map[charpos]*bracketPairHandler)
-	sc.IRS[0] = sc.bd16
-	sc.IRSStack = make([]charpos, 0, 16)
-	sc.IRSStack = append(sc.IRSStack, 0)
+	sc.bd16root = sc.bd16
+	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	for _, opt := range opts {
 		if opt != nil {
 			opt(sc)
@@ -147,7 +146,7 @@ func makeScrap(r rune, clz bidi.Class, pos charpos, length int) scrap {
 func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 	var lookahead scrap
 	current := sc.initialOuterScrap(false)
-	lastAL := int64(-1) // position of last AL character-run in input
+	sc.strong = current.context.strong
 	for {
 		r, length, bidiclz, ok := sc.nextRune(current.r) // read the next input rune
 		if !ok {                                         // if EOF, drain lookahead and quit
@@ -167,8 +166,8 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				bidiclz = setTestingIRSDelimiter(r, bidiclz)
 			}
 		}
-		isAL := bidiclz == bidi.AL                     // AL will be changed by rule W3
-		bidiclz = applyRulesW1to3(r, bidiclz, current) // UAX#9 W1–3 handled by scanner
+		origclz := bidiclz                                        // AL will be changed by rule W3
+		bidiclz = applyRulesW1to3(r, bidiclz, current, sc.strong) // UAX#9 W1–3 handled by scanner
 		//lookahead = makeScrap(r, bidiclz, lapos, length)
 		lookahead = makeScrap(r, bidiclz, current.r, length)
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
@@ -182,21 +181,16 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				sc.post(current, pipe) // put current on channel
 			}
 			// proceed ahead, making lookahead the current scrap
-			if isisolate(lookahead) && lookahead.bidiclz != bidi.PDI {
-				sc.ctxstack = append(sc.ctxstack, current.context)
-			} else if current.bidiclz == bidi.PDI && len(sc.ctxstack) > 0 {
-				current.context = sc.ctxstack[len(sc.ctxstack)-1]
-				sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1]
-			}
-			lookahead = inheritStrongTypes(lookahead, current, lastAL)
+			lookahead = sc.inheritStrongTypes(lookahead, current)
 			current = sc.prepareRuleBD16(r, lookahead)
-			if isAL {
-				lastAL = int64(current.l)
-			}
 		} else { // otherwise the current scrap grows
 			current = collapse(current, lookahead, current.bidiclz) // meld LA with current
 			tracer().Debugf("current bidi scanner scrap = %s, next iteration", current)
 		}
+		switch origclz { // remember strong types for the characters to come
+		case bidi.L, bidi.R, bidi.AL:
+			sc.strong = origclz
+		}
 	}
 	tracer().Infof("stopped bidi scanner")
 }
@@ -236,7 +230,7 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 // applyRulesW1to3 returns the Bidi_Class for a rune. It will apply certain UAX#9
 // rules immediately to relief the parser.
 //
-func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
+func applyRulesW1to3(r rune, clz bidi.Class, current scrap, strong bidi.Class) bidi.Class {
 	currclz := current.bidiclz
 	switch clz { // do some pre-processing
 	case bidi.NSM: // rule W1, handle accents
@@ -247,11 +241,12 @@ func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
 			return bidi.R
 		case bidi.PDI:
 			return cNI
+		case cNULL: // start of paragraph: sos
+			return current.context.EmbeddingDir()
 		}
 		return currclz
 	case bidi.EN: // rule W2
-		if current.context.IsAL() {
-			tracer().Errorf("========= context: %v", current.context)
+		if strong == bidi.AL {
 			return bidi.AN
 		}
 	case bidi.AL: // rule W3
@@ -286,32 +281,26 @@ func (sc *bidiScanner) prepareRuleBD16(r rune, s scrap) scrap {
 	return s
 }
 
-// lastAL is the position of the last AL character that has occured (before
-// UAX#9 rule W3 changed it)
-func inheritStrongTypes(dest, src scrap, lastAL int64) scrap {
+// inheritStrongTypes sets the directional context of dest, the scrap following src:
+// the embedding direction and the most recent strong type (L, R, AL or sos) preceding dest
+// within its isolating run sequence.
+func (sc *bidiScanner) inheritStrongTypes(dest, src scrap) scrap {
 	tracer().Debugf("bidi scanner: inherit %s => %s     %v", src, dest, src.context)
 	dest.context = src.context
+	if src.bidiclz == bidi.PDI && len(sc.ctxstack) > 0 { // return to the outer context
+		dest.context = sc.ctxstack[len(sc.ctxstack)-1]
+		sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1]
+		sc.strong = dest.context.strong
+	}
+	dest.context.strong = sc.strong
 	switch dest.bidiclz {
-	case bidi.LRI:
+	case bidi.LRI, bidi.RLI: // enter an inner context
+		sc.ctxstack = append(sc.ctxstack, dest.context)
 		dest.context.embeddingDir = bidi.L
-	case bidi.RLI:
-		dest.context.embeddingDir = bidi.R
-		//panic("R2")
-	default:
-		if lastAL >= 0 {
-			dest.context.SetStrongType(bidi.AL, charpos(lastAL))
-		}
-		switch src.bidiclz {
-		case bidi.L, bidi.LRI:
-			dest.context.SetStrongType(bidi.L, src.l)
-			tracer().Debugf("bidi scanner LA has L context=%v from %v", dest.context, src.context)
-		case bidi.R, bidi.RLI:
-			dest.context.SetStrongType(bidi.R, src.l)
-			tracer().Debugf("bidi scanner LA has R context=%v from %v", dest.context, src.context)
-		case bidi.AL:
-			dest.context.SetStrongType(bidi.AL, src.l)
-			tracer().Debugf("bidi scanner lA has AL context=%v from %v", dest.context, src.context)
+		if dest.bidiclz == bidi.RLI {
+			dest.context.embeddingDir = bidi.R
 		}
+		sc.strong = dest.context.embeddingDir // sos
 	}
 	return dest
 }
@@ -329,46 +318,35 @@ func isisolate(s scrap) bool {
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
-		if len(sc.IRSStack) == 0 {
+		if len(sc.IRSStack) == 1 { // never pop the outermost level
 			tracer().Debugf("bidi scanner found non-paired PDI at position %d", s.l)
 			return
 		}
-		sc.bd16.lastpos = s.l
 		sc.IRSStack = sc.IRSStack[:len(sc.IRSStack)-1] // pop current IRS level
-		if len(sc.IRSStack) > 0 {
-			tos := sc.IRSStack[len(sc.IRSStack)-1]
-			sc.bd16 = sc.IRS[tos]
-		}
+		sc.bd16 = sc.IRSStack[len(sc.IRSStack)-1]
 		tracer().Debugf("bidi scanner read PDI, switch back to outer IRS at %d", sc.bd16.firstpos)
 		return
 	}
 	tracer().Debugf("bidi scanner handleIsolatingRunSwitch(%v | %v)", s, s.context)
 	// establish new BD16 handler
-	irs := sc.IRS[0]
+	irs := sc.bd16root
 	for irs.next != nil { // find most rightward isolating run sequence
 		irs = irs.next
 	}
 	sc.bd16 = makeBracketPairHandler(s.l, irs)
-	sc.IRS[s.l] = sc.bd16
-	sc.IRSStack = append(sc.IRSStack, s.l)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	tracer().Debugf("bidi scanner: new IRS with position %d, nesting level is %d", sc.bd16.firstpos, len(sc.IRSStack)-1)
 }
 
-func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
-	irs := sc.IRS[0]
-	bd16 := irs
-	for irs.next != nil { // find most rightward isolating run sequence
-		if irs.firstpos <= pos {
-			if irs.lastpos == 0 || irs.lastpos >= pos {
-				bd16 = irs
-			}
+// findBracketPairing finds the bracket pair a bracket is part of, if any. The parser will call
+// it while the scanner is still operating.
+func (sc *bidiScanner) findBracketPairing(s scrap) (pairing, bool) {
+	for bd16 := sc.bd16root; bd16 != nil; bd16 = bd16.nextHandler() {
+		if pair, found := bd16.FindBracketPairing(s); found {
+			return pair, true
 		}
-		irs = irs.next
-	}
-	if bd16 == nil {
-		panic(fmt.Sprintf("bidi scanner: could not find IRS for position %d", pos))
 	}
-	return bd16
+	return pairing{}, false
 }
 
 // As explained for option TestingMode(…), certain characters are interpreted as
diff --git a/bidi/scrap.go b/bidi/scrap.go
index 47095fa..e4b2cc0 100644
--- a/bidi/scrap.go
+++ b/bidi/scrap.go
@@ -135,40 +135,21 @@ func (s scrap) StrongContext() bidi.Class {
 	return s.context.StrongContext()
 }
 
-func (s scrap) HasEmbeddingMatchAfter(other scrap) bool {
-	return s.context.matchPos >= other.l
-}
-
-func (s scrap) HasOppositeAfter(other scrap) bool {
-	pos := s.context.matchPos + charpos(s.context.odist)
-	return pos >= other.l
-}
-
 // --- Strong types context --------------------------------------------------
 
-// dirContext is a helper type to store positions of strong types within the
+// dirContext is a helper type to store strong types preceding a scrap in the
 // input text. Various UAX#9 rules require to find preceding occurences of strong types
 // (L, R, sos, AL) to determine context. In order to avoid travelling the text backwards
-// we save the positions of strong types.
+// we save the most recent strong type.
 //
-// This is quite a memory invest. We have to strike a balanced trade-off between
-// speed and space efficiency. The information stored in dirContext is mainly used
-// for the following rules:
+// The information stored in dirContext is used for the following rules:
 //
-// * Rule W2, which changes numbers to arabic numbers if there is a recent strong
-//   type of AL (arabic letter)
 // * Rule W7, which changes numbers to type L if there is a recent strong type of L
-// * Rule N0, the handling of bracket pairings, which uses information about recent
-//   strong types L or R to decide the embedding level of brackets
-//
-// Rule W2 could be handled by a boolean flag, but the combination of W7 and N0 is
-// more tricky (see the code dealing with bracket pairs).
+// * Rules N0 and N2, which use the embedding direction
 //
 type dirContext struct {
 	embeddingDir bidi.Class // embedding context
 	strong       bidi.Class // current strong context
-	odist        uint16     // distance between matchPos and occurrence of recent o scrap
-	matchPos     charpos    // most recent position matching the embedding dir
 }
 
 func (dc dirContext) String() string {
@@ -199,27 +180,6 @@ func (dc dirContext) EmbeddingDir() bidi.Class {
 	return dc.embeddingDir
 }
 
-// Set position of recent strong type. If it matches the embedding direction
-// and at > the previous matching position, the matching position is updated.
-func (dc *dirContext) SetStrongType(c bidi.Class, at charpos) dirContext {
-	if c != bidi.L && c != bidi.R && c != bidi.AL && c != cNI {
-		return *dc
-	}
-	dc.strong = c
-	if c == dc.embeddingDir && at > dc.matchPos {
-		dc.matchPos = at
-	} else if c == opposite(dc.embeddingDir) && at > dc.matchPos {
-		d := at - dc.matchPos
-		if d > 65535 {
-			tracer().Errorf("overflow for opposite-char distance: %d", d)
-			d = 65535
-		}
-		dc.odist = uint16(d)
-	}
-	//T().Debugf("setting strong type %s at pos=%d, context=%v", classString(c), at, dc)
-	return *dc
-}
-
 // Has the currently last strong type been an AL?
 func (dc dirContext) IsAL() bool {
 	return dc.strong == bidi.AL
-- 
2.43.0


From da653732274225916c0ed57e4bca448cf08a96d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 07/53] fix: bidi rules W4 and W6 for separators, X9 for
 ignorable characters

W4 applies to single separators next to a number only, neutrals produced by W6
have to be merged with preceding ones, NSMs are part of a preceding bracket and
characters of class BN do not interrupt a run.
---
 bidi/actions.go | 17 +++++++++++++----
 bidi/scanner.go | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 29ddfe5..847eecb 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -95,7 +95,16 @@ func ruleW5_1() (*bidiRule, []byte) { // W5-1 and W5-3
 
 func ruleW5_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.EN, bidi.ET)
-	return makeSquashRule("W5-2", lhs, bidi.EN, -2), lhs
+	r := makeSquashRule("W5-2", lhs, bidi.EN, -2)
+	squash := r.action
+	r.action = func(match []scrap) ([]scrap, int, bool) {
+		// W4 has precedence over W5: a separator following ET is not between two numbers (W6)
+		if len(match) > 2 && (match[2].bidiclz == bidi.ES || match[2].bidiclz == bidi.CS) {
+			match[2].bidiclz = cNI
+		}
+		return squash(match)
+	}
+	return r, lhs
 }
 
 // W6. Otherwise, separators and terminators change to Other Neutral.
@@ -106,17 +115,17 @@ func ruleW5_2() (*bidiRule, []byte) {
 
 func ruleW6_1() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ET)
-	return makeSquashRule("W6-1", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-1", lhs, cNI, -1), lhs
 }
 
 func ruleW6_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ES)
-	return makeSquashRule("W6-2", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-2", lhs, cNI, -1), lhs
 }
 
 func ruleW6_3() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.CS)
-	return makeSquashRule("W6-3", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-3", lhs, cNI, -1), lhs
 }
 
 func ruleW6x() (*bidiRule, []byte) {
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 036df78..c4735b8 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -173,7 +173,7 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
 
 		// the current scrap is finished if the lookahead cannot extend it
-		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || isbracket(current) || isisolate(current) {
+		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || !extendable(current, origclz) {
 			if current.bidiclz != cNULL { // if the current scrap is not the initial null scrap
 				if isisolate(current) {
 					sc.handleIsolatingRunSwitch(current)
@@ -195,6 +195,29 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 	tracer().Infof("stopped bidi scanner")
 }
 
+// extendable is true if a scrap may be extended by a character of bidi class c. Brackets
+// are extended by nonspacing marks only. Separators are never extended, as rule W4
+// applies to single separators only.
+func extendable(s scrap, c bidi.Class) bool {
+	switch s.bidiclz {
+	case cBRACKO, cBRACKC:
+		return c == bidi.NSM || isignorable(c)
+	case bidi.ES, bidi.CS:
+		return isignorable(c)
+	}
+	return !isisolate(s)
+}
+
+// isignorable is true for characters which UAX#9 rule X9 removes from the text. We will not
+// remove them, but rather make them a part of the preceding run.
+func isignorable(c bidi.Class) bool {
+	switch c {
+	case bidi.BN, bidi.LRE, bidi.RLE, bidi.LRO, bidi.RLO, bidi.PDF:
+		return true
+	}
+	return false
+}
+
 func (sc *bidiScanner) post(s scrap, pipe chan<- scrap) {
 	tracer().Debugf("bidi scanner sends current scrap: %v", s)
 	pipe <- s
@@ -232,6 +255,12 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 //
 func applyRulesW1to3(r rune, clz bidi.Class, current scrap, strong bidi.Class) bidi.Class {
 	currclz := current.bidiclz
+	if isignorable(clz) { // rule X9
+		if currclz == cNULL || isisolate(current) {
+			return cNI
+		}
+		return currclz
+	}
 	switch clz { // do some pre-processing
 	case bidi.NSM: // rule W1, handle accents
 		switch currclz {
-- 
2.43.0


From 18f035165c1d8b7b009353b9ab900c0ef39399f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 08/53] fix: bidi reordering keeps the order of adjacent number
 runs

---
 bidi/reordering.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index f2f81c6..058f5b2 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -237,11 +237,11 @@ func reorder(scraps []scrap, i, j int, embedded Direction) []scrap {
 			if level(s, embedded) == 0 {
 				state = 0
 				tracer().Debugf("reverse(%d, %d)", startRunR, pos)
-				reverse(scraps, startRunR, pos)
+				reverseRun(scraps, startRunR, pos, embedded)
 				startRunR = 0
 			} else if pos == j {
 				tracer().Debugf("EOF reverse(%d, %d)", startRunR, pos+1)
-				reverse(scraps, startRunR, pos+1)
+				reverseRun(scraps, startRunR, pos+1, embedded)
 			}
 		}
 		if pos == j || s.bidiclz == cNULL {
@@ -262,6 +262,23 @@ func level(s scrap, embedded Direction) int {
 	return 0
 }
 
+// reverseRun reverses the ordering of a run [i,j) of scraps with a level > 0. For embedding
+// direction L2R, sequences of numbers have level 2 and are therefore reversed twice.
+func reverseRun(scraps []scrap, i, j int, embedded Direction) {
+	reverse(scraps, i, j)
+	if embedded == RightToLeft {
+		return
+	}
+	for i < j {
+		k := i
+		for k < j && level(scraps[k], embedded) == 2 {
+			k++
+		}
+		reverse(scraps, i, k)
+		i = k + 1
+	}
+}
+
 // reverse ordering of [i,j)
 func reverse(scraps []scrap, i, j int) []scrap {
 	if i > j {
-- 
2.43.0


From 301a2c85255f2b66b812bb9cb214fd4e8303e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 09/53] fix: bidi parser copes with unmatched isolate
 initiators and PDIs

---
 bidi/resolver.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index ff1a177..0945250 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -172,7 +172,7 @@ func (p *parser) reduce(n int, rhs []scrap, startIRS int) {
 func (p *parser) pass1(startIRS int) bool {
 	p.sp = startIRS              // start at beginning of isolating run sequence
 	la := 0                      // length of lookahead LA
-	if _, ok := p.read(3); !ok { // initially load 3 scraps
+	if _, ok := p.read(3); !ok && p.sp >= len(p.stack) { // initially load 3 scraps
 		return false // no input to read
 	}
 	var rule, shortrule *bidiRule
@@ -195,7 +195,10 @@ func (p *parser) pass1(startIRS int) bool {
 			rule = shortrule
 			if rule == nil || rule.pass > 1 {
 				tracer().Debugf("walking over %s", p.stack[p.sp])
-				if p.stack[p.sp].bidiclz == bidi.PDI {
+				if p.stack[p.sp].bidiclz == bidi.PDI && len(p.spIRS) == 1 {
+					p.stack[p.sp].bidiclz = cNI // PDI does not match any isolate initiator
+					p.sp = max(startIRS, p.sp-1)
+				} else if p.stack[p.sp].bidiclz == bidi.PDI {
 					p.sp++ // walk over PDI
 					pdi = true
 					break
@@ -224,25 +227,24 @@ func (p *parser) pass1(startIRS int) bool {
 }
 
 func (p *parser) applySubIRS(startIRS int) int {
+	e := p.stack[p.sp-1].e()
 	rhs, startSubIRS, runlen, ok := p.parseIRS(p.sp)
 	if !ok {
 		// we do not repair and backtrack if unclosed IRS
 		irs := p.stack[startSubIRS]
 		tracer().Infof("bidi resolver detected an unclosed isolate run sequence at %d", irs.l)
 		tracer().Errorf("bidi resolver won't adhere to UAX#9 for unclosed isolate run sequences")
-		if runlen == 0 { // should at least contain IRS start delimiter
-			panic("sub-IRS is void; internal inconsistency")
+		// the sub-sequence remains on the stack and becomes part of the outer sequence
+		for i := startSubIRS; i < len(p.stack); i++ {
+			p.stack[i].context.embeddingDir = e
 		}
-		p.sp = startSubIRS              // jump back to start of “IRS match”
-		rhs[0].bidiclz = cNI            // make LRI/RLI an NI
-		p.reduce(runlen, rhs, startIRS) // insert the complete sub-sequence
-		return max(startIRS, p.sp-2)
+		p.stack[startSubIRS].bidiclz = cNI // make LRI/RLI an NI
+		return max(startIRS, startSubIRS-1)
 	}
 	// received a cNI with IRS as single child
 	p.sp = startSubIRS // jump back to start of “IRS match”
 	p.reduce(runlen, rhs, startIRS)
-	//return p.sp + 1 // walk over cNI just produced
-	return p.sp
+	return max(startIRS, p.sp-1) // cNI just produced may have to be melded with a preceding one
 }
 
 // pass 2 operates on the scraps laying on the stack, starting at the
-- 
2.43.0


From 171fa613ceb665cd2e62f700c6f5212f582dacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 10/53] fix: bidi reordering covers all text of isolates, in
 visual order

---
 bidi/reordering.go | 57 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 058f5b2..843469a 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -291,6 +291,8 @@ func reverse(scraps []scrap, i, j int) []scrap {
 	return scraps
 }
 
+// reverseWithoutIsolates reverses the ordering of [i,j), including all nested isolating run
+// sequences, except for the delimiters of isolating run sequences.
 func reverseWithoutIsolates(scraps []scrap, i, j int) []scrap {
 	if len(scraps) == 0 {
 		return scraps
@@ -299,10 +301,15 @@ func reverseWithoutIsolates(scraps []scrap, i, j int) []scrap {
 		i, j = j, i
 	}
 	j = min(j, len(scraps))
-	if isisolate(scraps[i]) {
+	for _, s := range scraps[i:j] {
+		for _, ch := range s.children {
+			reverseWithoutIsolates(ch, 0, len(ch))
+		}
+	}
+	if i < j && isisolate(scraps[i]) {
 		i++
 	}
-	if isisolate((scraps[j-1])) {
+	if i < j && isisolate(scraps[j-1]) {
 		j--
 	}
 	tracer().Debugf("reverse w/ isolates %d…%d : %v", i, j, scraps)
@@ -329,6 +336,12 @@ func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 }
 
 func flatten(scraps []scrap, embedding Direction) []Run {
+	return flattenIRS(scraps, embedding, embedding)
+}
+
+// flattenIRS flattens an isolating run sequence. Parameter visual is the direction of the
+// outermost embedding, i.e. the direction in which resulting runs are ordered.
+func flattenIRS(scraps []scrap, embedding, visual Direction) []Run {
 	tracer().Debugf("will flatten( %v ), emb=%v", scraps, embedding)
 	var runs []Run
 	var last Run
@@ -342,24 +355,34 @@ func flatten(scraps []scrap, embedding Direction) []Run {
 			tracer().Debugf("runs = %v", runs)
 			continue
 		}
-		var cut scrap
+		dir := directionFromBidiClass(s, embedding)
+		var pieces [][]scrap // parts of s, interspersed with children
 		for _, ch := range s.children {
 			if len(ch) == 0 {
 				continue
 			}
 			tracer().Debugf("scrap has child = %v ------------------", ch)
+			var cut scrap
 			cut, s = cutScrapAt(s, ch)
-			last, runs = extendRuns(cut, last, runs, embedding)
-			//chrun := flatten(ch, embedding) // TODO embedding -> last.Dir ?
-			chruns := flatten(ch, last.Dir) // TODO embedding -> last.Dir ?
-			tracer().Debugf("flattened child = %v", chruns)
-			tracer().Debugf("----------------------------------------------------------------")
-			last, runs = appendRuns(chruns, last, runs)
-			tracer().Debugf("runs+child=%v, last=%v", runs, last)
+			pieces = append(pieces, []scrap{cut}, ch)
+		}
+		pieces = append(pieces, []scrap{s})
+		if dir != visual {
+			for i, j := 0, len(pieces)-1; i < j; i, j = i+1, j-1 {
+				pieces[i], pieces[j] = pieces[j], pieces[i]
+			}
+		}
+		for _, piece := range pieces {
+			opposite := directionFromBidiClass(piece[0], dir) != dir
+			if opposite { // do not meld an isolated child with a run outside of s
+				last = Run{}
+			}
+			last, runs = appendRuns(flattenIRS(piece, dir, visual), last, runs)
+			if opposite {
+				last = Run{}
+			}
+			tracer().Debugf("runs+piece=%v, last=%v", runs, last)
 		}
-		tracer().Debugf("after children: s=%v, runs=%v", s, runs)
-		last, runs = extendRuns(s, last, runs, embedding)
-		tracer().Debugf("runs = %v", runs)
 	}
 	return runs
 }
@@ -406,10 +429,13 @@ func cutScrapAt(s scrap, ch []scrap) (scrap, scrap) {
 		bidiclz: s.bidiclz,
 	}
 	rest := scrap{
-		l:       ch[len(ch)-1].r,
+		l:       ch[0].r,
 		r:       s.r,
 		bidiclz: s.bidiclz,
 	}
+	for _, c := range ch { // scraps of ch may already be reordered
+		rest.l = charpos(max(int(rest.l), int(c.r)))
+	}
 	return cut, rest
 }
 
@@ -417,9 +443,10 @@ func appendRuns(childRuns []Run, last Run, runs []Run) (Run, []Run) {
 	if len(childRuns) == 0 {
 		return last, runs
 	}
-	if childRuns[0].Dir == last.Dir {
+	if last.Length > 0 && childRuns[0].Dir == last.Dir {
 		//last.Length = childRuns[0].Length
 		last.concat(childRuns[0])
+		runs[len(runs)-1] = last
 		runs = append(runs, childRuns[1:]...)
 	} else {
 		runs = append(runs, childRuns...)
-- 
2.43.0


From a969ce40e5779fe119cfb51f642182f1033c9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 11/53] fix: bidi rule W2 sees the outer strong type after an
 isolate

---
 bidi/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index c4735b8..12ca82d 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -330,6 +330,10 @@ func (sc *bidiScanner) inheritStrongTypes(dest, src scrap) scrap {
 			dest.context.embeddingDir = bidi.R
 		}
 		sc.strong = dest.context.embeddingDir // sos
+	case bidi.PDI: // characters to come will see the outer strong type
+		if len(sc.ctxstack) > 0 {
+			sc.strong = sc.ctxstack[len(sc.ctxstack)-1].strong
+		}
 	}
 	return dest
 }
-- 
2.43.0


From 3d6db13cba642f3317d6ab2060d4b683fa0ad4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 12/53] fix: bidi levels are split at any position and left
 unchanged by Split and Reorder

---
 bidi/reordering.go | 69 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 17 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 843469a..604b98a 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -50,13 +50,28 @@ func (rl *ResolvedLevels) String() string {
 // and characters are therefore “re-positioned”.
 //
 func (rl *ResolvedLevels) Split(at uint64, shift0 bool) (*ResolvedLevels, *ResolvedLevels) {
-	prefix, suffix := split(rl.scraps, charpos(at))
+	prefix, suffix := split(copyScraps(rl.scraps), charpos(at))
 	if shift0 {
 		//suffix = shiftzero(suffix, charpos(at))
 		shiftzero(&suffix, charpos(at))
 		tracer().Debugf("resolved levels: shifted suffix levels = %v", suffix)
 	}
-	return &ResolvedLevels{scraps: prefix}, &ResolvedLevels{scraps: suffix}
+	return &ResolvedLevels{embedding: rl.embedding, scraps: prefix},
+		&ResolvedLevels{embedding: rl.embedding, scraps: suffix}
+}
+
+// copyScraps makes a deep copy of a sequence of scraps. Splitting and reordering are
+// destructive operations and must not affect the resolved levels they originate from.
+func copyScraps(scraps []scrap) []scrap {
+	c := make([]scrap, len(scraps))
+	for i, s := range scraps {
+		c[i] = s
+		c[i].children = nil
+		for _, ch := range s.children {
+			c[i].appendChild(copyScraps(ch))
+		}
+	}
+	return c
 }
 
 func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
@@ -74,18 +89,19 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 		var restch [][]scrap
 		if len(s.children) > 0 { // TODO omit this
 			tracer().Debugf("split in %v with |ch|=%d", s, len(s.children))
-			for j, ch := range s.children {
+			var prefixch [][]scrap
+			for _, ch := range s.children {
 				if irsContains(ch, at) {
 					prefix, suffix := split(ch, at)
-					restch = [][]scrap{suffix}
-					if j < len(s.children)-1 {
-						restch = append(restch, s.children[j+1:]...)
-					}
-					s.children = s.children[:j]
-					s.children = append(s.children, prefix)
-					break
+					prefixch = append(prefixch, prefix)
+					restch = append(restch, suffix)
+				} else if len(ch) > 0 && ch[0].l >= at {
+					restch = append(restch, ch)
+				} else {
+					prefixch = append(prefixch, ch)
 				}
 			}
+			s.children = prefixch
 		}
 		// children are split at this point
 		// restch is set to right part of children split
@@ -94,7 +110,9 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 		rest.children = restch
 		rseg := make([]scrap, len(scraps)-i+1)
 		if isisolate(scraps[0]) {
-			rseg[0] = scraps[0] // copy IRS start
+			rseg[0] = scraps[0] // copy IRS start, but not the delimiter character itself
+			rseg[0].l, rseg[0].r = at, at
+			rseg[0].children = nil
 			copy(rseg[1:], scraps[i:])
 			scraps[i], rseg[1] = s, rest
 		} else {
@@ -111,7 +129,7 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 }
 
 func irsContains(scraps []scrap, pos charpos) bool {
-	return scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
+	return len(scraps) > 0 && scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
 }
 
 func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
@@ -119,6 +137,9 @@ func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
 		s.l = validcharpos(s.l, offset)
 		s.r = validcharpos(s.r, offset)
 		(*scraps)[i] = s
+		for _, ch := range s.children {
+			shiftzero(&ch, offset)
+		}
 		//T().Errorf("scrap = %v", s)
 	}
 	//T().Errorf("shifted = %v", scraps)
@@ -487,7 +508,7 @@ func (rl *ResolvedLevels) Reorder() *Ordering {
 	if len(rl.scraps) == 0 {
 		return &Ordering{}
 	}
-	rscr := reorder(rl.scraps, 0, len(rl.scraps), rl.embedding)
+	rscr := reorder(copyScraps(rl.scraps), 0, len(rl.scraps), rl.embedding)
 	tracer().Debugf("=====reorder done, flatten ========")
 	r := flatten(rscr, rl.embedding)
 	return &Ordering{Runs: r}
@@ -495,12 +516,25 @@ func (rl *ResolvedLevels) Reorder() *Ordering {
 
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
-	for _, s := range rl.scraps {
-		if uint64(s.l) <= pos && pos < uint64(s.r) {
-			return directionFromBidiClass(s, LeftToRight)
+	return directionAt(rl.scraps, charpos(pos), rl.embedding)
+}
+
+func directionAt(scraps []scrap, pos charpos, embedding Direction) Direction {
+	if len(scraps) > 0 && isisolate(scraps[0]) {
+		embedding = directionFromBidiClass(scraps[0], embedding)
+	}
+	for _, s := range scraps {
+		if !s.contains(pos) {
+			continue
 		}
+		for _, ch := range s.children {
+			if irsContains(ch, pos) {
+				return directionAt(ch, pos, embedding)
+			}
+		}
+		return directionFromBidiClass(s, embedding)
 	}
-	return LeftToRight
+	return embedding
 }
 
 // SegmentIterator iterates over the text segments contained in a run.
@@ -546,6 +580,7 @@ func (r *Run) SegmentIterator(reverse bool) *SegmentIterator {
 		reverse: reverse,
 	}
 	if reverse {
+		it.scraps = append([]scrap(nil), r.scraps...) // leave the run unchanged
 		mid := len(it.scraps) / 2
 		for i := 0; i < mid; i++ {
 			j := len(it.scraps) - i - 1
-- 
2.43.0


From 974c9899c8450500d630b553e21a884660fdc7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 13/53] fix: segmenter without input source returns an error,
 errors do not survive Init

---
 segment/segment.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index d7c44f4..96c78d8 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -156,6 +156,7 @@ func (s *Segmenter) init() {
 		s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 		s.pos = 0
 	}
+	s.err = nil
 	s.positionOfBreakOpportunity = -1
 }
 
@@ -352,6 +353,7 @@ func (s *Segmenter) setErr(err error) {
 func (s *Segmenter) next(bound int) bool {
 	if s.reader == nil {
 		s.setErr(ErrNotInitialized)
+		return false
 	}
 	//
 	s.inUse = true
-- 
2.43.0


From 63243322002532b78130960c690417d63f2fdbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 14/53] fix: segmenter does not truncate segments silently

---
 segment/segment.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 96c78d8..cb3627b 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -117,6 +117,7 @@ func NewSegmenter(breakers ...uax.UnicodeBreaker) *Segmenter {
 		breakers = []uax.UnicodeBreaker{NewSimpleWordBreaker()}
 	}
 	s.breakers = breakers
+	s.runesBuf.maxSegLen = MaxSegmentSize
 	return s
 }
 
@@ -375,7 +376,10 @@ func (s *Segmenter) next(bound int) bool {
 		return false
 	}
 	//l, _ := s.getFrontSegment(bound)
-	s.getFrontSegment(bound)
+	if s.getFrontSegment(bound); s.err == ErrTooLong {
+		s.runesBuf = s.runesBuf.SetMark()
+		return false
+	}
 	// tracer().Debugf("s.positionOfBreakOpp=%d", s.positionOfBreakOpportunity)
 	//tracer().P("length", strconv.Itoa(l)).Debugf("Next() = \"%s\"", s.runesBuf)
 	return true
@@ -598,7 +602,10 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 	}
 	for i := 0; i <= l; i++ {
 		r, p0, p1 := s.deque.PopFront()
-		written, _ := (&s.runesBuf).WriteRune(r)
+		written, err := (&s.runesBuf).WriteRune(r)
+		if err != nil {
+			s.setErr(err)
+		}
 		seglen += written
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
-- 
2.43.0


From dfcc7211e0175c08f767cf2ea80377f517030194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 15/53] fix: bounded segmenting counts runes, stops at the
 bound and can be resumed

---
 segment/segment.go | 59 +++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index cb3627b..02f39dc 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -358,21 +358,18 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//
 	s.inUse = true
+	s.searchBreakOpportunity(bound) // bound may have changed since the last call
 	if !s.atEOF {
 		err := s.readEnoughInputAndFindBreak(bound)
 		if err != nil && err != io.EOF {
 			s.setErr(err)
-			s.runesBuf = s.runesBuf.Reset(nil)
-			return false
-		}
-		if s.pos-s.deque.Len() > bound {
-			tracer().Debugf("exiting because of bound reached: %d-%d>%d", s.pos, s.deque.Len(), bound)
+			s.runesBuf = s.runesBuf.SetMark()
 			return false
 		}
 	}
 	//
 	if s.positionOfBreakOpportunity < 0 { // didn't find a break opportunity
-		s.runesBuf = s.runesBuf.Reset(nil)
+		s.runesBuf = s.runesBuf.SetMark()
 		return false
 	}
 	//l, _ := s.getFrontSegment(bound)
@@ -385,13 +382,38 @@ func (s *Segmenter) next(bound int) bool {
 	return true
 }
 
+// front returns the text position of the first rune in the Q. The artificial EOF atom
+// does not occupy a text position.
+func (s *Segmenter) front() int {
+	return s.pos - s.textLen()
+}
+
+// textLen returns the number of text runes in the Q, i.e. without an artificial EOF atom.
+func (s *Segmenter) textLen() int {
+	if s.atEOF && s.deque.Len() > 0 {
+		return s.deque.Len() - 1
+	}
+	return s.deque.Len()
+}
+
+// searchBreakOpportunity sets the pointer to the next break opportunity in the Q, if any.
+// The break must not lie within the longest active match or beyond the bound.
+func (s *Segmenter) searchBreakOpportunity(bound int) {
+	boundDist := bound
+	if bound < math.MaxInt64 {
+		boundDist = bound - s.front()
+	}
+	s.positionOfBreakOpportunity = s.findBreakOpportunity(
+		min(s.textLen(), s.deque.Len()-s.longestActiveMatch), boundDist)
+}
+
 // readRune reads in the next rune and appends it at the end of the Q.
 // If EOF is encountered, s.atEOF is set and an artificial EOF atom is appended to the Q.
 // If an error occurs during read, it is returned and s.atEOF is set
 // (EOF is not considered an error in itself in this context).
 // For all subsequent calls to readRune where s.atEOF is true, io.EOF is returned.
 //
-// s.pos is incremented according to the byte size of the input rune.
+// s.pos is incremented for every input rune.
 //
 // readRune _must_ grow the Q or return an error or EOF.
 //
@@ -399,10 +421,10 @@ func (s *Segmenter) readRune() error {
 	if s.atEOF {
 		return io.EOF
 	}
-	r, sz, err := s.reader.ReadRune()
-	s.pos += sz
+	r, _, err := s.reader.ReadRune()
 	//tracer().P("rune", r).Debugf("--------------------------------------")
 	if err == nil {
+		s.pos++
 		s.deque.PushBack(r, 0, 0)
 		return nil
 	}
@@ -475,13 +497,7 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 		// The Q is updated. The longest active match may have been changed and
 		// we have to scan from the start of the Q to the new position of active match.
 		// If we find a breaking opportunity, we're done.
-		boundDist := bound
-		if bound < math.MaxInt64 {
-			//boundDist = bound - s.pos + s.deque.Len()
-			boundDist = bound - s.pos + qlen
-		}
-		s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen-s.longestActiveMatch,
-			boundDist)
+		s.searchBreakOpportunity(bound)
 		//s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen - 1 - s.longestActiveMatch)
 		// tracer().Debugf("segmenter: breakpos=%d, Q-len=%d, active match=%d",
 		// 	s.positionOfBreakOpportunity, s.deque.Len(), s.longestActiveMatch)
@@ -592,11 +608,11 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 		//return 0, true
 	}
 	var isCutOff bool
-	start := s.pos - s.deque.Len()
+	start := s.front()
 	if start+l >= bound { // front segment would extend bound
 		tracer().Debugf("segmenter: bound reached")
 		isCutOff = true // we truncate l to Q-start---->|bound
-		if l = int(bound) - int(s.pos) + s.deque.Len(); l < 0 {
+		if l = bound - start; l < 0 {
 			return 0, true
 		}
 	}
@@ -612,12 +628,7 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 	//tracer().Debugf("cutting front segment of length 0..%d: '%v'", l, s.runesBuf)
 	// There may be further break opportunities between this break and the start of the
 	// current longest match. Advance the pointer to the next break opportunity, if any.
-	boundDist := bound
-	if bound < math.MaxInt64 {
-		boundDist = bound - s.pos + s.deque.Len()
-	}
-	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
-		boundDist)
+	s.searchBreakOpportunity(bound)
 	//s.printQ()
 	return seglen, isCutOff
 }
-- 
2.43.0


From d22d1303196822c18ec67bac52be9744b583af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 16/53] fix: re-initializing a segmenter mid-text resets the
 state of its breakers

---
 segment/segment.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index 02f39dc..b352d20 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -150,6 +150,13 @@ func (s *Segmenter) init() {
 		s.deque = &deque{} // Q of atoms
 		s.maxSegmentLen = MaxSegmentSize
 	} else {
+		if s.inUse && !s.atEOF { // previous text has been abandoned: signal its end to the breakers
+			for _, breaker := range s.breakers {
+				cpClass := breaker.CodePointClassFor(eotAtom.r)
+				breaker.StartRulesFor(eotAtom.r, cpClass)
+				breaker.ProceedWithRune(eotAtom.r, cpClass)
+			}
+		}
 		s.deque.Clear()
 		s.longestActiveMatch = 0
 		s.atEOF = false
-- 
2.43.0


From b3ef796444b07ae21e9087dbcc8f86afb51d6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 17/53] fix: PositionOfFirstLegalRune terminates and skips
 illegal bytes

---
 uax.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uax.go b/uax.go
index f7656cd..febfb05 100644
--- a/uax.go
+++ b/uax.go
@@ -6,13 +6,13 @@ import "unicode/utf8"
 // start position and cut-off prefix, if any.
 func PositionOfFirstLegalRune(s string) (int, []byte) {
 	i, l, start := 0, len(s), -1
-	for i < l {
+	for ; i < l; i++ {
 		if utf8.RuneStart(s[i]) {
-			r, _ := utf8.DecodeRuneInString(s[i:])
-			if r != utf8.RuneError {
+			r, sz := utf8.DecodeRuneInString(s[i:])
+			if r != utf8.RuneError || sz > 1 {
 				start = i
+				break
 			}
-			break
 		}
 	}
 	//CT().Debugf("start index = %d", start)
-- 
2.43.0


From d092061d74b2e7bdbf05d55c090757e49ea7c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 18/53] fix: grapheme strings from empty or partially illegal
 input

---
 grapheme/string.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/grapheme/string.go b/grapheme/string.go
index 6ba77dc..5854b40 100644
--- a/grapheme/string.go
+++ b/grapheme/string.go
@@ -75,13 +75,13 @@ type shortString struct {
 
 func makeShortString(s string) String {
 	gstr := &shortString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, start := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
 	gstr.breaks = make([]uint8, 1, len(s)/4+1)
-	gstr.breaks[0] = 0
-	br := 0
+	gstr.breaks[0] = uint8(start)
+	br := start
 	for breaker.Next() {
 		br += len(breaker.Bytes())
 		tracer().Debugf("next grapheme = '%s'", breaker.Text())
@@ -124,13 +124,13 @@ type midString struct {
 
 func makeMidString(s string) String {
 	gstr := &midString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, start := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
 	gstr.breaks = make([]uint16, 1, len(s)/4)
-	gstr.breaks[0] = 0
-	br := 0
+	gstr.breaks[0] = uint16(start)
+	br := start
 	for breaker.Next() {
 		br += len(breaker.Bytes())
 		tracer().Debugf("next grapheme = '%s'", breaker.Text())
@@ -166,14 +166,17 @@ func (gstr *midString) String() string {
 
 // ---------------------------------------------------------------------------
 
-func prepareBreaking(s string) *segment.Segmenter {
+// prepareBreaking returns a grapheme breaker for s together with the position of the first
+// legal rune of s. If s does not contain any legal runes, it returns nil.
+func prepareBreaking(s string) (*segment.Segmenter, int) {
 	breaker := makeGraphemeBreaker()
 	start, _ := uax.PositionOfFirstLegalRune(s)
 	if start < 0 {
 		tracer().Errorf("cannot create grapheme string from invalid rune input")
+		return nil, 0
 	}
 	breaker.Init(&rr{input: s[start:], pos: 0})
-	return breaker
+	return breaker, start
 }
 
 func makeGraphemeBreaker() *segment.Segmenter {
@@ -190,7 +193,7 @@ type rr struct {
 func (reader *rr) ReadRune() (r rune, size int, err error) {
 	r, size = utf8.DecodeRuneInString(reader.input)
 	tracer().Debugf("read rune %v with size %d", r, size)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && size <= 1 { // no more input or illegal input
 		err = io.EOF
 		return
 	}
-- 
2.43.0


From eeb32f682f464fbf32f9172940edfea9f3c0275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 19/53] fix: width of ASCII digits and zero width runes, Width
 needs no prior setup

---
 uax11/width.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/uax11/width.go b/uax11/width.go
index 0dc55cc..e9af7f3 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -65,9 +65,14 @@ func StringWidth(s grapheme.String, context *Context) int {
 
 // width of a single grapheme in context
 func graphemeWidth(grphm []byte, context *Context) int {
-	r, _ := utf8.DecodeRune(grphm)
+	r, sz := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
-	if emoji.EmojisClassForRune(r) >= 0 {
+	switch r {
+	case 0x200b, 0x200c, 0x200d, 0x2060, 0xfeff: // zero width rune without a base character
+		return 0
+	}
+	emoji.SetupEmojisClasses()
+	if emoji.EmojisClassForRune(r) >= 0 && (r >= utf8.RuneSelf || isKeycap(grphm[sz:])) {
 		//T().Debugf("%#U is emoji", r)
 		return 2
 	}
@@ -80,6 +85,13 @@ func graphemeWidth(grphm []byte, context *Context) int {
 	return 1
 }
 
+// isKeycap returns true if b continues an emoji keycap sequence. Digits, '#' and '*' have an
+// emoji class, but are emojis as a start of keycap sequences only.
+func isKeycap(b []byte) bool {
+	r, _ := utf8.DecodeRune(b)
+	return r == 0xfe0f || r == 0x20e3
+}
+
 // --- Context ---------------------------------------------------------------
 
 // Context represents information about the typesetting environment.
-- 
2.43.0


From d6901c59cb3a2f73094c5ae9739b333f7592abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 20/53] fix: word break rules WB7b/c with ignorable characters,
 WB3c for pictographic letters

---
 uax29/uax29.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index bca8c2e..976fe9a 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -262,7 +262,7 @@ func rule_WB3c(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 
 func rule_Pictography(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX29Class(cpClass)
-	if c == emojiPictographic {
+	if c == emojiPictographic || unicode.Is(emoji.Extended_Pictographic, r) { // pictograph may be an ALetter, too
 		//tracer().Debugf("ACCEPT of Rule for Emoji")
 		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak)
 	}
@@ -385,6 +385,7 @@ func cont_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Double_QuoteClass {
 		rec.MatchLen++
+		rec.Expect = rec.MatchLen // misuse of expect field: mark position of double quote
 		return finish_WB7bc
 	}
 	return uax.DoAbort(rec)
@@ -397,7 +398,10 @@ func finish_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Hebrew_LetterClass {
 		//tracer().Debugf("ACCEPT of Rule WB 7b,c")
-		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak, PenaltyToSuppressBreak)
+		p := make([]int, rec.MatchLen-rec.Expect+1+2)
+		p[len(p)-1] = PenaltyToSuppressBreak
+		p[1] = PenaltyToSuppressBreak
+		return uax.DoAccept(rec, p...)
 	}
 	return uax.DoAbort(rec)
 }
-- 
2.43.0


From b016f8e3e815660e68ebaa90c98caf1304440ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 21/53] fix: no grapheme break after a prepending character
 (GB9b)

---
 grapheme/grapheme.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/grapheme/grapheme.go b/grapheme/grapheme.go
index 46e34eb..21ee63c 100644
--- a/grapheme/grapheme.go
+++ b/grapheme/grapheme.go
@@ -314,7 +314,17 @@ func rule_GB9a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func rule_GB9b(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := GraphemeClass(cpClass)
 	tracer().P("class", c).Debugf("fire rule Preprend")
-	return uax.DoAccept(rec, GlueJOIN)
+	rec.MatchLen++
+	return rule_GB9b_Cont
+}
+
+// Prepend x, except before controls (GB5) and at the end of the text (GB2)
+func rule_GB9b_Cont(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	switch GraphemeClass(cpClass) {
+	case ControlClass, CRClass, LFClass, eot:
+		return uax.DoAbort(rec)
+	}
+	return uax.DoAccept(rec, 0, GlueJOIN)
 }
 
 func rule_GB11(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-- 
2.43.0


From 499aafc83a34c27463073910303e7a0b0e516666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 22/53] fix: do not meld runs across the borders of isolates
 given by markup

---
 bidi/reordering.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 604b98a..420c568 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -394,12 +394,13 @@ func flattenIRS(scraps []scrap, embedding, visual Direction) []Run {
 			}
 		}
 		for _, piece := range pieces {
-			opposite := directionFromBidiClass(piece[0], dir) != dir
-			if opposite { // do not meld an isolated child with a run outside of s
+			piecedir := directionFromBidiClass(piece[0], dir)
+			// do not meld an isolated child with a run outside of s
+			if piecedir != dir || piecedir != last.Dir {
 				last = Run{}
 			}
 			last, runs = appendRuns(flattenIRS(piece, dir, visual), last, runs)
-			if opposite {
+			if piecedir != dir || piecedir != last.Dir {
 				last = Run{}
 			}
 			tracer().Debugf("runs+piece=%v, last=%v", runs, last)
-- 
2.43.0


From 2998750ab7336843fe17bff7c712d5006b7ef93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 23/53] fix: scanner of an empty paragraph does not block
 forever

---
 bidi/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 12ca82d..848a436 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -153,8 +153,10 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			if isisolate(current) { // if last character is PDI
 				sc.handleIsolatingRunSwitch(current)
 			}
-			sc.post(current, pipe) // use lookahead as current scrap and put it onto pipe
-			sc.stop(pipe)          // then send quit signal to parser
+			if current.bidiclz != cNULL { // nothing to post for an empty text
+				sc.post(current, pipe) // use lookahead as current scrap and put it onto pipe
+			}
+			sc.stop(pipe) // then send quit signal to parser
 			break
 		}
 
-- 
2.43.0


From d2e17fcfabc84a16e0853686834872321849571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 24/53] fix: stop pairing brackets after an overflow of the
 bracket stack

---
 bidi/brackets.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index a42171c..d193c21 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -70,6 +70,7 @@ type bracketPairHandler struct {
 	mx       sync.Mutex          // guards pairings and next, as parser will access them, too
 	next     *bracketPairHandler // handlers will be stacked for nested isolate runs
 	firstpos charpos             // text position of first character in isolating run sequence
+	overflow bool                // an opening bracket did not fit onto the stack
 }
 
 // This is the stack to perform the algorithm described above
@@ -107,12 +108,21 @@ func (pr pairing) String() string {
 
 // pushOpening pushes an opening bracket and its position onto the stack.
 func (bph *bracketPairHandler) pushOpening(r rune, s scrap) bool {
+	if len(bph.stack) >= BD16MaxNesting { // stack overflow: stop processing BD16, see UAX#9
+		bph.overflow = true
+	}
+	if bph.overflow {
+		return false
+	}
 	var ok bool
 	ok, bph.stack = bph.stack.push(r, s)
 	return ok
 }
 
 func (bph *bracketPairHandler) findPair(r rune, s scrap) (found bool, pos charpos) {
+	if bph.overflow {
+		return
+	}
 	var b brktpos
 	if found, b, bph.stack = bph.stack.popWith(r, s.l); !found {
 		return
-- 
2.43.0


From 7ddc079d08f61ecd540843ed789fe6a77d2045f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 25/53] fix: pair canonically equivalent angle brackets

---
 bidi/brackets.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index d193c21..ff1446a 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -152,6 +152,7 @@ func (bs bracketStack) push(r rune, s scrap) (bool, bracketStack) {
 		return false, bs
 	}
 	// TODO put bracket list in sutable data structure (map like) ?
+	r = canonicalBracket(r)
 	for _, pair := range uax9BracketPairs { // double check for UAX#9 brackets
 		if pair.o == r {
 			b := brktpos{opening: s, pair: pair}
@@ -169,6 +170,7 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	if len(bs) == 0 {
 		return false, brktpos{}, bs
 	}
+	b = canonicalBracket(b)
 	i := len(bs) - 1
 	for i >= 0 { // start at TOS, possible skip unclosed opening brackets
 		if bs[i].pair.c == b {
@@ -181,6 +183,17 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	return false, brktpos{}, bs
 }
 
+// canonicalBracket returns the canonical equivalent of bracket r, if there is one.
+func canonicalBracket(r rune) rune {
+	switch r {
+	case 0x2329: // left-pointing angle bracket
+		return 0x3008
+	case 0x232a: // right-pointing angle bracket
+		return 0x3009
+	}
+	return r
+}
+
 //func (bph *bracketPairHandler) FindBracketPairing(s scrap, open bool) (pairing, bool) {
 func (bph *bracketPairHandler) FindBracketPairing(s scrap) (pairing, bool) {
 	bph.mx.Lock()
-- 
2.43.0


From bcf715b03b28f1ba55ee5b618fdde0b8171707a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 26/53] fix: a segmenter stopped at a bound is not in error,
 and tells the bound from the end of text

---
 segment/segment.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index b352d20..329b131 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -363,6 +363,9 @@ func (s *Segmenter) next(bound int) bool {
 		s.setErr(ErrNotInitialized)
 		return false
 	}
+	if s.err == ErrBoundReached { // client wants to continue, a bound is not an error
+		s.err = nil
+	}
 	//
 	s.inUse = true
 	s.searchBreakOpportunity(bound) // bound may have changed since the last call
@@ -376,6 +379,9 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//
 	if s.positionOfBreakOpportunity < 0 { // didn't find a break opportunity
+		if s.front() > bound && s.textLen() > 0 { // stopped at the bound with text left
+			s.setErr(ErrBoundReached)
+		}
 		s.runesBuf = s.runesBuf.SetMark()
 		return false
 	}
-- 
2.43.0


From e47efbcc74079e8015e0aaad110a986ed877c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 27/53] fix: a text given up because of a reader error does not
 influence the next one

---
 segment/segment.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/segment/segment.go b/segment/segment.go
index 329b131..ce3791f 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -87,6 +87,7 @@ type Segmenter struct {
 	longestActiveMatch         int                  // bookkeeping for matching
 	positionOfBreakOpportunity int                  // bookkeeping for matching
 	atEOF                      bool                 // at end of input buffer
+	openText                   bool                 // breakers have not been told about the end of text
 	inUse                      bool                 // Next() has been called; buffer is in use.
 	err                        error                // collects the first error occured
 }
@@ -150,13 +151,14 @@ func (s *Segmenter) init() {
 		s.deque = &deque{} // Q of atoms
 		s.maxSegmentLen = MaxSegmentSize
 	} else {
-		if s.inUse && !s.atEOF { // previous text has been abandoned: signal its end to the breakers
+		if s.openText { // previous text has been abandoned: signal its end to the breakers
 			for _, breaker := range s.breakers {
 				cpClass := breaker.CodePointClassFor(eotAtom.r)
 				breaker.StartRulesFor(eotAtom.r, cpClass)
 				breaker.ProceedWithRune(eotAtom.r, cpClass)
 			}
 		}
+		s.openText = false
 		s.deque.Clear()
 		s.longestActiveMatch = 0
 		s.atEOF = false
@@ -438,10 +440,12 @@ func (s *Segmenter) readRune() error {
 	//tracer().P("rune", r).Debugf("--------------------------------------")
 	if err == nil {
 		s.pos++
+		s.openText = true
 		s.deque.PushBack(r, 0, 0)
 		return nil
 	}
 	if err == io.EOF {
+		s.openText = false
 		s.deque.PushBack(eotAtom.r, eotAtom.penalty0, eotAtom.penalty1)
 		s.atEOF = true
 		err = nil
-- 
2.43.0


From feaa039faf5918a1b5cb731f124ef0ac9d6d3513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 28/53] fix: simple word breaker does not lose a text of NUL
 characters

---
 segment/simplewordbreak.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segment/simplewordbreak.go b/segment/simplewordbreak.go
index afe5d1c..18f1586 100644
--- a/segment/simplewordbreak.go
+++ b/segment/simplewordbreak.go
@@ -77,6 +77,8 @@ func (swb *SimpleWordBreaker) ProceedWithRune(r rune, cpClass int) {
 			// swb.penalties = append(swb.penalties, PenaltyBeforeWhitespace)
 			swb.penalties = append(swb.penalties, 0, PenaltyBeforeWhitespace)
 		}
+	} else if cpClass != swb.matchType || r == 0 { // start of text, or next to a NUL character
+		swb.penalties = append(swb.penalties[:0], 0, PenaltyBeforeWhitespace)
 	}
 	if r != 0 && cpClass != swb.matchType {
 		swb.matchLen[swb.matchType] = 0
-- 
2.43.0


From bd9feaeaa6a1d11b774b8d2af4b2624025b77959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 29/53] fix: a recycled recognizer does not carry the user data
 of its former owner

---
 automata.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/automata.go b/automata.go
index f5e31a0..4b93311 100644
--- a/automata.go
+++ b/automata.go
@@ -108,6 +108,7 @@ func NewPooledRecognizer(cpClass int, stateFn NfaStateFn) *Recognizer {
 func (rec *Recognizer) releaseIntoPool() {
 	rec.penalties = nil
 	rec.Expect = 0
+	rec.UserData = nil
 	rec.MatchLen = 0
 	rec.nextStep = nil
 	_ = globalRecognizerPool.opool.ReturnObject(globalRecognizerPool.ctx, rec)
-- 
2.43.0


From 24b17208899b10d042cb800779a6123a1f2374d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 30/53] fix: creating the first word breakers concurrently is
 not a data race

---
 uax29/uax29.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index 976fe9a..4d5bebd 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -135,10 +135,7 @@ func NewWordBreaker(weight int) *WordBreaker {
 		KatakanaClass:           {rule_WB13, rule_WB13a},
 		Regional_IndicatorClass: {rule_WB15},
 	}
-	if rangeFromUAX29Class == nil {
-		tracer().Infof("UAX#29 classes not yet initialized -> initializing")
-	}
-	SetupUAX29Classes()
+	SetupUAX29Classes() // guarded by a sync.Once: do not touch the class tables before
 	return gb
 }
 
-- 
2.43.0


From 2dc5514b60453b319929991520f7611838483c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 31/53] fix: resolving a paragraph waits for its scanner, which
 might deadlock with a change of the tracer

---
 bidi/resolver.go | 1 +
 bidi/scanner.go  | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 0945250..9eb42c8 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -121,6 +121,7 @@ func (p *parser) nextInputScrap(pipe <-chan scrap) (scrap, bool) {
 	s := <-pipe
 	tracer().Debugf("    read %s from pipe", s)
 	if s.bidiclz == cNULL {
+		<-pipe // wait for the scanner to be done: it closes the pipe as its last action
 		return s, false
 	}
 	return s, true
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 848a436..6e0ce17 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -194,7 +194,6 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			sc.strong = origclz
 		}
 	}
-	tracer().Infof("stopped bidi scanner")
 }
 
 // extendable is true if a scrap may be extended by a character of bidi class c. Brackets
@@ -226,7 +225,7 @@ func (sc *bidiScanner) post(s scrap, pipe chan<- scrap) {
 }
 
 func (sc *bidiScanner) stop(pipe chan<- scrap) {
-	tracer().Debugf("stopping bidi scanner, sending final scrap (stopper)")
+	tracer().Infof("stopping bidi scanner, sending final scrap (stopper)")
 	s := scrap{bidiclz: cNULL}
 	pipe <- s
 	close(pipe)
-- 
2.43.0


From 8d32df5fa903a8276510870f44664e578229d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 32/53] fix: Japanese and Korean script codes demand East Asian
 widths

---
 uax11/width.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uax11/width.go b/uax11/width.go
index e9af7f3..4dc83ba 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -188,6 +188,7 @@ func findResolver(lang language.Tag, ctx *Context) *Context {
 		// East Asian
 		"Bopo", "Hanb", "Hani", "Hans",
 		"Hant", "Hang", "Hira", "Kana",
+		"Hrkt", "Jpan", "Jamo", "Kore",
 		"Lana", "Kitl", "Kits", "Nkdb",
 		"Nkgb", "Plrd",
 		// South East Asian
-- 
2.43.0


From 5072873127710227a33652cba1ad926a9ecff716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 33/53] fix: UCD comments are not cut off at a second '#'

---
 internal/ucdparse/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 7a616ab..48e6c89 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -186,7 +186,7 @@ func isHexDigit(r rune) bool {
 func (sc *scanner) ScanItemBody(token *Token) (*Token, scannerStep) {
 	rest := sc.Buf.ReadLineRemainder()
 	fmt.Printf("remainder = %q\n", rest)
-	a := strings.Split(rest, "#")
+	a := strings.SplitN(rest, "#", 2)
 	if len(a) > 1 {
 		token.Comment = strings.TrimSpace(a[1])
 		fmt.Printf("@ comment = %q\n", token.Comment)
-- 
2.43.0


From f5316580d5a2a6a2c86cc0c08fe102cc5926953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 34/53] fix: leading empty fields of UCD lines keep their place

---
 internal/ucdparse/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 48e6c89..846b48a 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -192,7 +192,7 @@ func (sc *scanner) ScanItemBody(token *Token) (*Token, scannerStep) {
 		fmt.Printf("@ comment = %q\n", token.Comment)
 	}
 	a[0] = strings.TrimSpace(a[0])
-	a[0] = strings.TrimLeft(a[0], ";")
+	a[0] = strings.TrimPrefix(a[0], ";")
 	token.Fields = strings.Split(a[0], ";")
 	return token, nil
 }
-- 
2.43.0


From a80dbfb264bdf255be739a44d991f4c689442140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 35/53] fix: code points at the very end of a UCD line keep
 their last digit

---
 internal/ucdparse/scan.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 846b48a..f847e52 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -121,19 +121,10 @@ func (sc *scanner) ScanItem(token *Token) (*Token, scannerStep) {
 }
 
 func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
+	hex := sc.matchHexDigits()
 	la := sc.Buf.Lookahead
-	marker := sc.Buf.ByteCursor
-	if marker > 0 {
-		marker--
-	}
-	for isHexDigit(la) {
-		sc.Buf.match(singleRune(la))
-		la = sc.Buf.Lookahead
-	}
-	pos := sc.Buf.ByteCursor - 1
-	if pos > marker {
-		fmt.Printf("hex word %s\n", sc.Buf.Text[marker:pos])
-		hex := sc.Buf.Text[marker:pos]
+	if len(hex) > 0 {
+		fmt.Printf("hex word %s\n", hex)
 		if n, err := strconv.ParseInt(hex, 16, 32); err != nil {
 			fmt.Printf("hex decoding error: %v", err)
 			token.Error = fmt.Errorf("hex decoding error: %w", err)
@@ -156,15 +147,8 @@ func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
 		token.TokenType = singleDataItem
 		return token, sc.ScanItemBody
 	}
-	marker = sc.Buf.ByteCursor - 1
-	for isHexDigit(la) {
-		sc.Buf.match(singleRune(la))
-		la = sc.Buf.Lookahead
-	}
-	pos = sc.Buf.ByteCursor - 1
-	if pos > marker {
-		fmt.Printf("hex word %s\n", sc.Buf.Text[marker:pos])
-		hex := sc.Buf.Text[marker:pos]
+	if hex = sc.matchHexDigits(); len(hex) > 0 {
+		fmt.Printf("hex word %s\n", hex)
 		if n, err := strconv.ParseInt(hex, 16, 32); err != nil {
 			fmt.Printf("hex decoding error: %v", err)
 			token.Error = fmt.Errorf("hex decoding error: %w", err)
@@ -179,6 +163,18 @@ func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
 	return token, sc.ScanItemBody
 }
 
+// matchHexDigits consumes all the hex digits at the cursor position.
+func (sc *scanner) matchHexDigits() string {
+	var hex []rune
+	for la := sc.Buf.Lookahead; isHexDigit(la); la = sc.Buf.Lookahead {
+		hex = append(hex, la)
+		if !sc.Buf.match(singleRune(la)) {
+			break
+		}
+	}
+	return string(hex)
+}
+
 func isHexDigit(r rune) bool {
 	return unicode.IsDigit(r) || (r >= 'a' && r <= 'f') || (r >= 'A' && r <= 'F')
 }
-- 
2.43.0


From 2647ed83291c2bd956cb429497284e0a40bbef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 36/53] fix: UCD files with CR line ends are not limited in
 size

---
 internal/ucdparse/linebuf.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index d4dc643..e607828 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -2,6 +2,7 @@ package ucdparse
 
 import (
 	"bufio"
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -34,20 +35,18 @@ func newLineBuffer(inputDoc io.Reader) *lineBuffer {
 	// CR LF, CR, or LF where CR and LF are the ASCII carriage return and line feed characters.
 	// A single document may employ any or all of these ways of splitting lines.
 	split := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
-		advance, token, err = bufio.ScanLines(data, atEOF)
-		for i, ch := range data {
-			if ch == '\r' {
-				if i < len(data)-1 && i < len(token) {
-					if data[i+1] != '\n' {
-						advance = i + 1
-						token = data[:i]
-						err = nil
-						return
-					}
-				}
+		i := bytes.IndexAny(data, "\r\n")
+		if i < 0 {
+			return bufio.ScanLines(data, atEOF)
+		}
+		if data[i] == '\r' {
+			if i+1 == len(data) && !atEOF {
+				return 0, nil, nil // need to see if LF follows
+			} else if i+1 < len(data) && data[i+1] == '\n' {
+				return i + 2, data[:i], nil
 			}
 		}
-		return
+		return i + 1, data[:i], nil
 	}
 	input.Split(split)
 	buf := &lineBuffer{Input: input}
-- 
2.43.0


From 8ba942aef3c07e94b88e6d1fbecc6e492a56ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 37/53] fix: parsing of UCD files ends with an error of the
 reader

---
 internal/ucdparse/linebuf.go | 8 ++++++--
 internal/ucdparse/scan.go    | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index e607828..0360417 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -22,6 +22,7 @@ type lineBuffer struct {
 	Line        *strings.Reader // reader on Text
 	isEof       int             // is this buffer done reading? May be 0, 1 or 2.
 	LastError   error           // last error, if any (except EOF errors)
+	ioError     error           // error of the input reader, if any
 }
 
 const eolMarker = '\n'
@@ -115,8 +116,11 @@ func (buf *lineBuffer) AdvanceLine() error {
 		buf.CurrentLine++
 		//fmt.Printf("===> reading line #%d\n", buf.CurrentLine)
 		if !buf.Input.Scan() { // could not read a new line: either I/O-error or EOF
-			if err := buf.Input.Err(); err != nil {
-				return fmt.Errorf("I/O error (%w) while reading input", err)
+			if err := buf.Input.Err(); err != nil { // do not try to read on
+				buf.isEof = 2
+				buf.Line = strings.NewReader("")
+				buf.ioError = fmt.Errorf("I/O error (%w) while reading input", err)
+				return buf.ioError
 			}
 			//fmt.Println("===> EOF !")
 			buf.isEof = 1
diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index f847e52..25f4d32 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -50,6 +50,9 @@ func Parse(r io.Reader, f func(token *Token)) error {
 	for sc.Next() {
 		f(sc.Token)
 	}
+	if sc.Buf.ioError != nil {
+		return sc.Buf.ioError
+	}
 	return sc.LastError
 }
 
-- 
2.43.0


From 784d609fff53e68e020c6d1d1b610b66d10e832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 38/53] fix: generated range tables list the last range, and no
 U+0000

---
 internal/ucdparse/gentables.go | 44 ++++++++++++++--------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/internal/ucdparse/gentables.go b/internal/ucdparse/gentables.go
index 6b2a0ea..3f64ab1 100644
--- a/internal/ucdparse/gentables.go
+++ b/internal/ucdparse/gentables.go
@@ -19,58 +19,50 @@ var rangeTables map[string]*RangeTableCollector // one for each range table to g
 // RangeTableCollector is a type to collect character ranges during iteration of
 // UCD files, and later output them to Go source code.
 type RangeTableCollector struct {
-	Cat              string // character category
-	cnt, latinOffset int    // range count and unicode.RangeTable.LatinOffset
-	switch32         int    // range item where to switch to int32 size
-	ranges           [][2]rune
-	lo, hi           rune // low and high bound of current range
+	Cat    string // character category
+	ranges [][2]rune
 }
 
 // Append a range of runes to a range table collector. A single
 // character is denoted by l == r.
 //
 func (rt *RangeTableCollector) Append(l, r rune) {
-	if l == rt.hi+1 {
-		rt.hi = r // range extends previous range
+	if n := len(rt.ranges); n > 0 && l == rt.ranges[n-1][1]+1 {
+		rt.ranges[n-1][1] = r // range extends previous range
 		return
 	}
-	// check for switch points in range list
-	if rt.latinOffset == 0 && rt.hi > unicode.MaxLatin1 {
-		rt.latinOffset = rt.cnt
-	}
-	if rt.switch32 == 0 && (rt.lo > (1<<16) || rt.hi > (1<<16)) {
-		// switch to range32
-		rt.switch32 = rt.cnt
-	}
-	// append current range lo…hi to ranges
-	rt.ranges = append(rt.ranges, [2]rune{rt.lo, rt.hi})
-	rt.cnt++
-	rt.lo, rt.hi = l, r
+	rt.ranges = append(rt.ranges, [2]rune{l, r})
 }
 
 // Output creates Go source code for a range table.
 func (rt *RangeTableCollector) Output(buf *bytes.Buffer) {
+	latinOffset := 0
+	is32 := false
 	printRangePreamble(buf, rt)
-	for i, r := range rt.ranges {
-		if rt.switch32 > 0 && i == rt.switch32 {
+	for _, r := range rt.ranges {
+		if r[1] <= unicode.MaxLatin1 {
+			latinOffset++
+		}
+		if !is32 && r[1] >= 1<<16 { // switch to range32
+			is32 = true
 			fmt.Fprintf(buf, "\t},\n\tR32: []unicode.Range32{\n")
 		}
 		fmt.Fprintf(buf, "\t\t{%#04x, %#04x, 1},\n", r[0], r[1])
 	}
-	printRangePostamble(buf, rt)
+	printRangePostamble(buf, latinOffset)
 }
 
 func printRangePreamble(buf *bytes.Buffer, t *RangeTableCollector) {
 	fmt.Fprintf(buf, "var _%s = &unicode.RangeTable{ ", t.Cat)
-	fmt.Fprintf(buf, "// %d entries", t.cnt)
+	fmt.Fprintf(buf, "// %d entries", len(t.ranges))
 	fmt.Fprintf(buf, `
 	R16: []unicode.Range16{
 `)
 }
 
-func printRangePostamble(buf *bytes.Buffer, t *RangeTableCollector) {
-	if t.latinOffset > 0 {
-		fmt.Fprintf(buf, "\t},\n\tLatinOffset: %d,\n}\n\n", t.latinOffset)
+func printRangePostamble(buf *bytes.Buffer, latinOffset int) {
+	if latinOffset > 0 {
+		fmt.Fprintf(buf, "\t},\n\tLatinOffset: %d,\n}\n\n", latinOffset)
 	} else {
 		fmt.Fprintf(buf, "\t},\n}\n\n")
 	}
-- 
2.43.0


From 2ad1626f0726865b120b7212f1b7e45b9292114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 39/53] fix: tablegen does not create tables from incomplete
 downloads

---
 internal/tablegen/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/tablegen/main.go b/internal/tablegen/main.go
index 77b6916..e4012ac 100644
--- a/internal/tablegen/main.go
+++ b/internal/tablegen/main.go
@@ -81,10 +81,14 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("cannot download %s: %s", *ucdurl, resp.Status)
+	}
 	printPreamble(buf, *packageNameFlag)
 
 	// parse UCD file and collect ranges
-	ucdparse.Parse(resp.Body, func(p *ucdparse.Token) {
+	err = ucdparse.Parse(resp.Body, func(p *ucdparse.Token) {
 		l, r := p.Range()             // char range in field 0
 		t := p.Field(categoryFieldNo) // character category
 		t = strings.TrimSpace(t)
@@ -93,6 +97,9 @@ func main() {
 		}
 		append(ranges, t, l, r)
 	})
+	if err != nil {
+		log.Fatal(err)
+	}
 
 	// output range information per category
 	for _, rt := range ranges {
-- 
2.43.0


From ecc6f3f0a342192b1b21cd98518a7b69f5996a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 40/53] fix: class generators do not write a table without a
 class name

---
 emoji/internal/generator/generator.go    | 17 ++++++++---------
 grapheme/internal/generator/generator.go | 14 ++++++++------
 uax14/internal/generator/generator.go    | 17 ++++++++---------
 uax29/internal/generator/generator.go    | 17 ++++++++---------
 4 files changed, 32 insertions(+), 33 deletions(-)

diff --git a/emoji/internal/generator/generator.go b/emoji/internal/generator/generator.go
index 0656966..24b15c2 100644
--- a/emoji/internal/generator/generator.go
+++ b/emoji/internal/generator/generator.go
@@ -36,6 +36,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -72,14 +73,13 @@ func loadUnicodeEmojiBreakFile() (map[string][]rune, error) {
 		return nil, err
 	}
 	defer f.Close()
-	parser, err := ucdparse.New(f)
-	if err != nil {
-		return nil, err
-	}
 	gcls := make(map[string]*arraylist.List, len(emojiClassnames))
-	for parser.Next() {
-		from, to := parser.Token.Range()
-		clstr := parser.Token.Field(1)
+	err = ucdparse.Parse(f, func(token *ucdparse.Token) {
+		from, to := token.Range()
+		clstr := strings.TrimSpace(token.Field(1))
+		if clstr == "" { // not a data item
+			return
+		}
 		list := gcls[clstr]
 		if list == nil {
 			list = arraylist.New()
@@ -88,8 +88,7 @@ func loadUnicodeEmojiBreakFile() (map[string][]rune, error) {
 			list.Add(r)
 		}
 		gcls[clstr] = list
-	}
-	err = parser.Token.Error
+	})
 	if err != nil {
 		log.Fatal(err)
 	}
diff --git a/grapheme/internal/generator/generator.go b/grapheme/internal/generator/generator.go
index f89db0c..8bf00b7 100644
--- a/grapheme/internal/generator/generator.go
+++ b/grapheme/internal/generator/generator.go
@@ -37,6 +37,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -80,11 +81,13 @@ func loadUnicodeGraphemeBreakFile() (map[string][]rune, error) {
 		return nil, err
 	}
 	defer f.Close()
-	parser, err := ucdparse.New(f)
 	gcls := make(map[string]*arraylist.List, len(graphemeClassnames))
-	for parser.Next() {
-		from, to := parser.Token.Range()
-		clstr := parser.Token.Field(1)
+	err = ucdparse.Parse(f, func(token *ucdparse.Token) {
+		from, to := token.Range()
+		clstr := strings.TrimSpace(token.Field(1))
+		if clstr == "" { // not a data item
+			return
+		}
 		list := gcls[clstr]
 		if list == nil {
 			list = arraylist.New()
@@ -93,8 +96,7 @@ func loadUnicodeGraphemeBreakFile() (map[string][]rune, error) {
 			list.Add(r)
 		}
 		gcls[clstr] = list
-	}
-	err = parser.Token.Error
+	})
 	if err != nil {
 		log.Fatal(err)
 	}
diff --git a/uax14/internal/generator/generator.go b/uax14/internal/generator/generator.go
index 79a2b94..79ee2c7 100644
--- a/uax14/internal/generator/generator.go
+++ b/uax14/internal/generator/generator.go
@@ -36,6 +36,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -68,14 +69,13 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 		return nil, err
 	}
 	defer f.Close()
-	p, err := ucdparse.New(f)
-	if err != nil {
-		return nil, err
-	}
 	lbcs := make(map[string]*arraylist.List, len(uax14classnames))
-	for p.Next() {
-		from, to := p.Token.Range()
-		brclzstr := p.Token.Field(1)
+	err = ucdparse.Parse(f, func(token *ucdparse.Token) {
+		from, to := token.Range()
+		brclzstr := strings.TrimSpace(token.Field(1))
+		if brclzstr == "" { // not a data item
+			return
+		}
 		list := lbcs[brclzstr]
 		if list == nil {
 			list = arraylist.New()
@@ -84,8 +84,7 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 			list.Add(r)
 		}
 		lbcs[brclzstr] = list
-	}
-	err = p.Token.Error
+	})
 	if err != nil {
 		log.Fatal(err)
 	}
diff --git a/uax29/internal/generator/generator.go b/uax29/internal/generator/generator.go
index b115119..dd64996 100644
--- a/uax29/internal/generator/generator.go
+++ b/uax29/internal/generator/generator.go
@@ -42,6 +42,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -74,14 +75,13 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 		return nil, err
 	}
 	defer f.Close()
-	p, err := ucdparse.New(f)
-	if err != nil {
-		return nil, err
-	}
 	lbcs := make(map[string]*arraylist.List, len(uax29classnames))
-	for p.Next() {
-		from, to := p.Token.Range()
-		brclzstr := p.Token.Field(1)
+	err = ucdparse.Parse(f, func(token *ucdparse.Token) {
+		from, to := token.Range()
+		brclzstr := strings.TrimSpace(token.Field(1))
+		if brclzstr == "" { // not a data item
+			return
+		}
 		list := lbcs[brclzstr]
 		if list == nil {
 			list = arraylist.New()
@@ -90,8 +90,7 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 			list.Add(r)
 		}
 		lbcs[brclzstr] = list
-	}
-	err = p.Token.Error
+	})
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 06b14420054875cce34f32e534ec0a68ce40f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 41/53] fix: shaping tables list the last range of each
 category, and not U+0000

---
 shaping/arabictables.go |  20 +++-----
 shaping/uipctables.go   |  51 +++++++++----------
 shaping/uisctables.go   | 108 +++++++++++++++++-----------------------
 3 files changed, 77 insertions(+), 102 deletions(-)

diff --git a/shaping/arabictables.go b/shaping/arabictables.go
index 320fc5a..1530022 100644
--- a/shaping/arabictables.go
+++ b/shaping/arabictables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _ARAB_D = &unicode.RangeTable{ // 72 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0620, 0x0620, 1},
 		{0x0626, 0x0626, 1},
 		{0x0628, 0x0628, 1},
@@ -80,13 +79,12 @@ var _ARAB_D = &unicode.RangeTable{ // 72 entries
 		{0x10fc1, 0x10fc1, 1},
 		{0x10fc4, 0x10fc4, 1},
 		{0x10fca, 0x10fca, 1},
+		{0x1e900, 0x1e943, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_R = &unicode.RangeTable{ // 62 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0622, 0x0625, 1},
 		{0x0627, 0x0627, 1},
 		{0x0629, 0x0629, 1},
@@ -150,45 +148,43 @@ var _ARAB_R = &unicode.RangeTable{ // 62 entries
 		{0x10fb9, 0x10fba, 1},
 		{0x10fbd, 0x10fbd, 1},
 		{0x10fc2, 0x10fc3, 1},
+		{0x10fc9, 0x10fc9, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_C = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0640, 0x0640, 1},
 		{0x07fa, 0x07fa, 1},
 		{0x180a, 0x180a, 1},
+		{0x200d, 0x200d, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_T = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x070f, 0x070f, 1},
 		{0x1885, 0x1886, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1e94b, 0x1e94b, 1},
+	},
 }
 
 var _ARAB_L = &unicode.RangeTable{ // 5 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0xa872, 0xa872, 1},
 	},
 	R32: []unicode.Range32{
 		{0x10acd, 0x10acd, 1},
 		{0x10ad7, 0x10ad7, 1},
 		{0x10d00, 0x10d00, 1},
+		{0x10fcb, 0x10fcb, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_U = &unicode.RangeTable{ // 29 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0600, 0x0605, 1},
 		{0x0608, 0x0608, 1},
 		{0x060b, 0x060b, 1},
@@ -219,8 +215,8 @@ var _ARAB_U = &unicode.RangeTable{ // 29 entries
 		{0x10fc0, 0x10fc0, 1},
 		{0x10fc5, 0x10fc8, 1},
 		{0x110bd, 0x110bd, 1},
+		{0x110cd, 0x110cd, 1},
 	},
-	LatinOffset: 1,
 }
 
 var (
diff --git a/shaping/uipctables.go b/shaping/uipctables.go
index 786df75..d403bb2 100644
--- a/shaping/uipctables.go
+++ b/shaping/uipctables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _UIPC_Bottom = &unicode.RangeTable{ // 143 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093c, 0x093c, 1},
 		{0x0941, 0x0944, 1},
 		{0x094d, 0x094d, 1},
@@ -151,55 +150,56 @@ var _UIPC_Bottom = &unicode.RangeTable{ // 143 entries
 		{0x11d42, 0x11d42, 1},
 		{0x11d44, 0x11d44, 1},
 		{0x11d47, 0x11d47, 1},
+		{0x11ef4, 0x11ef4, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Bottom = &unicode.RangeTable{ // 6 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0c48, 0x0c48, 1},
 		{0x0f73, 0x0f73, 1},
 		{0x0f76, 0x0f79, 1},
 		{0x0f81, 0x0f81, 1},
 		{0x1b3c, 0x1b3c, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1112e, 0x1112f, 1},
+	},
 }
 
 var _UIPC_Bottom_And_Right = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1b3b, 0x1b3b, 1},
 		{0xa9be, 0xa9be, 1},
 		{0xa9c0, 0xa9c0, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11942, 0x11942, 1},
+	},
 }
 
 var _UIPC_Top_And_Bottom_And_Left = &unicode.RangeTable{ // 2 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x103c, 0x103c, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1171e, 0x1171e, 1},
+	},
 }
 
 var _UIPC_Overstruck = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1cd4, 0x1cd4, 1},
 		{0x1ce2, 0x1ce8, 1},
 	},
 	R32: []unicode.Range32{
 		{0x10a01, 0x10a01, 1},
+		{0x10a06, 0x10a06, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Left = &unicode.RangeTable{ // 47 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093f, 0x093f, 1},
 		{0x094e, 0x094e, 1},
 		{0x09bf, 0x09bf, 1},
@@ -248,13 +248,12 @@ var _UIPC_Left = &unicode.RangeTable{ // 47 entries
 		{0x119d2, 0x119d2, 1},
 		{0x119e4, 0x119e4, 1},
 		{0x11cb1, 0x11cb1, 1},
+		{0x11ef5, 0x11ef5, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Left_And_Right = &unicode.RangeTable{ // 14 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x09cb, 0x09cc, 1},
 		{0x0b4b, 0x0b4b, 1},
 		{0x0bca, 0x0bcc, 1},
@@ -270,13 +269,12 @@ var _UIPC_Left_And_Right = &unicode.RangeTable{ // 14 entries
 		{0x114bc, 0x114bc, 1},
 		{0x114be, 0x114be, 1},
 		{0x115ba, 0x115ba, 1},
+		{0x11938, 0x11938, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top = &unicode.RangeTable{ // 193 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0900, 0x0902, 1},
 		{0x093a, 0x093a, 1},
 		{0x0945, 0x0948, 1},
@@ -471,13 +469,12 @@ var _UIPC_Top = &unicode.RangeTable{ // 193 entries
 		{0x11d43, 0x11d43, 1},
 		{0x11d90, 0x11d91, 1},
 		{0x11d95, 0x11d95, 1},
+		{0x11ef3, 0x11ef3, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Right = &unicode.RangeTable{ // 164 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0903, 0x0903, 1},
 		{0x093b, 0x093b, 1},
 		{0x093e, 0x093e, 1},
@@ -643,42 +640,41 @@ var _UIPC_Right = &unicode.RangeTable{ // 164 entries
 		{0x11d8a, 0x11d8e, 1},
 		{0x11d93, 0x11d94, 1},
 		{0x11d96, 0x11d96, 1},
+		{0x11ef6, 0x11ef6, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Left_And_Right = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0b4c, 0x0b4c, 1},
 		{0x0ddd, 0x0ddd, 1},
 		{0x17bf, 0x17bf, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x115bb, 0x115bb, 1},
+	},
 }
 
 var _UIPC_Top_And_Bottom_And_Right = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x1b3d, 0x1b3d, 1},
 	},
 }
 
 var _UIPC_Visual_Order_Left = &unicode.RangeTable{ // 7 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e40, 0x0e44, 1},
 		{0x0ec0, 0x0ec4, 1},
 		{0x19b5, 0x19b7, 1},
 		{0x19ba, 0x19ba, 1},
 		{0xaab5, 0xaab6, 1},
 		{0xaab9, 0xaab9, 1},
+		{0xaabb, 0xaabc, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Right = &unicode.RangeTable{ // 9 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0ac9, 0x0ac9, 1},
 		{0x0b57, 0x0b57, 1},
 		{0x0cc0, 0x0cc0, 1},
@@ -689,13 +685,12 @@ var _UIPC_Top_And_Right = &unicode.RangeTable{ // 9 entries
 	},
 	R32: []unicode.Range32{
 		{0x111bf, 0x111bf, 1},
+		{0x11232, 0x11233, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Left = &unicode.RangeTable{ // 6 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0b48, 0x0b48, 1},
 		{0x0dda, 0x0dda, 1},
 		{0x17be, 0x17be, 1},
@@ -703,13 +698,13 @@ var _UIPC_Top_And_Left = &unicode.RangeTable{ // 6 entries
 	},
 	R32: []unicode.Range32{
 		{0x114bb, 0x114bb, 1},
+		{0x115b9, 0x115b9, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Bottom_And_Left = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0xa9bf, 0xa9bf, 1},
 	},
 }
 
diff --git a/shaping/uisctables.go b/shaping/uisctables.go
index bb8ae4f..da55bb3 100644
--- a/shaping/uisctables.go
+++ b/shaping/uisctables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _UISC_Nukta = &unicode.RangeTable{ // 26 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093c, 0x093c, 1},
 		{0x09bc, 0x09bc, 1},
 		{0x0a3c, 0x0a3c, 1},
@@ -34,31 +33,29 @@ var _UISC_Nukta = &unicode.RangeTable{ // 26 entries
 		{0x116b7, 0x116b7, 1},
 		{0x1183a, 0x1183a, 1},
 		{0x11943, 0x11943, 1},
+		{0x11d42, 0x11d42, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Prefixed = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 	},
 	R32: []unicode.Range32{
 		{0x111c2, 0x111c3, 1},
 		{0x1193f, 0x1193f, 1},
 		{0x11a3a, 0x11a3a, 1},
+		{0x11a84, 0x11a89, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Modifying_Letter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x0b83, 0x0b83, 1},
 	},
 }
 
 var _UISC_Tone_Mark = &unicode.RangeTable{ // 15 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e48, 0x0e4b, 1},
 		{0x0ec8, 0x0ecb, 1},
 		{0x1037, 0x1037, 1},
@@ -73,24 +70,22 @@ var _UISC_Tone_Mark = &unicode.RangeTable{ // 15 entries
 		{0xaa7b, 0xaa7d, 1},
 		{0xaabf, 0xaabf, 1},
 		{0xaac1, 0xaac1, 1},
+		{0xabec, 0xabec, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Gemination_Mark = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0a71, 0x0a71, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11237, 0x11237, 1},
+		{0x11a98, 0x11a98, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Visarga = &unicode.RangeTable{ // 35 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0903, 0x0903, 1},
 		{0x0983, 0x0983, 1},
 		{0x0a03, 0x0a03, 1},
@@ -127,13 +122,12 @@ var _UISC_Visarga = &unicode.RangeTable{ // 35 entries
 		{0x11a97, 0x11a97, 1},
 		{0x11c3e, 0x11c3e, 1},
 		{0x11d41, 0x11d41, 1},
+		{0x11d96, 0x11d96, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Final = &unicode.RangeTable{ // 11 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1930, 0x1931, 1},
 		{0x1933, 0x1939, 1},
 		{0x19c1, 0x19c7, 1},
@@ -145,12 +139,13 @@ var _UISC_Consonant_Final = &unicode.RangeTable{ // 11 entries
 		{0xaa40, 0xaa4d, 1},
 		{0xabdb, 0xabe2, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11a8a, 0x11a95, 1},
+	},
 }
 
 var _UISC_Number = &unicode.RangeTable{ // 45 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0030, 0x0039, 1},
 		{0x0966, 0x096f, 1},
 		{0x09e6, 0x09ef, 1},
@@ -197,13 +192,13 @@ var _UISC_Number = &unicode.RangeTable{ // 45 entries
 		{0x11950, 0x11959, 1},
 		{0x11c50, 0x11c6c, 1},
 		{0x11d50, 0x11d59, 1},
+		{0x11da0, 0x11da9, 1},
 	},
-	LatinOffset: 2,
+	LatinOffset: 1,
 }
 
 var _UISC_Pure_Killer = &unicode.RangeTable{ // 21 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0d3b, 0x0d3c, 1},
 		{0x0e3a, 0x0e3a, 1},
 		{0x0e4e, 0x0e4e, 1},
@@ -226,13 +221,12 @@ var _UISC_Pure_Killer = &unicode.RangeTable{ // 21 entries
 		{0x1172b, 0x1172b, 1},
 		{0x1193d, 0x1193d, 1},
 		{0x11a34, 0x11a34, 1},
+		{0x11d44, 0x11d44, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel_Independent = &unicode.RangeTable{ // 87 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0904, 0x0914, 1},
 		{0x0960, 0x0961, 1},
 		{0x0972, 0x0977, 1},
@@ -321,13 +315,12 @@ var _UISC_Vowel_Independent = &unicode.RangeTable{ // 87 entries
 		{0x11d0b, 0x11d0b, 1},
 		{0x11d60, 0x11d65, 1},
 		{0x11d67, 0x11d68, 1},
+		{0x11d6a, 0x11d6b, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Placeholder = &unicode.RangeTable{ // 15 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x002d, 0x002d, 1},
 		{0x00a0, 0x00a0, 1},
 		{0x00d7, 0x00d7, 1},
@@ -344,25 +337,25 @@ var _UISC_Consonant_Placeholder = &unicode.RangeTable{ // 15 entries
 	R32: []unicode.Range32{
 		{0x11a3f, 0x11a3f, 1},
 		{0x11a45, 0x11a45, 1},
+		{0x11ef2, 0x11ef2, 1},
 	},
-	LatinOffset: 4,
+	LatinOffset: 3,
 }
 
 var _UISC_Consonant_Head_Letter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x0f88, 0x0f8c, 1},
 	},
 }
 
 var _UISC_Non_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x200c, 0x200c, 1},
 	},
 }
 
 var _UISC_Invisible_Stacker = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1039, 0x1039, 1},
 		{0x17d2, 0x17d2, 1},
 		{0x1a60, 0x1a60, 1},
@@ -376,25 +369,24 @@ var _UISC_Invisible_Stacker = &unicode.RangeTable{ // 12 entries
 		{0x11a47, 0x11a47, 1},
 		{0x11a99, 0x11a99, 1},
 		{0x11d45, 0x11d45, 1},
+		{0x11d97, 0x11d97, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Initial_Postfixed = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x1a5a, 0x1a5a, 1},
 	},
 }
 
 var _UISC_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x200d, 0x200d, 1},
 	},
 }
 
 var _UISC_Bindu = &unicode.RangeTable{ // 56 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0900, 0x0902, 1},
 		{0x0981, 0x0982, 1},
 		{0x09fc, 0x09fc, 1},
@@ -452,13 +444,12 @@ var _UISC_Bindu = &unicode.RangeTable{ // 56 entries
 		{0x11c3c, 0x11c3d, 1},
 		{0x11cb5, 0x11cb6, 1},
 		{0x11d40, 0x11d40, 1},
+		{0x11d95, 0x11d95, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Virama = &unicode.RangeTable{ // 27 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x094d, 0x094d, 1},
 		{0x09cd, 0x09cd, 1},
 		{0x0a4d, 0x0a4d, 1},
@@ -487,13 +478,12 @@ var _UISC_Virama = &unicode.RangeTable{ // 27 entries
 		{0x116b6, 0x116b6, 1},
 		{0x11839, 0x11839, 1},
 		{0x119e0, 0x119e0, 1},
+		{0x11c3f, 0x11c3f, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel_Dependent = &unicode.RangeTable{ // 132 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093a, 0x093b, 1},
 		{0x093e, 0x094c, 1},
 		{0x094e, 0x094f, 1},
@@ -627,13 +617,12 @@ var _UISC_Vowel_Dependent = &unicode.RangeTable{ // 132 entries
 		{0x11d8a, 0x11d8e, 1},
 		{0x11d90, 0x11d91, 1},
 		{0x11d93, 0x11d94, 1},
+		{0x11ef3, 0x11ef6, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant = &unicode.RangeTable{ // 153 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0915, 0x0939, 1},
 		{0x0958, 0x095f, 1},
 		{0x0978, 0x097f, 1},
@@ -788,24 +777,24 @@ var _UISC_Consonant = &unicode.RangeTable{ // 153 entries
 		{0x11c72, 0x11c8f, 1},
 		{0x11d0c, 0x11d30, 1},
 		{0x11d6c, 0x11d89, 1},
+		{0x11ee0, 0x11ef1, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel = &unicode.RangeTable{ // 5 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1963, 0x196d, 1},
 		{0xa85e, 0xa861, 1},
 		{0xa866, 0xa866, 1},
 		{0xa922, 0xa92a, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11150, 0x11154, 1},
+	},
 }
 
 var _UISC_Consonant_Subjoined = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0f8d, 0x0f97, 1},
 		{0x0f99, 0x0fbc, 1},
 		{0x1929, 0x192b, 1},
@@ -819,13 +808,12 @@ var _UISC_Consonant_Subjoined = &unicode.RangeTable{ // 12 entries
 	},
 	R32: []unicode.Range32{
 		{0x11c92, 0x11ca7, 1},
+		{0x11ca9, 0x11caf, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Cantillation_Mark = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0951, 0x0952, 1},
 		{0x0a51, 0x0a51, 1},
 		{0x0afa, 0x0afc, 1},
@@ -839,19 +827,18 @@ var _UISC_Cantillation_Mark = &unicode.RangeTable{ // 12 entries
 	R32: []unicode.Range32{
 		{0x1123e, 0x1123e, 1},
 		{0x11366, 0x1136c, 1},
+		{0x11370, 0x11374, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Register_Shifter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x17c9, 0x17ca, 1},
 	},
 }
 
 var _UISC_Syllable_Modifier = &unicode.RangeTable{ // 19 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x00b2, 0x00b3, 1},
 		{0x09fe, 0x09fe, 1},
 		{0x0f35, 0x0f35, 1},
@@ -872,19 +859,21 @@ var _UISC_Syllable_Modifier = &unicode.RangeTable{ // 19 entries
 	R32: []unicode.Range32{
 		{0x111c9, 0x111c9, 1},
 		{0x1145e, 0x1145e, 1},
+		{0x11a33, 0x11a33, 1},
 	},
-	LatinOffset: 2,
+	LatinOffset: 1,
 }
 
 var _UISC_Number_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+	},
+	R32: []unicode.Range32{
+		{0x1107f, 0x1107f, 1},
 	},
 }
 
 var _UISC_Avagraha = &unicode.RangeTable{ // 17 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093d, 0x093d, 1},
 		{0x09bd, 0x09bd, 1},
 		{0x0abd, 0x0abd, 1},
@@ -903,34 +892,31 @@ var _UISC_Avagraha = &unicode.RangeTable{ // 17 entries
 		{0x114c4, 0x114c4, 1},
 		{0x119e1, 0x119e1, 1},
 		{0x11a9d, 0x11a9d, 1},
+		{0x11c40, 0x11c40, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Dead = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x09ce, 0x09ce, 1},
 		{0x0d54, 0x0d56, 1},
 		{0x0d7a, 0x0d7f, 1},
+		{0x1cf2, 0x1cf3, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Preceding_Repha = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0d4e, 0x0d4e, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11941, 0x11941, 1},
+		{0x11d46, 0x11d46, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Medial = &unicode.RangeTable{ // 14 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0a75, 0x0a75, 1},
 		{0x0ebc, 0x0ebd, 1},
 		{0x103b, 0x103e, 1},
@@ -946,53 +932,51 @@ var _UISC_Consonant_Medial = &unicode.RangeTable{ // 14 entries
 		{0x11940, 0x11940, 1},
 		{0x11942, 0x11942, 1},
 		{0x11a3b, 0x11a3e, 1},
+		{0x11d47, 0x11d47, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Killer = &unicode.RangeTable{ // 2 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e4c, 0x0e4c, 1},
+		{0x17cd, 0x17cd, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Brahmi_Joining_Number = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+	},
+	R32: []unicode.Range32{
+		{0x11052, 0x11065, 1},
 	},
 }
 
 var _UISC_Consonant_With_Stacker = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0cf1, 0x0cf2, 1},
 		{0x1cf5, 0x1cf6, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11003, 0x11004, 1},
+		{0x11460, 0x11461, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Succeeding_Repha = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x17cc, 0x17cc, 1},
 		{0x1b03, 0x1b03, 1},
 		{0x1b81, 0x1b81, 1},
+		{0xa982, 0xa982, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Tone_Letter = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1970, 0x1974, 1},
 		{0xaac0, 0xaac0, 1},
+		{0xaac2, 0xaac2, 1},
 	},
-	LatinOffset: 1,
 }
 
 var (
-- 
2.43.0


From 4d5ca0c60f551cae9d3f8d19d5ff9cf1d60e9d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 42/53] fix: mandatory line breaks outweigh rules which
 suppress a break

The penalty for a mandatory break was less than what LB6, LB7, LB13 etc. add for
the following character, thus mandatory breaks did not have a penalty of at most
-10000, as documented for this module.
---
 uax14/uax14.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uax14/uax14.go b/uax14/uax14.go
index 5478687..10ba866 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -367,7 +367,7 @@ func (uax14 *LineWrap) unblock() {
 // Penalties (suppress break and mandatory break).
 var (
 	PenaltyToSuppressBreak = 10000  // Suppress break: ×
-	PenaltyForMustBreak    = -19000 // Break: !
+	PenaltyForMustBreak    = -50000 // Break: ! (must outweigh any rules suppressing breaks)
 	DefaultPenalty         = 1      // Rule LB31: ÷    fragile, do not change!
 )
 
-- 
2.43.0


From 2d326bad318d594e6c969a0e6d23c04266831092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 43/53] fix: line breaker keeps ideographs and emojis after a
 zero width joiner (LB8a)

The rule has never been started, as ZWJ is always substituted by LB9 or LB10.
---
 uax14/rules.go | 17 ++++++++++++++---
 uax14/uax14.go | 23 ++++++++---------------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/uax14/rules.go b/uax14/rules.go
index fb2a324..bc8bd12 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -179,11 +179,22 @@ func finish_LB8(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	return uax.DoAccept(rec, 0, -p(8))
 }
 
-// LB8a Do not break after a zero width joiner.
+// LB8a Do not break between a zero width joiner and an ideograph, emoji base or
+// emoji modifier.
 //
-// ZWJ x
+// ZWJ x (ID | EB | EM)
 func rule_LB8a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-	return uax.DoAccept(rec, p(8))
+	rec.MatchLen++
+	return finish_LB8a
+}
+
+// ... x (ID | EB | EM)
+func finish_LB8a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	c := UAX14Class(cpClass)
+	if c == IDClass || c == EBClass || c == EMClass {
+		return uax.DoAccept(rec, 0, p(8))
+	}
+	return uax.DoAbort(rec)
 }
 
 // LB11 Do not break before or after Word joiner and related characters.
diff --git a/uax14/uax14.go b/uax14/uax14.go
index 10ba866..4e15563 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -33,9 +33,7 @@ if clients call NewLineWrap().
 
 Status
 
-The current implementation passes all tests from the UAX#14 test file, except 3:
-
-    uax14_test.go:65: 3 TEST CASES OUT of 7001 FAILED
+The current implementation passes all tests from the UAX#14 test file.
 
 ______________________________________________________________________
 
@@ -206,18 +204,13 @@ func (uax14 *LineWrap) StartRulesFor(r rune, cpClass int) {
 		} else {
 			tracer().P("class", c).Debugf("starting no rule")
 		}
-		/*
-			if uax14.shadow == ZWJClass {
-				if rules := uax14.rules[uax14.shadow]; len(rules) > 0 {
-					TC.P("class", c).Debugf("starting %d rule(s) for shadow class ZWJ", len(rules))
-					for _, rule := range rules {
-						rec := uax.NewPooledRecognizer(cpClass, rule)
-						rec.UserData = uax14
-						uax14.publisher.SubscribeMe(rec)
-					}
-				}
-			}
-		*/
+	}
+	if uax14.shadow == ZWJClass { // ZWJ has been substituted by rules LB9 or LB10
+		for _, rule := range uax14.rules[ZWJClass] {
+			rec := uax.NewPooledRecognizer(int(ZWJClass), rule)
+			rec.UserData = uax14
+			uax14.publisher.SubscribeMe(rec)
+		}
 	}
 }
 
-- 
2.43.0


From 90fc1ed1d6af8482623e29cf94317e40ec26333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 44/53] fix: numbers with combining marks are not broken (LB25)

LB9 applies to all of the following rules: marks do not interrupt a number.
---
 uax14/rules.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/uax14/rules.go b/uax14/rules.go
index bc8bd12..49740df 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -518,7 +518,21 @@ func rule_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	return step2_LB25
 }
 
+// isMark is true if the current code-point, in the midst of a match, is a combining mark
+// which has been substituted by its base character (LB9). The mark is part of the match.
+func isMark(rec *uax.Recognizer) bool {
+	lw := rec.UserData.(*LineWrap)
+	if rec.MatchLen > 0 && lw.substituted {
+		rec.MatchLen++
+		return true
+	}
+	return false
+}
+
 func step2_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	if isMark(rec) {
+		return step2_LB25
+	}
 	c := UAX14Class(cpClass)
 	if c == OPClass || c == HYClass {
 		rec.MatchLen++
@@ -531,6 +545,9 @@ func step2_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 }
 
 func step3_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	if isMark(rec) {
+		return step3_LB25
+	}
 	c := UAX14Class(cpClass)
 	if c == NUClass {
 		rec.MatchLen++
@@ -540,6 +557,9 @@ func step3_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 }
 
 func step4_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	if isMark(rec) {
+		return step4_LB25
+	}
 	c := UAX14Class(cpClass)
 	if c == NUClass || c == SYClass || c == ISClass {
 		rec.MatchLen++
@@ -554,6 +574,9 @@ func step4_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 }
 
 func step5_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	if isMark(rec) {
+		return step5_LB25
+	}
 	c := UAX14Class(cpClass)
 	if c == PRClass || c == POClass {
 		return uax.DoAccept(rec, ps(25, p(25), rec.MatchLen)...)
-- 
2.43.0


From 15658bbb7baf4a7d83d4eda902e07365d4270e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 45/53] fix: no line break after a Hebrew letter, a hyphen and
 marks (LB21a)

---
 uax14/rules.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/uax14/rules.go b/uax14/rules.go
index 49740df..42b7339 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -364,11 +364,20 @@ func rule_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func finish_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX14Class(cpClass)
 	if c == HYClass || c == BAClass {
-		return uax.DoAccept(rec, p(21))
+		rec.MatchLen++
+		return accept_LB21a
 	}
 	return uax.DoAbort(rec)
 }
 
+// .. x, after marks which belong to the hyphen
+func accept_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	if isMark(rec) {
+		return accept_LB21a
+	}
+	return uax.DoAccept(rec, 0, p(21))
+}
+
 //  LB21b Don’t break between Solidus and Hebrew letters.
 //
 // SY x HL
-- 
2.43.0


From d944c26c82ac39a4837494f32adfdaf0654cdb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 46/53] fix: marks of a regional indicator do not start a pair
 (LB30a)

---
 uax14/uax14.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uax14/uax14.go b/uax14/uax14.go
index 4e15563..fa801a1 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -193,7 +193,7 @@ func (uax14 *LineWrap) CodePointClassFor(r rune) int {
 // Interface unicode.UnicodeBreaker
 func (uax14 *LineWrap) StartRulesFor(r rune, cpClass int) {
 	c := UAX14Class(cpClass)
-	if c != RIClass || !uax14.blockedRI {
+	if c != RIClass || !uax14.blockedRI && !uax14.substituted { // marks of a RI do not start a pair
 		if rules := uax14.rules[c]; len(rules) > 0 {
 			tracer().P("class", c).Debugf("starting %d rule(s) for class %s", len(rules), c)
 			for _, rule := range rules {
-- 
2.43.0


From d6de8148acae33dc7a123aa137d76ef4597a4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 47/53] fix: support isolates with first-strong direction (FSI)

An FSI (U+2068) let the package panic. Per UAX#9 X5c it is treated as an RLI, if
the text it isolates starts with a strong R2L character, and as an LRI otherwise.
---
 bidi/scanner.go | 84 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 75 insertions(+), 9 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 6e0ce17..5ef1dfc 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -34,6 +34,15 @@ type bidiScanner struct {
 	IRSStack      []*bracketPairHandler           // pair handlers of nested isolating run sequences
 	ctxstack      []dirContext                    // context stack for IRSs
 	strong        bidi.Class                      // most recent strong type (L, R, AL, sos)
+	lookahead     []scannedRune                   // runes read ahead to resolve an FSI
+}
+
+// scannedRune is a rune (or a markup delimiter), as read from the input.
+type scannedRune struct {
+	r       rune
+	length  int        // byte length of r
+	bidiclz bidi.Class // Bidi_Class of r
+	ok      bool       // false for EOF
 }
 
 // NewScanner creates a scanner for bidi formatting. It will read runs of text
@@ -73,10 +82,74 @@ func markupToBidi(m int) bidi.Class {
 	return 0
 }
 
-// nextRune reads the next rune from the input reader.
+// nextRune returns the next rune of the input, its byte length, bidi class and a flag
+// indicating a valid input (false for EOF). An FSI will be returned as an LRI or an RLI,
+// depending on the text it isolates.
+func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
+	var c scannedRune
+	if len(sc.lookahead) > 0 {
+		c, sc.lookahead = sc.lookahead[0], sc.lookahead[1:]
+	} else {
+		c = sc.scanRune(pos)
+	}
+	if c.bidiclz == bidi.FSI {
+		c.bidiclz = sc.resolveFSI(pos + charpos(c.length))
+	}
+	return c.r, c.length, c.bidiclz, c.ok
+}
+
+// resolveFSI finds the direction of an FSI, where pos is the position following it.
+// UAX#9 X5c: rules P2 and P3 are applied to the characters between the FSI and its
+// matching PDI. Any characters read will be kept in the lookahead queue.
+func (sc *bidiScanner) resolveFSI(pos charpos) bidi.Class {
+	nesting := 0 // nesting level of isolates within the FSI
+	for i := 0; ; i++ {
+		if i == len(sc.lookahead) {
+			sc.lookahead = append(sc.lookahead, sc.scanRune(pos))
+		}
+		c := sc.lookahead[i]
+		if !c.ok {
+			return bidi.LRI
+		}
+		pos += charpos(c.length)
+		switch c.bidiclz {
+		case bidi.LRI, bidi.RLI, bidi.FSI:
+			nesting++
+		case bidi.PDI:
+			if nesting == 0 {
+				return bidi.LRI
+			}
+			nesting--
+		case bidi.L:
+			if nesting == 0 {
+				return bidi.LRI
+			}
+		case bidi.R, bidi.AL:
+			if nesting == 0 {
+				return bidi.RLI
+			}
+		}
+	}
+}
+
+// scanRune gets the next rune from nextInput and returns it with its Bidi_Class,
+// considering testing mode.
+func (sc *bidiScanner) scanRune(pos charpos) scannedRune {
+	r, length, bidiclz, ok := sc.nextInput(pos)
+	if ok && sc.hasMode(optionTesting) {
+		if unicode.IsUpper(r) {
+			bidiclz = bidi.R // during testing, UPPERCASE is R2L
+		} else { // check for isolating run sequence delimiters
+			bidiclz = setTestingIRSDelimiter(r, bidiclz)
+		}
+	}
+	return scannedRune{r: r, length: length, bidiclz: bidiclz, ok: ok}
+}
+
+// nextInput reads the next rune from the input reader.
 // Returns the rune, its byte length, bidi class and a flag indicating
 // a valid input (false for EOF).
-func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
+func (sc *bidiScanner) nextInput(pos charpos) (rune, int, bidi.Class, bool) {
 	if sc.markup != nil && sc.lastMarkup > 0 { // we have a left-over markup to handle
 		sc.lastMarkupPos = int64(pos)
 		last := sc.lastMarkup
@@ -161,13 +234,6 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 		}
 
 		// a rune has successfully been read ⇒ make it the new lookahead
-		if sc.hasMode(optionTesting) {
-			if unicode.IsUpper(r) {
-				bidiclz = bidi.R // during testing, UPPERCASE is R2L
-			} else { // check for isolating run sequence delimiters
-				bidiclz = setTestingIRSDelimiter(r, bidiclz)
-			}
-		}
 		origclz := bidiclz                                        // AL will be changed by rule W3
 		bidiclz = applyRulesW1to3(r, bidiclz, current, sc.strong) // UAX#9 W1–3 handled by scanner
 		//lookahead = makeScrap(r, bidiclz, lapos, length)
-- 
2.43.0


From 12eeb4e990a56aa09afcde43297a4114b8364848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 48/53] fix: creating the first line breakers concurrently is
 not a data race

NewLineWrap looked at the table of classes without synchronization, just to trace.
---
 uax14/uax14.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/uax14/uax14.go b/uax14/uax14.go
index fa801a1..5f3eaca 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -167,10 +167,7 @@ func NewLineWrap() *LineWrap {
 		H3Class:  {rule_LB26_3, rule_LB27},
 		ZWJClass: {rule_LB8a},
 	}
-	if rangeFromUAX14Class == nil {
-		tracer().Infof("UAX#14 classes not yet initialized -> initializing")
-	}
-	SetupClasses()
+	SetupClasses() // guarded by a sync.Once: do not touch the class tables before
 	uax14.lastClass = sot
 	return uax14
 }
-- 
2.43.0


From 881f150d08214f4e7a1c24c4ce1a01e3e139862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 49/53] fix: mandatory word breaks stay mandatory with several
 breakers

The word breaker added its default penalty to the merits of the mandatory break
after LF and Newline. With other breakers involved, this amounted to -9990.
---
 uax29/uax29.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index 4d5bebd..ec418a4 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -198,8 +198,10 @@ func (gb *WordBreaker) ProceedWithRune(r rune, cpClass int) {
 	tracer().P("class", c).Debugf("proceeding with rune %#U ...", r)
 	gb.longestMatch, gb.penalties = gb.publisher.PublishRuneEvent(r, int(c))
 	tracer().P("class", c).Debugf("...done with |match|=%d and p=%v", gb.longestMatch, gb.penalties)
+	if gb.previousClass != LFClass && gb.previousClass != NewlineClass { // mandatory break already reported
+		setPenalty1(gb, penalty999) //gb.penalties[1] = penalty999, if empty
+	}
 	gb.previousClass = c
-	setPenalty1(gb, penalty999) //gb.penalties[1] = penalty999, if empty
 	//tracer().Debugf("penalites now = %v", gb.penalties)
 }
 
-- 
2.43.0


From 4c9aae40dee87ffd61a693a68c970af6841cf617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 50/53] fix: break test files deliver every test exactly once

A blank line repeated the test before it, a test without a comment had
the comment of the one before it, comments were cut at a second '#'.
---
 internal/ucdparse/testfiles.go | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/internal/ucdparse/testfiles.go b/internal/ucdparse/testfiles.go
index 8ec1a05..f2eea87 100644
--- a/internal/ucdparse/testfiles.go
+++ b/internal/ucdparse/testfiles.go
@@ -33,29 +33,20 @@ func OpenTestFile(filename string, t *testing.T) *ucdTestFile {
 	return tf
 }
 
+// Scan advances to the next test, skipping blank lines and lines containing a comment only.
 func (tf *ucdTestFile) Scan() bool {
-	ok := true
-	done := false
-	for !done {
-		ok = tf.scanner.Scan()
-		if ok && len(tf.scanner.Bytes()) > 0 {
-			if tf.scanner.Bytes()[0] == '#' {
-				continue
-			}
-			done = true
-			text := tf.scanner.Text()
-			text = strings.TrimSpace(text)
-			parts := strings.Split(text, "#")
-			if len(parts) > 1 {
-				tf.text, tf.comment = parts[0], parts[1]
-			} else {
-				tf.text = parts[0]
-			}
-		} else {
-			done = true // with error
+	for tf.scanner.Scan() {
+		text := strings.TrimSpace(tf.scanner.Text())
+		if text == "" || text[0] == '#' {
+			continue
+		}
+		tf.text, tf.comment = text, ""
+		if i := strings.IndexByte(text, '#'); i >= 0 {
+			tf.text, tf.comment = text[:i], text[i+1:]
 		}
+		return true
 	}
-	return ok
+	return false
 }
 
 func (tf *ucdTestFile) Text() string {
-- 
2.43.0


From 9ea484fc0468a2066c37bb5c81dd600e15084d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:17 +0000
Subject: [PATCH 51/53] fix: options of bidi resolution can be switched off
 again

TestMode(false), IgnoreParagraphSeparators(false) and
DefaultDirection(LeftToRight) had no effect after an option that had
switched them on.
---
 bidi/scanner.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 5ef1dfc..21db201 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -539,22 +539,16 @@ const (
 // thus setting this option will have no effect.
 func RecognizeLegacy(b bool) Option {
 	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionRecognizeLegacy) && b ||
-			sc.hasMode(optionRecognizeLegacy) && !b {
-			sc.mode |= optionRecognizeLegacy
-		}
+		sc.setMode(optionRecognizeLegacy, b)
 	}
 }
 
 // DefaultDirection sets outer embedding level for a paragraph
 // (LeftToRight is the normal default).
 func DefaultDirection(dir Direction) Option {
-	if dir == RightToLeft {
-		return func(sc *bidiScanner) {
-			sc.mode |= optionOuterR2L
-		}
+	return func(sc *bidiScanner) {
+		sc.setMode(optionOuterR2L, dir == RightToLeft)
 	}
-	return nil
 }
 
 // TestMode will set up the scanner to recognize UPPERCASE letters as having R2L class.
@@ -572,10 +566,7 @@ func DefaultDirection(dir Direction) Option {
 //
 func TestMode(b bool) Option {
 	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionTesting) && b ||
-			sc.hasMode(optionTesting) && !b {
-			sc.mode |= optionTesting
-		}
+		sc.setMode(optionTesting, b)
 	}
 }
 
@@ -586,10 +577,15 @@ func TestMode(b bool) Option {
 // paragraph separator is cut off of the input.
 func IgnoreParagraphSeparators(b bool) Option {
 	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionIgnoreParSep) && b ||
-			sc.hasMode(optionIgnoreParSep) && !b {
-			sc.mode |= optionIgnoreParSep
-		}
+		sc.setMode(optionIgnoreParSep, b)
+	}
+}
+
+func (sc *bidiScanner) setMode(m uint8, on bool) {
+	if on {
+		sc.mode |= m
+	} else {
+		sc.mode &^= m
 	}
 }
 
-- 
2.43.0


From 4e2c7be542ad7b570e7d128527d323282377dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 52/53] fix: illegal bytes do not shift the positions of bidi
 runs

Every illegal byte was counted as the three bytes of an encoded U+FFFD,
so that level runs and segments reached beyond the end of the text.
---
 bidi/scanner.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 21db201..0c050a0 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -54,7 +54,7 @@ type scannedRune struct {
 func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bidiScanner {
 	sc := &bidiScanner{}
 	sc.runeScanner = bufio.NewScanner(input)
-	sc.runeScanner.Split(bufio.ScanRunes)
+	sc.runeScanner.Split(scanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
 	sc.lastMarkupPos = -1 // no position queried yet
@@ -173,7 +173,7 @@ func (sc *bidiScanner) nextInput(pos charpos) (rune, int, bidi.Class, bool) {
 	b := sc.runeScanner.Bytes()
 	r, length := utf8.DecodeRune(b)
 	props, sz := bidi.LookupRune(r)
-	if sz == 0 || sz != length {
+	if sz == 0 || sz != length && r != utf8.RuneError {
 		panic("bidi package differs in rune interpretation from scanner package")
 	}
 	bidiclz := props.Class()
@@ -194,6 +194,16 @@ func (sc *bidiScanner) nextInput(pos charpos) (rune, int, bidi.Class, bool) {
 	return r, length, bidiclz, true
 }
 
+// scanRunes is a split function for a bufio.Scanner. In contrast to bufio.ScanRunes it returns
+// illegal bytes as they are, not as an encoded U+FFFD, as text positions have to include them.
+func scanRunes(data []byte, atEOF bool) (int, []byte, error) {
+	if len(data) == 0 || !atEOF && !utf8.FullRune(data) {
+		return 0, nil, nil // at EOF, or incomplete: request more data
+	}
+	_, length := utf8.DecodeRune(data)
+	return length, data[:length], nil
+}
+
 // makeScrap wraps the input rune into a scrap.
 func makeScrap(r rune, clz bidi.Class, pos charpos, length int) scrap {
 	s := scrap{
-- 
2.43.0


From cae293152ae6921476ef35a5adf098b44a11f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 53/53] fix: isolates nested deeper than UAX#9 allows for do
 not isolate

---
 bidi/scanner.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 0c050a0..228a717 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -35,8 +35,14 @@ type bidiScanner struct {
 	ctxstack      []dirContext                    // context stack for IRSs
 	strong        bidi.Class                      // most recent strong type (L, R, AL, sos)
 	lookahead     []scannedRune                   // runes read ahead to resolve an FSI
+	level         int                             // embedding level
+	outerLevels   []int                           // embedding levels around the current isolate
+	overflow      int                             // number of isolates exceeding the maximum level
 }
 
+// maxDepth is the maximum explicit embedding level, see UAX#9 BD2.
+const maxDepth = 125
+
 // scannedRune is a rune (or a markup delimiter), as read from the input.
 type scannedRune struct {
 	r       rune
@@ -67,6 +73,9 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 			opt(sc)
 		}
 	}
+	if sc.hasMode(optionOuterR2L) {
+		sc.level = 1
+	}
 	return sc
 }
 
@@ -95,7 +104,34 @@ func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
 	if c.bidiclz == bidi.FSI {
 		c.bidiclz = sc.resolveFSI(pos + charpos(c.length))
 	}
-	return c.r, c.length, c.bidiclz, c.ok
+	return c.r, c.length, sc.limitDepth(c.bidiclz), c.ok
+}
+
+// limitDepth keeps track of the embedding level. Isolates which would exceed the maximum
+// level are not isolated, and their delimiters are neutrals (UAX#9 X5a–X5c, X6a).
+func (sc *bidiScanner) limitDepth(clz bidi.Class) bidi.Class {
+	switch clz {
+	case bidi.LRI, bidi.RLI:
+		level := sc.level + 1
+		if (level%2 == 1) != (clz == bidi.RLI) {
+			level++
+		}
+		if sc.overflow > 0 || level > maxDepth {
+			sc.overflow++
+			return bidi.ON
+		}
+		sc.outerLevels = append(sc.outerLevels, sc.level)
+		sc.level = level
+	case bidi.PDI:
+		if sc.overflow > 0 {
+			sc.overflow--
+			return bidi.ON
+		}
+		if n := len(sc.outerLevels); n > 0 {
+			sc.level, sc.outerLevels = sc.outerLevels[n-1], sc.outerLevels[:n-1]
+		}
+	}
+	return clz
 }
 
 // resolveFSI finds the direction of an FSI, where pos is the position following it.
-- 
2.43.0

