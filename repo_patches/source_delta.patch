From 57f8e6defb1360c42940a5c3a559d90dbcabe00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:17 +0000
Subject: [PATCH 01/24] fix: start Tarjan indices at 1 so the first visited
 rule is not visited twice

Index 0 means "not visited", but the first visited node got index 0: when
a cycle led back to it, it was visited again and its strongly connected
component was split, depending on map iteration order. IsDAG and
RuleContainsCycle missed cycles, and IsValid panicked or under-accepted on
mutually left-recursive rules.
---
 dag.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index 4d004e4..eca2021 100644
--- a/dag.go
+++ b/dag.go
@@ -194,10 +194,11 @@ func (c *cycle) find() {
 }
 
 func (c *cycle) strongconnect(v *node) {
-	// Set the depth index for v to the smallest unused index
+	// Set the depth index for v to the smallest unused index. Indices start
+	// at 1, as 0 marks a node that has not been visited yet.
+	c.index++
 	v.index = c.index
 	v.lowlink = c.index
-	c.index++
 	c.stack = append(c.stack, v)
 	v.onStack = true
 
-- 
2.43.0


From e9275cc28cec2ec24806b481159e5d3b7fa9cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:08 +0000
Subject: [PATCH 02/24] fix: do not let IsValid reuse unfinished results under
 left recursion

Groups and options evaluated while a left-recursive rule is being grown were
memoized although they had read the rule's unfinished seed, and were cut to
the empty set when re-entered through such a rule at the same position. Both
stopped the growth early: with a = "x" / (a "y"), "xy" was rejected.
---
 recognize.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/recognize.go b/recognize.go
index 2f18570..95240a8 100644
--- a/recognize.go
+++ b/recognize.go
@@ -31,6 +31,9 @@ type recognizer struct {
 	// returns the seed instead of recursing.
 	leftRec map[string][]string
 	growing map[string]map[int]bool
+	// seedReads counts the unfinished seeds read so far: a result that read one
+	// is provisional and must not be memoized.
+	seedReads int
 }
 
 func cloneSet(s map[int]bool) map[int]bool {
@@ -134,21 +137,29 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	if cached, ok := r.memo[key]; ok {
 		return cached
 	}
-	if r.inProgress[key] {
-		// Re-entry at the same position == non-progressing recursion in a rule
-		// not flagged left-recursive. Return empty (defense-in-depth) instead of
-		// looping forever.
-		return map[int]bool{}
+	if _, isRule := elem.(ElemRulename); isRule {
+		if r.inProgress[key] {
+			// Re-entry at the same position == non-progressing recursion in a rule
+			// not flagged left-recursive. Return empty (defense-in-depth) instead of
+			// looping forever. A group or an option re-enters only through a
+			// left-recursive rule, whose seed bounds the recursion.
+			return map[int]bool{}
+		}
+		r.inProgress[key] = true
 	}
-	r.inProgress[key] = true
+	reads := r.seedReads
 	out := r.computeElem(elem, index)
 	delete(r.inProgress, key)
-	// Safe to cache: a rule reached here either is independent of any actively
-	// growing seed, or is itself a growing SCC member (handled by reachLeftRec
-	// via r.growing, not this path). A lower left-corner SCC cannot reference
-	// the SCC growing above it -- they would be one SCC -- so its result is
-	// stable. Caching nested SCCs is what keeps left recursion polynomial.
-	r.memo[key] = cloneSet(out)
+	// A rule reached here either is independent of any actively growing seed, or
+	// is itself a growing SCC member (handled by reachLeftRec via r.growing, not
+	// this path). A lower left-corner SCC cannot reference the SCC growing above
+	// it -- they would be one SCC -- so its result is stable. Caching nested SCCs
+	// is what keeps left recursion polynomial. A group or an option in the body
+	// of a growing rule may however have read the rule's unfinished seed: then
+	// its result is not final yet, and caching it would stop the growth.
+	if r.seedReads == reads {
+		r.memo[key] = cloneSet(out)
+	}
 	return out
 }
 
@@ -165,8 +176,10 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 		return cached
 	}
 	if seed, ok := r.growing[key]; ok {
+		r.seedReads++
 		return seed // re-entrant: return the current seed
 	}
+	reads := r.seedReads
 
 	keys := make([]string, len(scc))
 	for i, x := range scc {
@@ -204,6 +217,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 			result = cloneSet(v)
 		}
 	}
+	r.seedReads = reads // the seeds read above are final now
 	return result
 }
 
-- 
2.43.0


From 4dcd72b4693ff18aaf34c673c6d424aa1d0d5483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:29 +0000
Subject: [PATCH 03/24] fix: accept minimum repetitions larger than the input
 in IsValid

The occurrence count is capped by the input length, so a repetition whose
minimum exceeds the cap never met it, even with occurrences that match the
empty string: 5["a"] rejected the empty input.
---
 recognize.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/recognize.go b/recognize.go
index 95240a8..bec5eca 100644
--- a/recognize.go
+++ b/recognize.go
@@ -89,6 +89,13 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 	seen := map[int]bool{index: true}
 
 	cap := len(r.input) + 2
+	// Past len(input)+1 occurrences the level no longer changes (only empty
+	// occurrences are left to add), so a larger minimum is met as soon as cap
+	// occurrences are.
+	least := rep.Min
+	if least > cap && (rep.Max == inf || rep.Max >= rep.Min) {
+		least = cap
+	}
 	for c := 1; c <= cap; c++ {
 		if rep.Max != inf && c > rep.Max {
 			break
@@ -102,7 +109,7 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 		if len(next) == 0 {
 			break
 		}
-		if c >= rep.Min {
+		if c >= least {
 			for e := range next {
 				ends[e] = true
 			}
@@ -116,7 +123,7 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 		}
 		level = next
 		// Reachable set closed and the minimum-count requirement met.
-		if !grew && c >= rep.Min {
+		if !grew && c >= least {
 			break
 		}
 	}
-- 
2.43.0


From 62079c979c6e5aa069028665df03ebd321f2b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:54 +0000
Subject: [PATCH 04/24] fix: print case-sensitive char-vals with their %s
 prefix

The printed form of %s"a" was "a", so String and PrettyPrint changed the
language, and the recognizer and the forest parser, which key their tables by
the printed form, confused "a" with %s"a" in one grammar.
---
 abnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abnf.go b/abnf.go
index 5173714..a8e413f 100644
--- a/abnf.go
+++ b/abnf.go
@@ -151,6 +151,9 @@ func (ecvl ElemCharVal) String() string {
 	for _, val := range ecvl.Values {
 		str += string(val)
 	}
+	if ecvl.Sensitive {
+		return `%s"` + str + `"`
+	}
 	return `"` + str + `"`
 }
 
-- 
2.43.0


From 39ee4356a143d76fe5b60a9fa607771b171eb924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:06 +0000
Subject: [PATCH 05/24] fix: keep derivations through different alternates
 apart in the forest

Two alternates covering the same children (r = "a" / "a", r = s / s) were
merged into one pack, so NumTrees and Ambiguous disagreed with the BSR engine
(and with the same grammar written with three symbols).
---
 sppf.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sppf.go b/sppf.go
index 9c4d507..bc2374d 100644
--- a/sppf.go
+++ b/sppf.go
@@ -247,11 +247,14 @@ type gnode struct {
 	nt         int // symbol nonterminal id, for gSymbol
 	Start, End int
 	packs      [][]*gnode // each pack has 1 or 2 children; >1 pack == ambiguity
+	packAlts   []int      // the alternate each pack derives from
 }
 
-func (n *gnode) addPack(children []*gnode) {
-	for _, p := range n.packs {
-		if len(p) != len(children) {
+// addPack records a derivation of n. Two alternates that cover the same children
+// are distinct derivations, so the alternate is part of the pack's identity.
+func (n *gnode) addPack(alt int, children []*gnode) {
+	for k, p := range n.packs {
+		if n.packAlts[k] != alt || len(p) != len(children) {
 			continue
 		}
 		same := true
@@ -266,6 +269,7 @@ func (n *gnode) addPack(children []*gnode) {
 		}
 	}
 	n.packs = append(n.packs, children)
+	n.packAlts = append(n.packAlts, alt)
 }
 
 // ---------------------------------------------------------------------------
@@ -416,9 +420,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	y := p.findNode(k)
 	if w != nil {
-		y.addPack([]*gnode{w, z})
+		y.addPack(L.alt, []*gnode{w, z})
 	} else {
-		y.addPack([]*gnode{z})
+		y.addPack(L.alt, []*gnode{z})
 	}
 	return y
 }
-- 
2.43.0


From a1df1957b3bd32edd376224cea38a74909897e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:06 +0000
Subject: [PATCH 06/24] fix: keep counts of a repetition apart in the parse
 forests

Forest nodes and BSR elements of a counted repetition were shared between
different counts, so 2["a"] on "a" was reported as infinitely ambiguous and
r = 2s with a nullable s could yield a tree with one s.
---
 bsr.go  | 138 ++++++++++++++++++++++++++++----------------------------
 sppf.go |  40 ++++++++++------
 2 files changed, 95 insertions(+), 83 deletions(-)

diff --git a/bsr.go b/bsr.go
index 75f3309..6276431 100644
--- a/bsr.go
+++ b/bsr.go
@@ -27,8 +27,11 @@ import (
 // bsrElem is one binary subtree element. The slot's dot is "just past" the most
 // recently consumed symbol; that symbol spans [k,r] and the earlier prefix spans
 // [l,k]. A complete production (dot == len) records the nonterminal's extent.
+// rc is the count already consumed for a repetition's nonterminal (what it may
+// still derive depends on it) and 0 for any other.
 type bsrElem struct {
 	slot    slot
+	rc      int
 	l, k, r int
 }
 
@@ -89,14 +92,17 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 // when the consumed prefix has length >= 2 (an intermediate extent) or the
 // production is complete (dot == len). A length-1 prefix is degenerate (l == k)
 // and is reconstructed directly from the single symbol, so it is not stored.
-func (p *bsrParser) record(L slot, l, k, r int) {
+func (p *bsrParser) record(L slot, rc, l, k, r int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
 		if p.maxElems > 0 && len(p.set) >= p.maxElems {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		if !p.sg.nts[L.nt].isRep {
+			rc = 0
+		}
+		p.set[bsrElem{L, rc, l, k, r}] = true
 	}
 }
 
@@ -106,7 +112,7 @@ func (p *bsrParser) create(ret slot, u *bsrGNode, i, rc int) *bsrGNode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, rc, u.pos, i, j)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -122,7 +128,7 @@ func (p *bsrParser) pop(u *bsrGNode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, u.rc, v.pos, u.pos, j)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -223,11 +229,7 @@ func (p *bsrParser) process(d bsrDesc) {
 			ret := slot{L.nt, L.alt, L.dot + 1}
 			v := p.create(ret, u, i, rc)
 			if p.sg.nts[s.nt].isRep {
-				childRC := 0
-				if s.nt == L.nt {
-					childRC = capRC(rc, p.sg.nts[s.nt])
-				}
-				p.addRepAlts(s.nt, v, i, childRC)
+				p.addRepAlts(s.nt, v, i, p.sg.childRC(L.nt, s.nt, rc))
 			} else {
 				for ai := range p.sg.nts[s.nt].alts {
 					p.add(slot{s.nt, ai, 0}, v, i, 0)
@@ -240,7 +242,7 @@ func (p *bsrParser) process(d bsrDesc) {
 			return
 		}
 		next := slot{L.nt, L.alt, L.dot + 1}
-		p.record(next, u.pos, i, j)
+		p.record(next, rc, u.pos, i, j)
 		i = j
 		L = next
 	}
@@ -264,13 +266,14 @@ type BSRForest struct {
 
 type bsrKey struct {
 	slot slot
+	rc   int
 	l, r int
 }
 
 func (f *BSRForest) buildIndex() {
 	f.index = make(map[bsrKey][]int, len(f.set))
 	for e := range f.set {
-		k := bsrKey{e.slot, e.l, e.r}
+		k := bsrKey{e.slot, e.rc, e.l, e.r}
 		f.index[k] = append(f.index[k], e.k)
 	}
 }
@@ -280,7 +283,7 @@ func (f *BSRForest) buildIndex() {
 func (f *BSRForest) startElems() (slot, []int, bool) {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if ks := f.index[bsrKey{s, 0, f.n}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{s, 0, 0, f.n}]; len(ks) > 0 {
 			return s, ks, true
 		}
 	}
@@ -291,7 +294,7 @@ func (f *BSRForest) startElems() (slot, []int, bool) {
 func (f *BSRForest) Valid() bool {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if len(f.index[bsrKey{s, 0, f.n}]) > 0 {
+		if len(f.index[bsrKey{s, 0, 0, f.n}]) > 0 {
 			return true
 		}
 	}
@@ -306,6 +309,7 @@ type bsrNodeID struct {
 	inter bool
 	slot  slot // for intermediate nodes
 	nt    int  // for symbol nodes
+	rc    int
 	l, r  int
 }
 
@@ -320,20 +324,18 @@ func (f *BSRForest) NumTrees() *big.Int {
 	onStack := map[bsrNodeID]bool{}
 	infinite := false
 
-	var symWays func(s ssym, a, b int) *big.Int
-	var countSym func(nt, l, r int) *big.Int
-	var countInter func(sl slot, l, r int) *big.Int
-	var countElem func(sl slot, l, k, r int) *big.Int
-
-	symWays = func(s ssym, a, b int) *big.Int {
-		if s.kind == symNonterm {
-			return countSym(s.nt, a, b)
-		}
-		return big.NewInt(1) // terminal / eps leaf
-	}
+	var countSym func(nt, rc, l, r int) *big.Int
+	var countInter func(sl slot, rc, l, r int) *big.Int
+	var countElem func(sl slot, rc, l, k, r int) *big.Int
 
-	countElem = func(sl slot, l, k, r int) *big.Int {
+	countElem = func(sl slot, rc, l, k, r int) *big.Int {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
+		symWays := func(s ssym, a, b int) *big.Int {
+			if s.kind == symNonterm {
+				return countSym(s.nt, f.sg.childRC(sl.nt, s.nt, rc), a, b)
+			}
+			return big.NewInt(1) // terminal / eps leaf
+		}
 		last := symWays(prod[sl.dot-1], k, r)
 		var pre *big.Int
 		switch sl.dot {
@@ -342,13 +344,13 @@ func (f *BSRForest) NumTrees() *big.Int {
 		case 2: // single-symbol prefix
 			pre = symWays(prod[0], l, k)
 		default: // intermediate prefix
-			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, rc, l, k)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
 
-	countInter = func(sl slot, l, r int) *big.Int {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	countInter = func(sl slot, rc, l, r int) *big.Int {
+		id := bsrNodeID{inter: true, slot: sl, rc: rc, l: l, r: r}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -358,16 +360,16 @@ func (f *BSRForest) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range f.index[bsrKey{sl, l, r}] {
-			total.Add(total, countElem(sl, l, k, r))
+		for _, k := range f.index[bsrKey{sl, rc, l, r}] {
+			total.Add(total, countElem(sl, rc, l, k, r))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
 
-	countSym = func(nt, l, r int) *big.Int {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	countSym = func(nt, rc, l, r int) *big.Int {
+		id := bsrNodeID{nt: nt, rc: rc, l: l, r: r}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -379,8 +381,8 @@ func (f *BSRForest) NumTrees() *big.Int {
 		total := big.NewInt(0)
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				total.Add(total, countElem(sl, l, k, r))
+			for _, k := range f.index[bsrKey{sl, rc, l, r}] {
+				total.Add(total, countElem(sl, rc, l, k, r))
 			}
 		}
 		onStack[id] = false
@@ -388,7 +390,7 @@ func (f *BSRForest) NumTrees() *big.Int {
 		return total
 	}
 
-	res := countSym(f.start, 0, f.n)
+	res := countSym(f.start, 0, 0, f.n)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -402,18 +404,18 @@ func (f *BSRForest) Ambiguous() bool {
 	}
 	visited := map[bsrNodeID]bool{}
 
-	var symAmb func(nt, l, r int) bool
-	var interAmb func(sl slot, l, r int) bool
-	var elemAmb func(sl slot, l, k, r int) bool
+	var symAmb func(nt, rc, l, r int) bool
+	var interAmb func(sl slot, rc, l, r int) bool
+	var elemAmb func(sl slot, rc, l, k, r int) bool
 
-	symOf := func(s ssym, a, b int) bool {
-		if s.kind == symNonterm {
-			return symAmb(s.nt, a, b)
-		}
-		return false
-	}
-	elemAmb = func(sl slot, l, k, r int) bool {
+	elemAmb = func(sl slot, rc, l, k, r int) bool {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
+		symOf := func(s ssym, a, b int) bool {
+			if s.kind == symNonterm {
+				return symAmb(s.nt, f.sg.childRC(sl.nt, s.nt, rc), a, b)
+			}
+			return false
+		}
 		if symOf(prod[sl.dot-1], k, r) {
 			return true
 		}
@@ -423,28 +425,28 @@ func (f *BSRForest) Ambiguous() bool {
 		case 2:
 			return symOf(prod[0], l, k)
 		default:
-			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, rc, l, k)
 		}
 	}
-	interAmb = func(sl slot, l, r int) bool {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	interAmb = func(sl slot, rc, l, r int) bool {
+		id := bsrNodeID{inter: true, slot: sl, rc: rc, l: l, r: r}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := f.index[bsrKey{sl, l, r}]
+		ks := f.index[bsrKey{sl, rc, l, r}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, r) {
+			if elemAmb(sl, rc, l, k, r) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, r int) bool {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	symAmb = func(nt, rc, l, r int) bool {
+		id := bsrNodeID{nt: nt, rc: rc, l: l, r: r}
 		if visited[id] {
 			return false
 		}
@@ -452,7 +454,7 @@ func (f *BSRForest) Ambiguous() bool {
 		packs := 0
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			ks := f.index[bsrKey{sl, l, r}]
+			ks := f.index[bsrKey{sl, rc, l, r}]
 			packs += len(ks)
 		}
 		if packs > 1 {
@@ -460,15 +462,15 @@ func (f *BSRForest) Ambiguous() bool {
 		}
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				if elemAmb(sl, l, k, r) {
+			for _, k := range f.index[bsrKey{sl, rc, l, r}] {
+				if elemAmb(sl, rc, l, k, r) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(f.start, 0, f.n)
+	return symAmb(f.start, 0, 0, f.n)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -490,7 +492,7 @@ func (f *BSRForest) Tree() *ParseTree {
 // complete-production slot sl with pivot k.
 func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]bool) *ParseTree {
 	var kids []*ParseTree
-	f.collectElem(sl, l, k, r, &kids, visited)
+	f.collectElem(sl, 0, l, k, r, &kids, visited)
 	info := f.sg.nts[nt]
 	if !info.isRule {
 		// synthetic (group/option/rep): splice children into the parent
@@ -499,27 +501,27 @@ func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]
 	return &ParseTree{Rule: info.ruleName, Start: l, End: r, Children: kids}
 }
 
-// collectElem appends the children of element (sl,l,k,r) into out, flattening
+// collectElem appends the children of element (sl,rc,l,k,r) into out, flattening
 // intermediate extents and synthetic nonterminals.
-func (f *BSRForest) collectElem(sl slot, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectElem(sl slot, rc, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	prod := f.sg.nts[sl.nt].alts[sl.alt]
 	// prefix x_1..x_{dot-1} over [l,k]
 	switch sl.dot {
 	case 1:
 		// empty
 	case 2:
-		f.collectChild(prod[0], l, k, out, visited)
+		f.collectChild(prod[0], f.sg.childRC(sl.nt, prod[0].nt, rc), l, k, out, visited)
 	default:
 		isl := slot{sl.nt, sl.alt, sl.dot - 1}
-		if ks := f.index[bsrKey{isl, l, k}]; len(ks) > 0 {
-			f.collectElem(isl, l, ks[0], k, out, visited)
+		if ks := f.index[bsrKey{isl, rc, l, k}]; len(ks) > 0 {
+			f.collectElem(isl, rc, l, ks[0], k, out, visited)
 		}
 	}
 	// last symbol x_{dot} over [k,r]
-	f.collectChild(prod[sl.dot-1], k, r, out, visited)
+	f.collectChild(prod[sl.dot-1], f.sg.childRC(sl.nt, prod[sl.dot-1].nt, rc), k, r, out, visited)
 }
 
-func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectChild(s ssym, rc, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	if s.kind != symNonterm {
 		if s.kind == symEps {
 			return // epsilon contributes no leaf
@@ -527,7 +529,7 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := bsrNodeID{nt: s.nt, l: a, r: b}
+	id := bsrNodeID{nt: s.nt, rc: rc, l: a, r: b}
 	if visited[id] {
 		return
 	}
@@ -535,15 +537,15 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 	// pick the first complete-production element for this nonterminal extent
 	for ai, prod := range f.sg.nts[s.nt].alts {
 		csl := slot{s.nt, ai, len(prod)}
-		if ks := f.index[bsrKey{csl, a, b}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{csl, rc, a, b}]; len(ks) > 0 {
 			info := f.sg.nts[s.nt]
 			if info.isRule {
 				var kids []*ParseTree
-				f.collectElem(csl, a, ks[0], b, &kids, visited)
+				f.collectElem(csl, rc, a, ks[0], b, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: info.ruleName, Start: a, End: b, Children: kids})
 			} else {
 				// synthetic: splice its children directly into the parent
-				f.collectElem(csl, a, ks[0], b, out, visited)
+				f.collectElem(csl, rc, a, ks[0], b, out, visited)
 			}
 			visited[id] = false
 			return
diff --git a/sppf.go b/sppf.go
index bc2374d..9350d22 100644
--- a/sppf.go
+++ b/sppf.go
@@ -323,11 +323,14 @@ type gllParser struct {
 }
 
 // nodeKey interns SPPF nodes without allocating strings. Distinct kinds never
-// collide: symbol nodes key on (kind,nt,start,end); intermediate nodes on
-// (kind,L,start,end); terminal nodes on (kind,start,end).
+// collide: symbol nodes key on (kind,nt,start,end), plus the count already
+// consumed for a repetition's nonterminal (what it may still derive depends on
+// it); intermediate nodes on (kind,L,start,end); terminal nodes on
+// (kind,start,end).
 type nodeKey struct {
 	kind       gnodeKind
 	nt         int
+	rc         int
 	L          slot
 	start, end int
 }
@@ -364,7 +367,7 @@ func (p *gllParser) create(L slot, u *gssNode, i int, w *gnode, rc int) *gssNode
 		v.edgeSet[e] = true
 		v.edges = append(v.edges, e)
 		for z := range p.popped[v] {
-			y := p.getNodeP(L, w, z)
+			y := p.getNodeP(L, w, z, rc)
 			p.add(L, u, z.End, y, rc)
 		}
 	}
@@ -380,7 +383,7 @@ func (p *gllParser) pop(u *gssNode, i int, z *gnode) {
 	}
 	p.popped[u][z] = true
 	for _, e := range u.edges {
-		y := p.getNodeP(u.ret, e.w, z)
+		y := p.getNodeP(u.ret, e.w, z, u.rc)
 		p.add(u.ret, e.to, i, y, u.rc)
 	}
 }
@@ -401,8 +404,9 @@ func (p *gllParser) getNodeT(start, end int) *gnode {
 	return p.findNode(nodeKey{kind: gTerm, nt: -1, start: start, end: end})
 }
 
-// getNodeP combines left node w (may be nil == $) and right node z under slot L.
-func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
+// getNodeP combines left node w (may be nil == $) and right node z under slot L,
+// in a frame at repetition count rc.
+func (p *gllParser) getNodeP(L slot, w, z *gnode, rc int) *gnode {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	betaEmpty := L.dot == len(prod)
 	if L.dot == 1 && !betaEmpty {
@@ -415,6 +419,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	var k nodeKey
 	if betaEmpty {
 		k = nodeKey{kind: gSymbol, nt: L.nt, start: start, end: z.End}
+		if p.sg.nts[L.nt].isRep {
+			k.rc = rc
+		}
 	} else {
 		k = nodeKey{kind: gInter, nt: -1, L: L, start: start, end: z.End}
 	}
@@ -527,14 +534,7 @@ func (p *gllParser) process(d descriptor) {
 			// that when it returns we resume the loop with the right count.
 			v := p.create(ret, u, i, w, rc)
 			if p.sg.nts[s.nt].isRep {
-				// Native counted repetition: a self-reference inside the rep's own
-				// loop alternate continues the chain (count+1); any other reference
-				// starts a fresh chain at count 0.
-				childRC := 0
-				if s.nt == L.nt {
-					childRC = capRC(rc, p.sg.nts[s.nt])
-				}
-				p.addRepAlts(s.nt, v, i, childRC)
+				p.addRepAlts(s.nt, v, i, p.sg.childRC(L.nt, s.nt, rc))
 			} else {
 				for ai := range p.sg.nts[s.nt].alts {
 					p.add(slot{s.nt, ai, 0}, v, i, nil, 0)
@@ -549,7 +549,7 @@ func (p *gllParser) process(d descriptor) {
 		}
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
-		w = p.getNodeP(next, w, cR)
+		w = p.getNodeP(next, w, cR, rc)
 		i = j
 		L = next
 	}
@@ -594,6 +594,16 @@ func capRC(rc int, nt *sgNT) int {
 	return next
 }
 
+// childRC returns the count at which nonterminal child is entered from a frame of
+// nonterminal parent at count rc: a self-reference inside a repetition's own loop
+// alternate continues the chain (count+1); any other reference starts at 0.
+func (sg *slotGrammar) childRC(parent, child, rc int) int {
+	if child == parent && sg.nts[child].isRep {
+		return capRC(rc, sg.nts[child])
+	}
+	return 0
+}
+
 // addRepAlts seeds the two alternates of a repetition nonterminal, gated by the
 // current count rc: it may stop (alt 0) only once the minimum is met, and may
 // consume another element (alt 1) only while under the maximum. This enforces
-- 
2.43.0


From 5c413ede8ab93371078efe95a2e014fc6387551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:38 +0000
Subject: [PATCH 07/24] fix: report trailing input at the offset where it
 starts

ParseError.Offset is the furthest position reached, but only failed terminal
matches advanced it: r = "a" on "ab" reported offset 0, unexpected "a".
---
 sppf.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sppf.go b/sppf.go
index 9350d22..feae5fa 100644
--- a/sppf.go
+++ b/sppf.go
@@ -313,8 +313,8 @@ type gllParser struct {
 	maxNodes int
 	aborted  bool
 
-	// Furthest-failure diagnostics: maxPos is the deepest input offset at which
-	// a terminal match was attempted and failed; expected collects the terminals
+	// Furthest-failure diagnostics: maxPos is the deepest input offset reached by
+	// the parse; expected collects the terminals
 	// that could have been consumed there (deduplicated via expectedSeen). They
 	// drive ParseError when the parse has no solution.
 	maxPos       int
@@ -547,6 +547,7 @@ func (p *gllParser) process(d descriptor) {
 			p.noteFail(i, s)
 			return
 		}
+		p.noteReached(j)
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
 		w = p.getNodeP(next, w, cR, rc)
@@ -555,16 +556,22 @@ func (p *gllParser) process(d descriptor) {
 	}
 }
 
-// noteFail records that a terminal match failed at input offset i. It maintains
-// the furthest such offset and, for that offset only, the set of terminals that
-// could have been consumed -- the classic "furthest-failure" position used to
-// report where parsing got stuck.
-func (p *gllParser) noteFail(i int, s ssym) {
+// noteReached records that the parse got to input offset i, so that trailing
+// input is reported where it starts even though no terminal was attempted there.
+func (p *gllParser) noteReached(i int) {
 	if i > p.maxPos {
 		p.maxPos = i
 		p.expected = p.expected[:0]
 		p.expectedSeen = nil
 	}
+}
+
+// noteFail records that a terminal match failed at input offset i. It maintains
+// the furthest such offset and, for that offset only, the set of terminals that
+// could have been consumed -- the classic "furthest-failure" position used to
+// report where parsing got stuck.
+func (p *gllParser) noteFail(i int, s ssym) {
+	p.noteReached(i)
 	if i != p.maxPos {
 		return
 	}
-- 
2.43.0


From 064dfb1fecf946ef6edb952c5cecc2c44ec29e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:52 +0000
Subject: [PATCH 08/24] fix: count a rule referring to itself as a cycle in
 IsDAG

---
 dag.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dag.go b/dag.go
index eca2021..deec3b2 100644
--- a/dag.go
+++ b/dag.go
@@ -89,7 +89,8 @@ func (g *Grammar) IsDAG() bool {
 	scc.find()
 
 	for _, sccs := range scc.sccs {
-		if len(sccs) > 1 {
+		// A rule referring to itself is a cycle too, although its SCC is trivial.
+		if len(sccs) > 1 || slices.Contains(sccs[0].Dependencies, strings.ToLower(sccs[0].Rulename)) {
 			return false
 		}
 	}
-- 
2.43.0


From 4412ebe1e5116bf149f274c10269d5d0ef12b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:01 +0000
Subject: [PATCH 09/24] fix: tell = from =/ by the operator, not by comments
 next to it

---
 grammar.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 8b3932a..376be05 100644
--- a/grammar.go
+++ b/grammar.go
@@ -200,8 +200,16 @@ func (e *feval) rule(t *ParseTree) (*Rule, string, error) {
 	if nameNode == nil || defNode == nil || elemsNode == nil {
 		return nil, "", ErrNoSolutionFound
 	}
+	// The operator follows the leading white space, whose comments may contain
+	// anything.
+	op := defNode.Start
+	for _, c := range ptChildren(defNode, "c-wsp") {
+		if c.Start == op {
+			op = c.End
+		}
+	}
 	definedAs := "="
-	if strings.Contains(e.span(defNode), "=/") {
+	if strings.HasPrefix(string(e.input[op:defNode.End]), "=/") {
 		definedAs = "=/"
 	}
 	altNode := ptFirst(elemsNode, "alternation")
-- 
2.43.0


From d073bfc79aa4b3c42e8e221565966f190b99f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:01 +0000
Subject: [PATCH 10/24] fix: do not modify the shared core rule when a grammar
 extends it

---
 grammar.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grammar.go b/grammar.go
index 376be05..241f026 100644
--- a/grammar.go
+++ b/grammar.go
@@ -186,6 +186,12 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 			if rule == nil {
 				return nil, &ErrRuleNotFound{Rulename: rl.Name}
 			}
+			if getRuleIn(rl.Name, mp) == nil {
+				// Extend a copy: the core rule is shared by all grammars.
+				rule = &Rule{Name: rule.Name, Alternation: Alternation{
+					Concatenations: slices.Clone(rule.Alternation.Concatenations),
+				}}
+			}
 			rule.Alternation.Concatenations = append(rule.Alternation.Concatenations, rl.Alternation.Concatenations...)
 			mp[rule.Name] = rule
 		}
-- 
2.43.0


From 0013921dff08f7d154e14c534f8b26c27c064c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:52 +0000
Subject: [PATCH 11/24] fix: report a core rule redefined twice as duplicated

---
 grammar.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 241f026..dac8599 100644
--- a/grammar.go
+++ b/grammar.go
@@ -169,11 +169,10 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 		switch definedAs {
 		case "=":
 			isCoreRule := GetRule(rl.Name, nil) != nil
-			if isCoreRule {
-				if !e.o.redefineCore {
-					return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
-				}
-			} else if GetRule(rl.Name, mp) != nil {
+			if isCoreRule && !e.o.redefineCore {
+				return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
+			}
+			if getRuleIn(rl.Name, mp) != nil {
 				return nil, &ErrDuplicatedRule{Rulename: rl.Name}
 			}
 			mp[rl.Name] = rl
-- 
2.43.0


From af5001a4a48767d6ade46f4da51aeb47fe87f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:43 +0000
Subject: [PATCH 12/24] fix: chain the values of a num-val series deflated in a
 transition graph

---
 transition_graph.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index 12b74d8..1d4eab7 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1382,14 +1382,18 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 			if err := m.reserve(len(v.Elems)); err != nil {
 				return nil, nil, err
 			}
-			for _, s := range v.Elems {
+			for i, s := range v.Elems {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
 					Elems:  []string{s},
 				})
-				entrypoints = append(entrypoints, n)
-				endpoints = append(endpoints, n)
+				if i == 0 {
+					entrypoints = []*Node{n}
+				} else {
+					endpoints[0].Nexts = []*Node{n}
+				}
+				endpoints = []*Node{n}
 			}
 		}
 		return
-- 
2.43.0


From b1c89712d4db322f7cc250ccfe226438a0aa6c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:43 +0000
Subject: [PATCH 13/24] fix: keep transition graphs to characters a num-val can
 match

Surrogates were emitted as U+FFFD, and a num-val no text can match stood for
the empty string.
---
 transition_graph.go | 46 ++++++++++++++++---------------------
 utils.go            | 56 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 76 insertions(+), 26 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index 1d4eab7..4a19b07 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -5,7 +5,6 @@ import (
 	"slices"
 	"sort"
 	"strings"
-	"unicode/utf8"
 
 	uuid "github.com/hashicorp/go-uuid"
 )
@@ -921,17 +920,10 @@ func nodeEmit(node *Node, tpos int32) (prod []byte, vtotal int32) {
 			}
 			return prod, 1
 		case StatRange:
-			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// The graph operates over runes; clamp to the Unicode range so an
-			// out-of-range bound cannot overflow the int32 count below.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
-				return nil, 1 // no representable character in this range
-			}
-			r := rune(min + tpos)
-			return []byte(string(r)), max - min + 1
+			// The graph operates over runes, so keep to the representable
+			// (Unicode) subset.
+			first, n := scalarRange(v)
+			return []byte(string(scalarAt(first, tpos))), n
 		}
 	}
 	return nil, 1
@@ -989,6 +981,11 @@ func (m *tgmachine) concatGraph(concat Concatenation) (entrypoints []*Node, endp
 }
 
 func concatTransitionGraphs(prevI, prevO, currI, currO []*Node) (entrypoints []*Node, endpoints []*Node) {
+	// Nothing can be concatenated to what matches nothing.
+	if len(prevI) == 0 || len(currI) == 0 {
+		return nil, nil
+	}
+
 	// If prevI contains the emptyNode it means currI (possibly with
 	// the emptyNode) is also part of the entrypoints (without prevI's
 	// emptyNode).
@@ -1343,6 +1340,11 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 		return
 
 	case ElemNumVal:
+		// No text matches it: it has no node to travel through.
+		if !matchable(v) {
+			return
+		}
+
 		if !m.options.deflateNumVals {
 			if err := m.reserve(1); err != nil {
 				return nil, nil, err
@@ -1354,25 +1356,17 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 		}
 		switch v.Status {
 		case StatRange:
-			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// One node is enumerated per rune; clamp to the Unicode range so an
-			// out-of-range bound cannot overflow the count (int32) and bypass the
-			// node budget, which would turn this loop into a DoS. A range wholly
-			// above U+10FFFF contributes no node (it matches nothing).
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
-				return
-			}
-			if err := m.reserve(int(max - min + 1)); err != nil {
+			// One node is enumerated per representable (Unicode) character, so
+			// the node budget always bounds this loop.
+			first, count := scalarRange(v)
+			if err := m.reserve(int(count)); err != nil {
 				return nil, nil, err
 			}
-			for i := min; i <= max; i++ {
+			for i := range count {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
-					Elems:  []string{int32ToNumval(i, v.Base)},
+					Elems:  []string{int32ToNumval(scalarAt(first, i), v.Base)},
 				})
 				entrypoints = append(entrypoints, n)
 				endpoints = append(endpoints, n)
diff --git a/utils.go b/utils.go
index dcc9e6d..d22f658 100644
--- a/utils.go
+++ b/utils.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // int32ToNumval converts an integer value into its numeric-string representation
@@ -75,6 +76,61 @@ func numvalToRune(str, base string) rune {
 	return rune(numvalToInt32(str, base))
 }
 
+// First and last code points of the surrogates area, which are not characters
+// (no valid UTF-8 text contains them).
+const (
+	surrogateMin = 0xD800
+	surrogateMax = 0xDFFF
+)
+
+// scalarRange returns the characters (Unicode scalar values) a num-val range
+// covers: the lowest one, and how many there are (zero if none). The i-th is
+// given by scalarAt.
+func scalarRange(v ElemNumVal) (first rune, n int32) {
+	min, max := numvalToRune(v.Elems[0], v.Base), numvalToRune(v.Elems[1], v.Base)
+	if max > utf8.MaxRune {
+		max = utf8.MaxRune
+	}
+	if min >= surrogateMin && min <= surrogateMax {
+		min = surrogateMax + 1
+	}
+	if max >= surrogateMin && max <= surrogateMax {
+		max = surrogateMin - 1
+	}
+	if min > max {
+		return min, 0
+	}
+	n = max - min + 1
+	if min < surrogateMin && max > surrogateMax {
+		n -= surrogateMax - surrogateMin + 1
+	}
+	return min, n
+}
+
+// scalarAt returns the i-th character from first, surrogates not counted.
+func scalarAt(first rune, i int32) rune {
+	r := first + i
+	if first < surrogateMin && r >= surrogateMin {
+		r += surrogateMax - surrogateMin + 1
+	}
+	return r
+}
+
+// matchable returns whether any text matches the num-val, i.e. whether it
+// denotes real characters only.
+func matchable(v ElemNumVal) bool {
+	if v.Status == StatRange {
+		_, n := scalarRange(v)
+		return n > 0
+	}
+	for _, e := range v.Elems {
+		if !utf8.ValidRune(numvalToRune(e, v.Base)) {
+			return false
+		}
+	}
+	return true
+}
+
 // checkBounds enforces the Unicode-range invariant (value <= U+10FFFF). It is
 // the strict-validation path used by SemvalABNF: with validation enabled (the
 // default, and the common textual case) a num-val outside the Unicode range is
-- 
2.43.0


From 072a8b29b7a06ee6d30bd3d8d8cde4551fa30041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 14/24] fix: make ExpectedNext exact on multi-byte ranges, and
 refuse empty languages in NewGenerator

---
 fuzz.go | 57 ++++++++++++++++++++++-----------------------------------
 1 file changed, 22 insertions(+), 35 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index e8d79ff..2b1a4b6 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -253,6 +253,9 @@ func NewGenerator(tg *TransitionGraph, opts ...GenOption) (*Generator, error) {
 			g.entries = append(g.entries, e)
 		}
 	}
+	if len(g.entries) == 0 {
+		return nil, fmt.Errorf("transition graph of rule %q has no production", tg.rulename)
+	}
 	return g, nil
 }
 
@@ -444,7 +447,7 @@ func (g *Generator) nearMissCandidates(src source, base []byte, trace []traceSeg
 			{rune(nv.min - 1), "below"},
 			{rune(nv.max + 1), "above"},
 		} {
-			if b.r < 0 || b.r > 0x10FFFF {
+			if !utf8.ValidRune(b.r) {
 				continue
 			}
 			cand := cloneBytes(base)
@@ -557,7 +560,7 @@ func (s octetSet) bytes() []byte {
 
 // emission is one fixed-length alternative of a node's output: pos[j] is the set
 // of octets the node may emit at byte offset j. A node usually has exactly one
-// emission; a num-val range that spans several UTF-8 lengths has one per length.
+// emission; a num-val range beyond ASCII has one per leading octets.
 type emission struct {
 	pos []octetSet
 }
@@ -627,42 +630,26 @@ func nodeEmissions(n *Node) ([]emission, bool) {
 			}
 			return []emission{e}, true
 		case StatRange:
-			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// Clamp to the Unicode range first: otherwise an out-of-range bound
-			// near MaxInt32 overflows the int32 count below, bypasses the cap
-			// guard, and turns the enumeration loop into a DoS. A range wholly
-			// above U+10FFFF emits nothing.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
+			first, n := scalarRange(v)
+			if n > expectedNextRangeCap {
 				return nil, false
 			}
-			if max <= 0x7f { // ASCII: a single one-octet emission
-				var s octetSet
-				for b := min; b <= max && b <= 0x7f; b++ { // explicit ASCII bound for the conversion
-					s.add(byte(b))
-				}
-				return []emission{{pos: []octetSet{s}}}, true
-			}
-			if max-min+1 > expectedNextRangeCap {
-				return nil, false
-			}
-			byLen := map[int]*emission{}
-			for r := min; r <= max; r++ {
-				bs := []byte(string(rune(r)))
-				e := byLen[len(bs)]
-				if e == nil {
-					e = &emission{pos: make([]octetSet, len(bs))}
-					byLen[len(bs)] = e
-				}
-				for j, b := range bs {
-					e.pos[j].add(b)
+			// Octets of a multi-byte character are not independent of each
+			// other, so have one emission per leading octets.
+			var out []emission
+			last := ""
+			for i := range n {
+				bs := []byte(string(scalarAt(first, i)))
+				lead := bs[:len(bs)-1]
+				if len(out) == 0 || string(lead) != last {
+					e := emission{pos: make([]octetSet, len(bs))}
+					for j, b := range lead {
+						e.pos[j].add(b)
+					}
+					out = append(out, e)
+					last = string(lead)
 				}
-			}
-			out := make([]emission, 0, len(byLen))
-			for _, e := range byLen {
-				out = append(out, *e)
+				out[len(out)-1].pos[len(lead)].add(bs[len(lead)])
 			}
 			return out, true
 		}
-- 
2.43.0


From a3148d2dd3e051d54dae9ed89e4ef49194927af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 15/24] fix: have the AST generator emit only productions the
 rule admits, and terminate

It skipped prose-vals and num-vals no text can match, treated a repetition
with min > max as unbounded, emitted surrogates as U+FFFD, and expanded nullable
recursive rules exponentially.
---
 ast.go | 151 ++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 86 insertions(+), 65 deletions(-)

diff --git a/ast.go b/ast.go
index 5b5adc6..7741ba4 100644
--- a/ast.go
+++ b/ast.go
@@ -3,7 +3,6 @@ package goabnf
 import (
 	"fmt"
 	"math/rand"
-	"unicode/utf8"
 )
 
 // Generates strings by recursive descent over the grammar AST, so unlike the*
@@ -22,6 +21,11 @@ import (
 
 const astUnbounded = 1 << 30 // "infinite" min-length sentinel (non-productive)
 
+// astMaxExpansions is a hard backstop on the number of rules expanded before
+// steering to terminate: neither depth nor length stops a rule such as
+// r = r r / "" from being expanded exponentially many times.
+const astMaxExpansions = 100_000
+
 // ASTGenerator generates strings admitted by a (possibly recursive) grammar
 // rule, directly from the AST.
 type ASTGenerator struct {
@@ -91,35 +95,7 @@ func NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerat
 		o.apply(ag)
 	}
 
-	// Least-fixpoint of minimum expansion cost over every rule reachable in
-	// principle -- user rules and the built-in core rules (ALPHA, DIGIT, ...),
-	// which GetRule resolves as a fallback but which are absent from Rulemap.
-	// Keyed by canonical rule name (GetRule is case-insensitive and honors user
-	// overrides of core rules). A rule stuck at the sentinel is non-productive.
-	effective := map[string]*Rule{}
-	for n := range g.Rulemap {
-		if r := GetRule(n, g.Rulemap); r != nil {
-			effective[r.Name] = r
-		}
-	}
-	for n := range coreRules {
-		if r := GetRule(n, g.Rulemap); r != nil {
-			effective[r.Name] = r
-		}
-	}
-	ag.minCost = make(map[string]int, len(effective))
-	for name := range effective {
-		ag.minCost[name] = astUnbounded
-	}
-	for changed := true; changed; {
-		changed = false
-		for name, r := range effective {
-			if c := ag.costAlt(r.Alternation); c < ag.minCost[name] {
-				ag.minCost[name] = c
-				changed = true
-			}
-		}
-	}
+	ag.computeCosts()
 
 	// Every rule reachable from start must be defined and productive.
 	seen := map[string]bool{start.Name: true}
@@ -165,6 +141,40 @@ func NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerat
 	return ag, nil
 }
 
+// computeCosts fills minCost for every rule.
+func (ag *ASTGenerator) computeCosts() {
+	g := ag.g
+	// Least-fixpoint of minimum expansion cost over every rule reachable in
+	// principle -- user rules and the built-in core rules (ALPHA, DIGIT, ...),
+	// which GetRule resolves as a fallback but which are absent from Rulemap.
+	// Keyed by canonical rule name (GetRule is case-insensitive and honors user
+	// overrides of core rules). A rule stuck at the sentinel is non-productive.
+	effective := map[string]*Rule{}
+	for n := range g.Rulemap {
+		if r := GetRule(n, g.Rulemap); r != nil {
+			effective[r.Name] = r
+		}
+	}
+	for n := range coreRules {
+		if r := GetRule(n, g.Rulemap); r != nil {
+			effective[r.Name] = r
+		}
+	}
+	ag.minCost = make(map[string]int, len(effective))
+	for name := range effective {
+		ag.minCost[name] = astUnbounded
+	}
+	for changed := true; changed; {
+		changed = false
+		for name, r := range effective {
+			if c := ag.costAlt(r.Alternation); c < ag.minCost[name] {
+				ag.minCost[name] = c
+				changed = true
+			}
+		}
+	}
+}
+
 // Generate maps the tape to a production the grammar admits. Total and
 // deterministic: any tape (including nil) yields a valid production; an
 // exhausted tape biases toward the shortest one.
@@ -178,19 +188,25 @@ func (ag *ASTGenerator) GenerateRand(r *rand.Rand) []byte {
 }
 
 func (ag *ASTGenerator) walk(src source) []byte {
-	out := []byte{}
-	ag.genAlt(src, &out, ag.start.Alternation, 0)
-	return out
+	out := &astOutput{bytes: []byte{}}
+	ag.genAlt(src, out, ag.start.Alternation, 0)
+	return out.bytes
+}
+
+// astOutput is the production being generated.
+type astOutput struct {
+	bytes      []byte
+	expansions int // rules expanded so far
 }
 
 // over reports whether we should stop taking expansions for their own sake and
 // steer toward the nearest terminal string.
-func (ag *ASTGenerator) over(out *[]byte, depth int) bool {
-	return depth >= ag.maxDepth || len(*out) >= ag.maxLen
+func (ag *ASTGenerator) over(out *astOutput, depth int) bool {
+	return depth >= ag.maxDepth || len(out.bytes) >= ag.maxLen || out.expansions >= astMaxExpansions
 }
 
-func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth int) {
-	cs := alt.Concatenations
+func (ag *ASTGenerator) genAlt(src source, out *astOutput, alt Alternation, depth int) {
+	cs := ag.viable(alt.Concatenations)
 	if len(cs) == 0 {
 		return
 	}
@@ -203,18 +219,32 @@ func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth i
 	ag.genConcat(src, out, cs[idx], depth)
 }
 
-func (ag *ASTGenerator) genConcat(src source, out *[]byte, concat Concatenation, depth int) {
+// viable returns the concatenations that can derive some finite string.
+func (ag *ASTGenerator) viable(cs []Concatenation) []Concatenation {
+	out := make([]Concatenation, 0, len(cs))
+	for _, c := range cs {
+		if ag.costConcat(c) < astUnbounded {
+			out = append(out, c)
+		}
+	}
+	return out
+}
+
+func (ag *ASTGenerator) genConcat(src source, out *astOutput, concat Concatenation, depth int) {
 	for _, rep := range concat.Repetitions {
 		ag.genRep(src, out, rep, depth)
 	}
 }
 
-func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth int) {
+func (ag *ASTGenerator) genRep(src source, out *astOutput, rep Repetition, depth int) {
 	lo := rep.Min
 	hi := rep.Max
-	if hi == inf || hi < lo { // unbounded: cap the optional unrolling
+	if hi == inf { // unbounded: cap the optional unrolling
 		hi = lo + ag.maxRepeat
 	}
+	if ag.costElem(rep.Element) >= astUnbounded {
+		return // can only be repeated zero times, else it would not be viable
+	}
 	n := lo
 	if !ag.over(out, depth) && hi > lo {
 		n = lo + src.intn(hi-lo+1)
@@ -222,16 +252,17 @@ func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth in
 	for i := 0; i < n; i++ {
 		ag.genElem(src, out, rep.Element, depth)
 		// Stop optional extras once over length, but always emit the mandatory lo.
-		if i+1 >= lo && len(*out) >= ag.maxLen {
+		if i+1 >= lo && ag.over(out, depth) {
 			break
 		}
 	}
 }
 
-func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int) {
+func (ag *ASTGenerator) genElem(src source, out *astOutput, elem ElemItf, depth int) {
 	switch e := elem.(type) {
 	case ElemRulename:
 		// Guaranteed defined+productive by NewASTGenerator.
+		out.expansions++
 		r := GetRule(e.Name, ag.g.Rulemap)
 		ag.genAlt(src, out, r.Alternation, depth+1)
 
@@ -239,7 +270,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 		ag.genAlt(src, out, e.Alternation, depth)
 
 	case ElemOption:
-		if !ag.over(out, depth) && src.intn(2) == 1 {
+		if !ag.over(out, depth) && ag.costAlt(e.Alternation) < astUnbounded && src.intn(2) == 1 {
 			ag.genAlt(src, out, e.Alternation, depth)
 		}
 
@@ -248,38 +279,22 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 			if !e.Sensitive && isASCIILetter(r) && src.intn(2) == 1 {
 				r = flipASCIICase(r)
 			}
-			*out = append(*out, []byte(string(r))...)
+			out.bytes = append(out.bytes, []byte(string(r))...)
 		}
 
 	case ElemNumVal:
 		switch e.Status {
 		case StatSeries:
 			for _, v := range e.Elems {
-				r := numvalToRune(v, e.Base)
-				// Emit only real characters; an out-of-range value cannot appear
-				// in UTF-8 input, so the series would never match anyway.
-				if utf8.ValidRune(r) {
-					*out = append(*out, []byte(string(r))...)
-				}
+				out.bytes = append(out.bytes, []byte(string(numvalToRune(v, e.Base)))...)
 			}
 		case StatRange:
-			min, max := numvalToRune(e.Elems[0], e.Base), numvalToRune(e.Elems[1], e.Base)
 			// Emit within the representable (Unicode) subset of the range.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
-				break // nothing representable to emit
-			}
-			span := int(max-min) + 1
-			if span < 1 {
-				span = 1
-			}
-			*out = append(*out, []byte(string(min+rune(src.intn(span))))...)
+			first, n := scalarRange(e)
+			out.bytes = append(out.bytes, []byte(string(scalarAt(first, int32(src.intn(int(n))))))...)
 		}
 
-	case ElemProseVal:
-		// prose-val is informal text; nothing mechanical to emit.
+		// Unmatchable num-vals and prose-val are never viable.
 	}
 }
 
@@ -313,6 +328,9 @@ func (ag *ASTGenerator) costAlt(alt Alternation) int {
 func (ag *ASTGenerator) costConcat(concat Concatenation) int {
 	total := 0
 	for _, rep := range concat.Repetitions {
+		if rep.Max != inf && rep.Min > rep.Max {
+			return astUnbounded // no count satisfies it
+		}
 		total = addClamp(total, mulClamp(rep.Min, ag.costElem(rep.Element)))
 	}
 	return total
@@ -340,6 +358,9 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 	case ElemCharVal:
 		return len(string(e.Values))
 	case ElemNumVal:
+		if !matchable(e) {
+			return astUnbounded
+		}
 		switch e.Status {
 		case StatSeries:
 			n := 0
@@ -351,7 +372,7 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 			return len(string(numvalToRune(e.Elems[0], e.Base)))
 		}
 	case ElemProseVal:
-		return 0
+		return astUnbounded // informal text; nothing mechanical to emit
 	}
 	return 0
 }
-- 
2.43.0


From 19a56ccb26aafc42da1341ae92d66db6bb9fbc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 16/24] fix: have Generate emit only productions the rule
 admits, and terminate

It divided by zero on minimums above the maximum repetitions, dereferenced
undefined rules, took alternatives with a prose-val or a num-val no text can match,
and could recurse forever.
---
 generate.go | 86 +++++++++++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 42 deletions(-)

diff --git a/generate.go b/generate.go
index 179db93..70eec84 100644
--- a/generate.go
+++ b/generate.go
@@ -2,10 +2,10 @@ package goabnf
 
 import (
 	"errors"
+	"fmt"
 	"maps"
 	"math/rand"
 	"strings"
-	"unicode/utf8"
 )
 
 // Generate is an experimental feature that consumes a seed for
@@ -37,59 +37,61 @@ func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption)
 
 	// Generate actual content (rule exists, checked first)
 	rule := GetRule(rulename, g.Rulemap)
-	out := []byte{}
-	generateAlt(rand, g, &out, rule.Alternation, options)
-	return out, nil
+	costs := &ASTGenerator{g: g}
+	costs.computeCosts()
+	if costs.costAlt(rule.Alternation) >= astUnbounded {
+		return nil, fmt.Errorf("rule %q cannot derive any string", rulename)
+	}
+	out := &astOutput{bytes: []byte{}}
+	generateAlt(rand, costs, out, rule.Alternation, options)
+	return out.bytes, nil
 }
 
-func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, options *genOpts) {
-	// Select any possible path in the alternation
-	cnt := alt.Concatenations[int(rand.Int63())%len(alt.Concatenations)]
+func generateAlt(rand rand.Source, costs *ASTGenerator, out *astOutput, alt Alternation, options *genOpts) {
+	// Select any possible path in the alternation, or the cheapest to finish
+	// once there has been enough content.
+	cnts := costs.viable(alt.Concatenations)
+	cnt := cnts[int(rand.Int63())%len(cnts)]
+	if generateOver(out, options) {
+		cnt = cnts[costs.cheapestConcat(cnts)]
+	}
 
 	// Travel through all the repetitions
 	for _, rep := range cnt.Repetitions {
 		repmax := rep.Max
 		if repmax == inf {
-			repmax = options.repMax
+			repmax = max(options.repMax, rep.Min)
+		}
+		if costs.costElem(rep.Element) >= astUnbounded {
+			continue // can only be repeated zero times, else it would not be viable
 		}
 		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
-		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
+		for i := 0; i < torep && (i < rep.Min || !generateOver(out, options)); i++ {
 			switch elem := rep.Element.(type) {
 			case ElemRulename:
-				rule := GetRule(elem.Name, g.Rulemap)
-				generateAlt(rand, g, out, rule.Alternation, options)
+				out.expansions++
+				rule := GetRule(elem.Name, costs.g.Rulemap)
+				generateAlt(rand, costs, out, rule.Alternation, options)
 
 			case ElemOption:
-				if (rand.Int63() % 2) == 0 {
-					generateAlt(rand, g, out, elem.Alternation, options)
+				if (rand.Int63()%2) == 0 && !generateOver(out, options) && costs.costAlt(elem.Alternation) < astUnbounded {
+					generateAlt(rand, costs, out, elem.Alternation, options)
 				}
 
 			case ElemGroup:
-				generateAlt(rand, g, out, elem.Alternation, options)
+				generateAlt(rand, costs, out, elem.Alternation, options)
 
 			case ElemNumVal:
 				switch elem.Status {
 				case StatRange:
-					min, max := numvalToRune(elem.Elems[0], elem.Base), numvalToRune(elem.Elems[1], elem.Base)
-					// Generation emits UTF-8 text, so clamp to the representable
-					// (Unicode) subset; a range wholly above U+10FFFF (or with
-					// max < min) yields no character.
-					if max > utf8.MaxRune {
-						max = utf8.MaxRune
-					}
-					if min <= utf8.MaxRune && min <= max {
-						r := min + (rune(rand.Int63()&0x0F) % (max - min + 1)) // mask 0x0F to keep the 32-bit part (rune size)
-						appendPtr(out, r)
-					}
+					// Generation emits UTF-8 text, so keep to the representable
+					// (Unicode) subset.
+					first, n := scalarRange(elem)
+					appendPtr(out, scalarAt(first, int32(rand.Int63()&0x0F)%n)) // mask 0x0F to keep the 32-bit part (rune size)
 
 				case StatSeries:
 					for _, v := range elem.Elems {
-						r := numvalToRune(v, elem.Base)
-						// Skip values that are not real characters; they cannot be
-						// emitted as UTF-8 text.
-						if utf8.ValidRune(r) {
-							appendPtr(out, r)
-						}
+						appendPtr(out, numvalToRune(v, elem.Base))
 					}
 				}
 
@@ -102,23 +104,18 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 				}
 			}
 
-			// Prose-val is not covered, checked before to avoid generation
+			// Prose-val and unmatchable num-vals are never viable
 		}
 	}
 }
 
-func appendPtr(slc *[]byte, v ...rune) {
-	b := *slc
-	b = append(b, []byte(string(v))...)
-	*slc = b
+func appendPtr(out *astOutput, v ...rune) {
+	out.bytes = append(out.bytes, []byte(string(v))...)
 }
 
-func generateKeepGoing(i, torep, minrep, lenout, threshold int) bool {
-	// If can do no run and reached threshold, skip
-	if i == 0 && minrep == 0 && lenout >= threshold {
-		return false
-	}
-	return i < torep
+// generateOver returns whether to stop generating what is not mandatory.
+func generateOver(out *astOutput, options *genOpts) bool {
+	return len(out.bytes) >= options.threshold || out.expansions >= astMaxExpansions
 }
 
 // GenerateOption is an option for the *Grammar.Generate method.
@@ -220,6 +217,11 @@ func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, co
 				}
 			}
 			rule := GetRule(elem.Name, g.Rulemap)
+			if rule == nil {
+				return &ErrRuleNotFound{
+					Rulename: elem.Name,
+				}
+			}
 			scopeRules[elem.Name] = struct{}{}
 			if err := checkCanGenerateSafelyAlt(g, scopeRules, rule.Alternation); err != nil {
 				if err, ok := err.(*ErrCyclicRule); ok {
-- 
2.43.0


From 4af3256f27cd8bb656893eba7462f3e214d1931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 17/24] fix: refuse undefined rules in Regex, and handle min >
 max repetitions and surrogates

---
 regex.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/regex.go b/regex.go
index b3d49b2..3a2b777 100644
--- a/regex.go
+++ b/regex.go
@@ -134,6 +134,9 @@ func (b *reBuilder) rule(name string) reNode {
 	}
 	r := GetRule(name, b.g.Rulemap)
 	if r == nil {
+		if b.err == nil {
+			b.err = &ErrRuleNotFound{Rulename: name}
+		}
 		return reEmptyV
 	}
 	n := b.alt(r.Alternation)
@@ -174,7 +177,7 @@ func (b *reBuilder) elem(e ElemItf) reNode {
 				// ceiling is clamped to its representable subset; one wholly above it
 				// matches nothing -- mirroring the recognizer.
 				numvalToRune(v.Elems[1], v.Base), utf8.MaxRune)
-			if lo > utf8.MaxRune || lo > hi {
+			if !matchable(v) {
 				return reNeverV
 			}
 			return &reClass{ranges: []reRange{{lo, hi}}}
@@ -308,6 +311,10 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 	case *reRepeat:
 		sub := simplify(v.sub, memo)
 		switch {
+		case v.max != inf && v.min > v.max:
+			res = reNeverV // no count satisfies it
+		case v.max == 0:
+			res = reEmptyV
 		case isNever(sub):
 			// Zero occurrences are allowed iff min == 0 (then it matches empty);
 			// otherwise the repetition is itself un-matchable.
-- 
2.43.0


From b6e0afbf306759889e39a2d74c975aef65145682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:16 +0000
Subject: [PATCH 18/24] fix: generate parsers that compile when a symbol can
 not match

A repetition with min > max, an undefined rule, prose and a series with a
value outside Unicode made GenerateGoParser emit code that does not compile
(unused v, undeclared j).
---
 codegen.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/codegen.go b/codegen.go
index 39129e9..630a212 100644
--- a/codegen.go
+++ b/codegen.go
@@ -169,8 +169,12 @@ func (c *codegen) emitProcess(b *strings.Builder) {
 }
 
 func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
-	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	ci := c.sg.nts[callee]
+	if len(ci.alts) == 0 { // derives nothing, so never returns
+		b.WriteString("\t\t\treturn\n")
+		return
+	}
+	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	if ci.isRep {
 		if callee == s.nt {
 			// self-recursion inside the rep's own loop: continue the chain.
@@ -208,17 +212,21 @@ func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
-	c.emitMatch(b, sym) // sets j or returns on failure
+	if !c.emitMatch(b, sym) { // sets j or returns on failure
+		return
+	}
 	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
 // emitMatch emits inline code setting j to the end index on success or return on
-// failure.
-func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
+// failure. It reports whether the terminal can match at all (when it can not, the
+// code only returns).
+func (c *codegen) emitMatch(b *strings.Builder, s ssym) bool {
 	switch v := s.term.(type) {
 	case ElemCharVal:
 		c.emitCharVal(b, v)
+		return true
 	case ElemNumVal:
 		switch v.Status {
 		case StatRange:
@@ -229,14 +237,13 @@ func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
 			b.WriteString("\t\t\tif rv == utf8.RuneError && rs == 1 {\n\t\t\t\treturn\n\t\t\t}\n")
 			fmt.Fprintf(b, "\t\t\tif rv < %d || rv > %d {\n\t\t\t\treturn\n\t\t\t}\n", lo, hi)
 			b.WriteString("\t\t\tj := i + rs\n")
+			return true
 		case StatSeries:
-			c.emitSeries(b, v)
-		default:
-			b.WriteString("\t\t\treturn\n")
+			return c.emitSeries(b, v)
 		}
-	default: // prose-val: never matches
-		b.WriteString("\t\t\treturn\n")
 	}
+	b.WriteString("\t\t\treturn\n") // prose-val: never matches
+	return false
 }
 
 func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
@@ -276,19 +283,20 @@ func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
 	}
 }
 
-func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) {
+func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) bool {
 	var sb strings.Builder
 	for _, e := range v.Elems {
 		r := numvalToRune(e, v.Base)
 		if !utf8.ValidRune(r) {
 			b.WriteString("\t\t\treturn // series contains a non-Unicode value\n")
-			return
+			return false
 		}
 		sb.WriteRune(r)
 	}
 	idx := c.seriesVar([]byte(sb.String()))
 	fmt.Fprintf(b, "\t\t\tif i+len(series%d) > len(p.input) || !bytesEqual(p.input[i:i+len(series%d)], series%d) {\n\t\t\t\treturn\n\t\t\t}\n", idx, idx, idx)
 	fmt.Fprintf(b, "\t\t\tj := i + len(series%d)\n", idx)
+	return true
 }
 
 func (c *codegen) seriesVar(bs []byte) int {
-- 
2.43.0


From 3d4e12092522c6dfe65bca5aedc40e9b72cf40d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:16 +0000
Subject: [PATCH 19/24] fix: keep counts of a repetition apart in generated
 parsers

As in the parse forests: *2["a"] on "a" was reported as infinitely
ambiguous by the generated NumTrees, and Tree could miscount.
---
 codegen.go | 160 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 93 insertions(+), 67 deletions(-)

diff --git a/codegen.go b/codegen.go
index 630a212..60fbac3 100644
--- a/codegen.go
+++ b/codegen.go
@@ -208,14 +208,14 @@ func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
 
 func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 	if sym.kind == symEps {
-		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i)\n", nextID)
+		fmt.Fprintf(b, "\t\t\tp.record(%d, rc, u.pos, i, i)\n", nextID)
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
 	if !c.emitMatch(b, sym) { // sets j or returns on failure
 		return
 	}
-	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
+	fmt.Fprintf(b, "\t\t\tp.record(%d, rc, u.pos, i, j)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
@@ -348,7 +348,11 @@ func (c *codegen) emitMetadata(b *strings.Builder) {
 
 	b.WriteString("var qNTs = []qNT{\n")
 	for _, nt := range c.sg.nts {
-		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, alts: ", nt.isRule, nt.ruleName)
+		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, ", nt.isRule, nt.ruleName)
+		if nt.isRep {
+			fmt.Fprintf(b, "isRep: true, repMin: %d, repMax: %d, ", nt.repMin, nt.repMax)
+		}
+		b.WriteString("alts: ")
 		if len(nt.alts) == 0 {
 			b.WriteString("nil},\n")
 			continue
@@ -480,13 +484,32 @@ type qSym struct{ kind, nt int }
 
 // qNT is query-only nonterminal metadata.
 type qNT struct {
-	isRule   bool
-	ruleName string
-	alts     [][]qSym
+	isRule         bool
+	ruleName       string
+	alts           [][]qSym
+	isRep          bool
+	repMin, repMax int
+}
+
+// childRC returns the count at which nonterminal child is entered from a frame of
+// nonterminal parent at count rc: a self-reference inside a repetition's own loop
+// alternate continues the chain (count+1); any other reference starts at 0.
+func childRC(parent, child, rc int) int {
+	nt := qNTs[child]
+	if child != parent || !nt.isRep {
+		return 0
+	}
+	if nt.repMax == inf && rc+1 > nt.repMin {
+		return nt.repMin
+	}
+	return rc + 1
 }
 
+// bsrElem is one binary subtree element. rc is the count already consumed for a
+// repetition's nonterminal and 0 for any other.
 type bsrElem struct {
 	sl      int
+	rc      int
 	l, k, r int
 }
 
@@ -567,14 +590,17 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 
 // record inserts a BSR element, keeping only intermediate (prefix length >= 2)
 // or complete (dot == len) extents.
-func (p *parser) record(L, l, k, r int) {
+func (p *parser) record(L, rc, l, k, r int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
 		if MaxElements > 0 && len(p.set) >= MaxElements {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		if !qNTs[si.nt].isRep {
+			rc = 0
+		}
+		p.set[bsrElem{L, rc, l, k, r}] = true
 	}
 }
 
@@ -584,7 +610,7 @@ func (p *parser) create(ret int, u *gnode, i, rc int) *gnode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, rc, u.pos, i, j)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -600,7 +626,7 @@ func (p *parser) pop(u *gnode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, u.rc, v.pos, u.pos, j)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -619,12 +645,14 @@ type ParseTree struct {
 
 type bsrKey struct {
 	sl   int
+	rc   int
 	l, r int
 }
 
 type nodeID struct {
 	sl   int // slot id for intermediate nodes; -1 for symbol nodes
 	nt   int // nonterminal id for symbol nodes
+	rc   int // count already consumed, for a repetition's nonterminal
 	l, r int
 }
 
@@ -642,7 +670,7 @@ func (r *Result) buildIndex() {
 	}
 	r.index = make(map[bsrKey][]int, len(r.set))
 	for e := range r.set {
-		bk := bsrKey{e.sl, e.l, e.r}
+		bk := bsrKey{e.sl, e.rc, e.l, e.r}
 		r.index[bk] = append(r.index[bk], e.k)
 	}
 }
@@ -651,7 +679,7 @@ func (r *Result) buildIndex() {
 func (r *Result) Valid() bool {
 	r.buildIndex()
 	for _, sl := range ntComplete[gStart] {
-		if len(r.index[bsrKey{sl, 0, r.n}]) > 0 {
+		if len(r.index[bsrKey{sl, 0, 0, r.n}]) > 0 {
 			return true
 		}
 	}
@@ -670,20 +698,19 @@ func (r *Result) NumTrees() *big.Int {
 	onStack := map[nodeID]bool{}
 	infinite := false
 
-	var symWays func(s qSym, a, b int) *big.Int
-	var countSym func(nt, l, rr int) *big.Int
-	var countInter func(sl, l, rr int) *big.Int
-	var countElem func(sl, l, k, rr int) *big.Int
+	var countSym func(nt, rc, l, rr int) *big.Int
+	var countInter func(sl, rc, l, rr int) *big.Int
+	var countElem func(sl, rc, l, k, rr int) *big.Int
 
-	symWays = func(s qSym, a, b int) *big.Int {
-		if s.kind == kNT {
-			return countSym(s.nt, a, b)
-		}
-		return big.NewInt(1)
-	}
-	countElem = func(sl, l, k, rr int) *big.Int {
+	countElem = func(sl, rc, l, k, rr int) *big.Int {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
+		symWays := func(s qSym, a, b int) *big.Int {
+			if s.kind == kNT {
+				return countSym(s.nt, childRC(si.nt, s.nt, rc), a, b)
+			}
+			return big.NewInt(1)
+		}
 		last := symWays(prod[si.dot-1], k, rr)
 		var pre *big.Int
 		switch {
@@ -692,12 +719,12 @@ func (r *Result) NumTrees() *big.Int {
 		case si.dot == 2:
 			pre = symWays(prod[0], l, k)
 		default:
-			pre = countInter(sl-1, l, k)
+			pre = countInter(sl-1, rc, l, k)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
-	countInter = func(sl, l, rr int) *big.Int {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	countInter = func(sl, rc, l, rr int) *big.Int {
+		id := nodeID{sl: sl, nt: -1, rc: rc, l: l, r: rr}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -707,15 +734,15 @@ func (r *Result) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range r.index[bsrKey{sl, l, rr}] {
-			total.Add(total, countElem(sl, l, k, rr))
+		for _, k := range r.index[bsrKey{sl, rc, l, rr}] {
+			total.Add(total, countElem(sl, rc, l, k, rr))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	countSym = func(nt, l, rr int) *big.Int {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	countSym = func(nt, rc, l, rr int) *big.Int {
+		id := nodeID{sl: -1, nt: nt, rc: rc, l: l, r: rr}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -726,15 +753,15 @@ func (r *Result) NumTrees() *big.Int {
 		onStack[id] = true
 		total := big.NewInt(0)
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				total.Add(total, countElem(sl, l, k, rr))
+			for _, k := range r.index[bsrKey{sl, rc, l, rr}] {
+				total.Add(total, countElem(sl, rc, l, k, rr))
 			}
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	res := countSym(gStart, 0, r.n)
+	res := countSym(gStart, 0, 0, r.n)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -747,19 +774,18 @@ func (r *Result) Ambiguous() bool {
 		return false
 	}
 	visited := map[nodeID]bool{}
-	var symAmb func(nt, l, rr int) bool
-	var interAmb func(sl, l, rr int) bool
-	var elemAmb func(sl, l, k, rr int) bool
-	var symOf func(s qSym, a, b int) bool
-	symOf = func(s qSym, a, b int) bool {
-		if s.kind == kNT {
-			return symAmb(s.nt, a, b)
-		}
-		return false
-	}
-	elemAmb = func(sl, l, k, rr int) bool {
+	var symAmb func(nt, rc, l, rr int) bool
+	var interAmb func(sl, rc, l, rr int) bool
+	var elemAmb func(sl, rc, l, k, rr int) bool
+	elemAmb = func(sl, rc, l, k, rr int) bool {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
+		symOf := func(s qSym, a, b int) bool {
+			if s.kind == kNT {
+				return symAmb(s.nt, childRC(si.nt, s.nt, rc), a, b)
+			}
+			return false
+		}
 		if symOf(prod[si.dot-1], k, rr) {
 			return true
 		}
@@ -769,49 +795,49 @@ func (r *Result) Ambiguous() bool {
 		case si.dot == 2:
 			return symOf(prod[0], l, k)
 		default:
-			return interAmb(sl-1, l, k)
+			return interAmb(sl-1, rc, l, k)
 		}
 	}
-	interAmb = func(sl, l, rr int) bool {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	interAmb = func(sl, rc, l, rr int) bool {
+		id := nodeID{sl: sl, nt: -1, rc: rc, l: l, r: rr}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := r.index[bsrKey{sl, l, rr}]
+		ks := r.index[bsrKey{sl, rc, l, rr}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, rr) {
+			if elemAmb(sl, rc, l, k, rr) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, rr int) bool {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	symAmb = func(nt, rc, l, rr int) bool {
+		id := nodeID{sl: -1, nt: nt, rc: rc, l: l, r: rr}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
 		packs := 0
 		for _, sl := range ntComplete[nt] {
-			packs += len(r.index[bsrKey{sl, l, rr}])
+			packs += len(r.index[bsrKey{sl, rc, l, rr}])
 		}
 		if packs > 1 {
 			return true
 		}
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				if elemAmb(sl, l, k, rr) {
+			for _, k := range r.index[bsrKey{sl, rc, l, rr}] {
+				if elemAmb(sl, rc, l, k, rr) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(gStart, 0, r.n)
+	return symAmb(gStart, 0, 0, r.n)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -821,31 +847,31 @@ func (r *Result) Tree() *ParseTree {
 		return nil
 	}
 	for _, sl := range ntComplete[gStart] {
-		if ks := r.index[bsrKey{sl, 0, r.n}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, 0, 0, r.n}]; len(ks) > 0 {
 			var kids []*ParseTree
-			r.collectElem(sl, 0, ks[0], r.n, &kids, map[nodeID]bool{})
+			r.collectElem(sl, 0, 0, ks[0], r.n, &kids, map[nodeID]bool{})
 			return &ParseTree{Rule: qNTs[gStart].ruleName, Start: 0, End: r.n, Children: kids}
 		}
 	}
 	return nil
 }
 
-func (r *Result) collectElem(sl, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectElem(sl, rc, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
 	si := slotInfo[sl]
 	prod := qNTs[si.nt].alts[si.alt]
 	switch {
 	case si.dot == 1:
 	case si.dot == 2:
-		r.collectChild(prod[0], l, k, out, visited)
+		r.collectChild(prod[0], childRC(si.nt, prod[0].nt, rc), l, k, out, visited)
 	default:
-		if ks := r.index[bsrKey{sl - 1, l, k}]; len(ks) > 0 {
-			r.collectElem(sl-1, l, ks[0], k, out, visited)
+		if ks := r.index[bsrKey{sl - 1, rc, l, k}]; len(ks) > 0 {
+			r.collectElem(sl-1, rc, l, ks[0], k, out, visited)
 		}
 	}
-	r.collectChild(prod[si.dot-1], k, rr, out, visited)
+	r.collectChild(prod[si.dot-1], childRC(si.nt, prod[si.dot-1].nt, rc), k, rr, out, visited)
 }
 
-func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectChild(s qSym, rc, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
 	if s.kind != kNT {
 		if s.kind == kEps {
 			return
@@ -853,19 +879,19 @@ func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[n
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := nodeID{sl: -1, nt: s.nt, l: a, r: b}
+	id := nodeID{sl: -1, nt: s.nt, rc: rc, l: a, r: b}
 	if visited[id] {
 		return
 	}
 	visited[id] = true
 	for _, sl := range ntComplete[s.nt] {
-		if ks := r.index[bsrKey{sl, a, b}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, rc, a, b}]; len(ks) > 0 {
 			if qNTs[s.nt].isRule {
 				var kids []*ParseTree
-				r.collectElem(sl, a, ks[0], b, &kids, visited)
+				r.collectElem(sl, rc, a, ks[0], b, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: qNTs[s.nt].ruleName, Start: a, End: b, Children: kids})
 			} else {
-				r.collectElem(sl, a, ks[0], b, out, visited)
+				r.collectElem(sl, rc, a, ks[0], b, out, visited)
 			}
 			visited[id] = false
 			return
-- 
2.43.0


From 10d66413b0159c5bbe2068eba637a8953a35da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:16 +0000
Subject: [PATCH 20/24] fix: report ErrTooLarge in generated parsers when the
 last step exceeds the budget

---
 codegen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index 60fbac3..9e7cdcd 100644
--- a/codegen.go
+++ b/codegen.go
@@ -911,14 +911,14 @@ func Parse(input []byte) (*Result, error) {
 	}
 	p.u0 = &gnode{ret: -1, edgeSet: map[*gnode]bool{}}
 	p.seed()
-	for len(p.work) > 0 {
-		if p.aborted {
-			return nil, ErrTooLarge
-		}
+	for len(p.work) > 0 && !p.aborted {
 		d := p.work[len(p.work)-1]
 		p.work = p.work[:len(p.work)-1]
 		p.process(d)
 	}
+	if p.aborted {
+		return nil, ErrTooLarge
+	}
 	return &Result{input: input, set: p.set, n: len(input)}, nil
 }
 `
-- 
2.43.0


From 40e2a34530937f13b8b0ed8280c6c5db3053aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:08 +0000
Subject: [PATCH 21/24] fix: refuse rules whose regular expression RE2 does not
 admit

Regex returned patterns such as a{1001} that regexp.Compile rejects.
---
 regex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regex.go b/regex.go
index 3a2b777..fc86d60 100644
--- a/regex.go
+++ b/regex.go
@@ -3,6 +3,7 @@ package goabnf
 import (
 	"fmt"
 	"regexp"
+	"regexp/syntax"
 	"sort"
 	"strings"
 	"unicode/utf8"
@@ -50,6 +51,10 @@ func (g *Grammar) Regex(rulename string, opts ...RegexOption) (string, error) {
 	if r.err != nil {
 		return "", r.err
 	}
+	// RE2 refuses some patterns, e.g. those that repeat more than 1000 times.
+	if _, err := syntax.Parse(sb.String(), syntax.Perl); err != nil {
+		return "", err
+	}
 	return sb.String(), nil
 }
 
-- 
2.43.0


From 958347919901551ec2bfd35a4d5030e24dcd3817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:47 +0000
Subject: [PATCH 22/24] fix: refuse enormous repetitions of what may be empty
 when lowering a grammar

ParseForest and ParseBSR counted the empty occurrences of r = 99999999999["a"]
one by one, whatever the budgets.
---
 sppf.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sppf.go b/sppf.go
index feae5fa..e728795 100644
--- a/sppf.go
+++ b/sppf.go
@@ -97,6 +97,8 @@ type lowerer struct {
 	err  error
 	max  int  // max nonterminals; 0 == unbounded
 	over bool // budget exceeded
+
+	null map[string]bool // nullable rules, computed when first needed
 }
 
 func (c *lowerer) budgetExceeded() bool {
@@ -106,6 +108,13 @@ func (c *lowerer) budgetExceeded() bool {
 	return c.over
 }
 
+func (c *lowerer) nullable(elem ElemItf) bool {
+	if c.null == nil {
+		c.null = c.g.nullableRules()
+	}
+	return elemNullable(c.g, c.null, elem)
+}
+
 func (c *lowerer) rule(name string) int {
 	key := "rule:" + canon(name)
 	id, existed := c.sg.reserve(key, name)
@@ -160,6 +169,12 @@ func (c *lowerer) rep(rep Repetition) ssym {
 	if rep.Max != inf && rep.Max < rep.Min {
 		return ssym{kind: symNonterm, nt: id}
 	}
+	// Empty occurrences are counted without consuming input, so the parse state
+	// grows with the bound: hold it to the budget.
+	if c.max > 0 && max(rep.Min, rep.Max) > c.max && c.nullable(rep.Element) {
+		c.over = true
+		return ssym{kind: symNonterm, nt: id}
+	}
 	// Lower to the self-recursive encoding R ::= eps | E R, a single nonterminal
 	// regardless of the bound. The [Min,Max] count is enforced at parse time
 	// (addRepAlts), so lowering is O(1) in the bound and there is no per-count
-- 
2.43.0


From 26e257ac58b5f3c9a0d88ffe922e4171b4f59b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:42 +0000
Subject: [PATCH 23/24] fix: do not unroll enormous repetitions of what may be
 empty when generating

Generate and the AST generator counted the empty occurrences of
r = 99999999999["a"] one by one, and mistook the cost of
r = 4611686018427387904"abcd" for zero.
---
 ast.go      | 21 ++++++++++++++-------
 generate.go | 11 ++++++++++-
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ast.go b/ast.go
index 7741ba4..bc8d087 100644
--- a/ast.go
+++ b/ast.go
@@ -36,7 +36,8 @@ type ASTGenerator struct {
 	maxLen    int // output bytes before steering to terminate
 	maxRepeat int // cap for unbounded ("*") repetitions
 
-	minCost map[string]int // rule name -> minimum expansion cost (productivity)
+	minCost map[string]int  // rule name -> minimum expansion cost (productivity)
+	null    map[string]bool // rules that can derive the empty string
 }
 
 // ASTGenOption configures an ASTGenerator.
@@ -160,6 +161,7 @@ func (ag *ASTGenerator) computeCosts() {
 			effective[r.Name] = r
 		}
 	}
+	ag.null = g.nullableRules()
 	ag.minCost = make(map[string]int, len(effective))
 	for name := range effective {
 		ag.minCost[name] = astUnbounded
@@ -247,12 +249,17 @@ func (ag *ASTGenerator) genRep(src source, out *astOutput, rep Repetition, depth
 	}
 	n := lo
 	if !ag.over(out, depth) && hi > lo {
-		n = lo + src.intn(hi-lo+1)
+		n = lo + src.intn(max(hi-lo, hi-lo+1)) // the sum overflows at worst
 	}
 	for i := 0; i < n; i++ {
+		size := len(out.bytes)
 		ag.genElem(src, out, rep.Element, depth)
-		// Stop optional extras once over length, but always emit the mandatory lo.
-		if i+1 >= lo && ag.over(out, depth) {
+		if len(out.bytes) == size {
+			out.expansions++ // an empty occurrence is work too
+		}
+		// Stop optional extras once over length, but always emit the mandatory lo,
+		// unless the occurrences left may be empty.
+		if ag.over(out, depth) && (i+1 >= lo || elemNullable(ag.g, ag.null, rep.Element)) {
 			break
 		}
 	}
@@ -394,10 +401,10 @@ func mulClamp(n, c int) int {
 	if c >= astUnbounded {
 		return astUnbounded
 	}
-	if p := n * c; p >= 0 && p < astUnbounded {
-		return p
+	if c > 0 && n >= (astUnbounded+c-1)/c {
+		return astUnbounded
 	}
-	return astUnbounded
+	return n * c
 }
 
 func isASCIILetter(r rune) bool {
diff --git a/generate.go b/generate.go
index 70eec84..ea62f05 100644
--- a/generate.go
+++ b/generate.go
@@ -66,7 +66,12 @@ func generateAlt(rand rand.Source, costs *ASTGenerator, out *astOutput, alt Alte
 			continue // can only be repeated zero times, else it would not be viable
 		}
 		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
-		for i := 0; i < torep && (i < rep.Min || !generateOver(out, options)); i++ {
+		for i := 0; i < torep; i++ {
+			// Once over, only what is mandatory and not empty is left.
+			if generateOver(out, options) && (i >= rep.Min || elemNullable(costs.g, costs.null, rep.Element)) {
+				break
+			}
+			size := len(out.bytes)
 			switch elem := rep.Element.(type) {
 			case ElemRulename:
 				out.expansions++
@@ -105,6 +110,10 @@ func generateAlt(rand rand.Source, costs *ASTGenerator, out *astOutput, alt Alte
 			}
 
 			// Prose-val and unmatchable num-vals are never viable
+
+			if len(out.bytes) == size {
+				out.expansions++ // an empty occurrence is work too
+			}
 		}
 	}
 }
-- 
2.43.0


From 73a3e79190713c97c1e7bcd1749aba264ec987a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:38 +0000
Subject: [PATCH 24/24] fix: count only positions within the bounds when
 closing a repetition in IsValid

---
 recognize.go | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/recognize.go b/recognize.go
index bec5eca..04becb2 100644
--- a/recognize.go
+++ b/recognize.go
@@ -79,15 +79,13 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 
 	// level = positions reachable after exactly c occurrences.
 	level := map[int]bool{index: true}
-	// seen = every position reached at any count so far. reachElem only moves
-	// forward (an end position is >= its start), so once a step introduces no
-	// position outside seen, the reachable set has closed and no later
-	// repetition can add a new end position. Breaking there keeps an unbounded
-	// repetition over an element with large reach-sets (e.g. *(1*ALPHA)) at
-	// O(n^2); the previous len(next)==len(level) test never tripped because
-	// level shrank by one each step ({1..n}, {2..n}, ...), giving O(n^3).
-	seen := map[int]bool{index: true}
-
+	// Once a step within the bounds ends only where a smaller count within them
+	// already did, whatever a later repetition reaches has been reached too: the
+	// set of ends has closed. (Positions reached below the minimum do not count:
+	// the same position at a larger count may lead to new ends.) Breaking there
+	// keeps an unbounded repetition over an element with large reach-sets (e.g.
+	// *(1*ALPHA)) at O(n^2); the previous len(next)==len(level) test never tripped
+	// because level shrank by one each step ({1..n}, {2..n}, ...), giving O(n^3).
 	cap := len(r.input) + 2
 	// Past len(input)+1 occurrences the level no longer changes (only empty
 	// occurrences are left to add), so a larger minimum is met as soon as cap
@@ -109,21 +107,17 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 		if len(next) == 0 {
 			break
 		}
+		grew := c < least
 		if c >= least {
 			for e := range next {
-				ends[e] = true
-			}
-		}
-		grew := false
-		for e := range next {
-			if !seen[e] {
-				seen[e] = true
-				grew = true
+				if !ends[e] {
+					ends[e] = true
+					grew = true
+				}
 			}
 		}
 		level = next
-		// Reachable set closed and the minimum-count requirement met.
-		if !grew && c >= least {
+		if !grew {
 			break
 		}
 	}
-- 
2.43.0

