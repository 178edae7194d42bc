package props

import (
	"errors"
	"math/big"

	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P17_forest"] = H_P17_forest
	Registry["H_P17_slots"] = H_P17_slots
	Registry["H_P17_nodes"] = H_P17_nodes
	Registry["H_P17_deflate"] = H_P17_deflate
	Registry["H_P17_threshold"] = H_P17_threshold
	Registry["H_P17_walk"] = H_P17_walk
	Registry["H_P17_ast"] = H_P17_ast
	Registry["H_P17_depth"] = H_P17_depth
	Registry["H_P17_gen"] = H_P17_gen
	Registry["H_P17_regex"] = H_P17_regex
	Registry["H_P17_flat"] = H_P17_flat
	Registry["H_P17_huge"] = H_P17_huge
	Registry["H_P17_empties"] = H_P17_empties
}

// forest is what the two forest engines have in common.
type forest interface {
	Valid() bool
	Nodes() int
	NumTrees() *big.Int
	Ambiguous() bool
}

func parseForest(bsr bool, in []byte, g *abnf.Grammar, root string, opts ...abnf.ForestOption) (forest, error) {
	if bsr {
		f, err := abnf.ParseBSR(in, g, root, opts...)
		if err != nil {
			return nil, err
		}
		return f, nil
	}
	f, err := abnf.ParseForest(in, g, root, opts...)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func count(f forest) string {
	n := f.NumTrees()
	if n == nil {
		return "infinite"
	}
	return n.String()
}

// sameForest tells whether two forests answer alike.
func sameForest(a, b forest) bool {
	if a.Valid() != b.Valid() || a.Nodes() != b.Nodes() || a.Ambiguous() != b.Ambiguous() || count(a) != count(b) {
		return false
	}
	p, ok := a.(*abnf.Forest)
	q, _ := b.(*abnf.Forest)
	if !ok || q == nil {
		return true
	}
	x, y := p.ParseError(), q.ParseError()
	if (x == nil) != (y == nil) {
		return false
	}
	return x == nil || x.Error() == y.Error()
}

func smallGrammar() *abnf.Grammar {
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{schars("a"), schars("")}, reps: [][2]int{{0, -1}, {2, 3}}}
	b := [3]int{2, 1, 1}
	if sym.Tier() == 1 {
		b = [3]int{3, 1, 1}
	}
	return x.grammar(b)
}

var fib = []int{1, 2, 3, 5, 8, 13, 21, 34}

// H_P17_forest: a budget of forest nodes.
func H_P17_forest() {
	g := smallGrammar()
	in := letters(sym.Choice(4), 2)
	bsr := sym.Choice(2) == 1
	base, err := parseForest(bsr, in, g, "r")
	sym.Assert(err == nil, "a parse without budget fails")
	if err != nil {
		return
	}
	for _, n := range []int{0, 100000} {
		f, err := parseForest(bsr, in, g, "r", abnf.WithMaxForestNodes(n))
		sym.Assert(err == nil && sameForest(f, base), "an ample budget of forest nodes changes the outcome")
	}
	n := fib[sym.Choice(len(fib))]
	f, err := parseForest(bsr, in, g, "r", abnf.WithMaxForestNodes(n))
	var e *abnf.ErrForestTooLarge
	if err != nil {
		sym.Assert(errors.As(err, &e) && e.Max == n, "exceeding the budget of forest nodes gives another error")
		sym.Assert(f == nil, "a refused parse returns a forest")
		sym.Reach("refused")
		return
	}
	sym.Assert(f.Nodes() <= n, "a forest is larger than its budget")
	sym.Assert(sameForest(f, base), "a budget of forest nodes changes the answers")
	f, err = parseForest(bsr, in, g, "r", abnf.WithMaxForestNodes(n+1))
	sym.Assert(err == nil && sameForest(f, base), "a larger budget of forest nodes is refused")
	sym.Reach("within")
}

// H_P17_slots: a budget for lowering the grammar.
func H_P17_slots() {
	g := smallGrammar()
	in := letters(sym.Choice(3), 2)
	bsr := sym.Choice(2) == 1
	base, err := parseForest(bsr, in, g, "r")
	if err != nil {
		return
	}
	f, err := parseForest(bsr, in, g, "r", abnf.WithMaxSlots(0))
	sym.Assert(err == nil && sameForest(f, base), "an unlimited grammar budget changes the outcome")
	n := fib[sym.Choice(6)]
	f, err = parseForest(bsr, in, g, "r", abnf.WithMaxSlots(n))
	var e *abnf.ErrGrammarTooLarge
	if err != nil {
		sym.Assert(errors.As(err, &e) && e.Max == n, "exceeding the grammar budget gives another error")
		sym.Assert(f == nil, "a refused parse returns a forest")
		sym.Reach("refused")
		return
	}
	sym.Assert(sameForest(f, base), "a grammar budget changes the answers")
	f, err = parseForest(bsr, in, g, "r", abnf.WithMaxSlots(n+1))
	sym.Assert(err == nil && sameForest(f, base), "a larger grammar budget is refused")
	sym.Reach("within")
}

func nodesOf(tg *abnf.TransitionGraph) int {
	seen := map[*abnf.Node]bool{}
	var visit func(n *abnf.Node)
	visit = func(n *abnf.Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		for _, m := range n.Nexts {
			visit(m)
		}
	}
	for _, n := range tg.Entrypoints {
		visit(n)
	}
	return len(seen)
}

func checkNodes(g *abnf.Grammar, root string, in []byte, opts ...abnf.TGOption) {
	opts = append(opts, abnf.WithDeflateRules(true))
	base, err := g.TransitionGraph(root, opts...)
	if err != nil {
		return
	}
	size := nodesOf(base)
	ns := []int{1, 2, 3, size - 2, size - 1, size, size + 1, size + 3, 2 * size, 10*size + 50, 100000, 0, -1}
	n := ns[sym.Choice(len(ns))]
	tg, err := g.TransitionGraph(root, append(opts, abnf.WithMaxNodes(n))...)
	if err != nil {
		sym.Assert(n > 0, "an unlimited graph is refused")
		var e *abnf.ErrMaxNodesExceeded
		sym.Assert(errors.As(err, &e) && e.Max == n, "exceeding the budget of graph nodes gives another error")
		sym.Assert(tg == nil, "a refused graph is returned")
		sym.Assert(n < 100000, "an ample budget of graph nodes is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(n <= 0 || nodesOf(tg) <= n, "a graph is larger than its budget")
	sym.Assert(nodesOf(tg) == size, "a budget of graph nodes changes the graph")
	sym.Note("input", string(in))
	sym.Assert(walks(tg, in) == walks(base, in), "a budget of graph nodes changes the language of the graph")
	if n > 0 {
		_, err = g.TransitionGraph(root, append(opts, abnf.WithMaxNodes(n+1))...)
		sym.Assert(err == nil, "a larger budget of graph nodes is refused")
	}
	sym.Reach("within")
}

// H_P17_nodes: a budget of graph nodes.
func H_P17_nodes() {
	g, root := gf_dag()
	checkNodes(g, root, letters(sym.Choice(3), 5))
}

// H_P17_deflate: the same with terminals taken apart, and nested repetitions.
func H_P17_deflate() {
	xs := []abnf.ElemItf{chars("ab"), hexRange("61", "65"), hex("61", "62", "63"), chars("a"), schars("bc")}
	x, y := xs[sym.Choice(len(xs))], xs[sym.Choice(len(xs))]
	reps := [][2]int{{1, 1}, {0, -1}, {0, 3}, {2, 2}, {3, -1}, {1, 3}}
	r, s := reps[sym.Choice(len(reps))], reps[sym.Choice(len(reps))]
	g := grammar(rule("r", conc(rp(r[0], r[1], group(conc(rp(s[0], s[1], x), one(y)))))))
	checkNodes(g, "r", letters(sym.Choice(3), 3), tgOpts()...)
}

// H_P17_threshold: the largest repetition a graph is built of.
func H_P17_threshold() {
	lo, hi := sym.Choice(5), sym.Choice(6)-1
	l2, h2 := sym.Choice(3), sym.Choice(4)-1
	sym.Assume((hi < 0 || lo <= hi) && (h2 < 0 || l2 <= h2))
	most := func(lo, hi int) int {
		if hi >= 0 {
			return hi
		}
		return lo
	}
	g := grammar(rule("r", conc(rp(lo, hi, group(conc(one(schars("a"))), conc(one(rn("s"))))), one(schars("c")))), rule("s", conc(rp(l2, h2, schars("b")))))
	t := 1 + sym.Choice(4)
	in := letters(sym.Choice(4), 3)
	base, err := g.TransitionGraph("r", abnf.WithDeflateRules(true))
	sym.Assert(err == nil, "small repetitions are refused by default")
	if err != nil {
		return
	}
	tg, err := g.TransitionGraph("r", abnf.WithDeflateRules(true), abnf.WithRepetitionThreshold(t))
	if most(lo, hi) > t || most(l2, h2) > t {
		sym.Assert(errors.Is(err, abnf.ErrRepetitionThreshold), "a repetition over the threshold is accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "repetitions within the threshold are refused")
	if err != nil {
		return
	}
	sym.Assert(walks(tg, in) == walks(base, in), "a repetition threshold changes the language of the graph")
	sym.Reach("within")
}

// H_P17_walk: the limits of the graph generator, on repetitions of one letter.
func H_P17_walk() {
	lo := sym.Choice(2)
	g := grammar(rule("r", conc(rp(lo, -1, schars("a")))))
	tg, err := g.TransitionGraph("r")
	if err != nil {
		return
	}
	length, reps, steps := sym.Choice(5), sym.Choice(4), sym.Choice(5)
	gos := []abnf.GenOption{abnf.WithMaxLength(length), abnf.WithMaxReps(reps), abnf.WithMaxSteps(steps)}
	gen, err := abnf.NewGenerator(tg, gos...)
	if err != nil {
		return
	}
	tape := octets(5 + sym.Tier())
	n := len(gen.Generate(tape))
	sym.Observe("length", n)
	sym.Assert(n <= length || n <= 1, "a production exceeds the length limit though it could stop")
	sym.Assert(n <= reps+1, "an edge is followed more often than allowed")
	sym.Assert(n <= steps+1, "a walk takes more steps than allowed")
	if n > 1 {
		sym.Reach("several")
	}
	sym.Reach("generated")
}

// H_P17_ast: the limits of the AST generator, on repetitions of one letter.
func H_P17_ast() {
	lo := sym.Choice(4)
	g := grammar(rule("r", conc(rp(lo, -1, schars("a")))))
	length, reps := sym.Choice(6), sym.Choice(5)
	gen, err := abnf.NewASTGenerator(g, "r", abnf.WithMaxLen(length), abnf.WithMaxRepeat(reps))
	sym.Assert(err == nil, "NewASTGenerator refuses a repetition")
	if err != nil {
		return
	}
	n := len(gen.Generate(octets(4)))
	sym.Assert(n <= length || n <= lo || n <= 1, "a production exceeds the length limit though it could stop")
	sym.Assert(n <= lo+reps, "a repetition is unrolled more than allowed")
	if n > lo {
		sym.Reach("several")
	}
	sym.Reach("generated")
}

// H_P17_depth: the limit on recursion.
func H_P17_depth() {
	k := sym.Choice(4)
	gs := []*abnf.Grammar{
		grammar(rule("r", conc(one(schars("a")), one(opt(rn("r")))))),
		grammar(rule("r", conc(one(schars("a")), one(rn("r"))), conc(one(schars("a"))))),
		grammar(rule("r", conc(one(schars("a")), rp(0, 1, rn("r"))))),
		grammar(rule("r", conc(one(group(conc(one(schars("a")), one(rn("R"))), conc(one(schars("a")))))))),
	}
	d := sym.Choice(5)
	gen, err := abnf.NewASTGenerator(gs[k], "r", abnf.WithMaxDepth(d))
	sym.Assert(err == nil, "NewASTGenerator refuses a productive rule")
	if err != nil {
		return
	}
	n := len(gen.Generate(octets(7)))
	sym.Assert(n <= d+1, "recursion goes deeper than allowed")
	if n > 1 {
		sym.Reach("several")
	}
	sym.Reach("generated")
}

// H_P17_gen: the limits of Generate, on repetitions of one letter.
func H_P17_gen() {
	lo := sym.Choice(4)
	g := grammar(rule("r", conc(rp(lo, -1, schars("a")))))
	if sym.Choice(2) == 1 {
		g = grammar(rule("r", conc(rp(lo, -1, rn("s")))), rule("s", conc(one(schars("a")))))
	}
	length, reps := sym.Choice(6), sym.Choice(5)
	sym.RandLimit(20)
	out, err := g.Generate(sym.Seed(), "r", abnf.WithThreshold(length), abnf.WithRepMax(reps))
	sym.Assert(err == nil, "Generate refuses a repetition")
	n := len(out)
	sym.Assert(n <= length || n <= lo || n <= 1, "a production exceeds the length threshold though it could stop")
	sym.Assert(n <= reps || n <= lo, "a repetition is repeated more than allowed")
	if n > lo {
		sym.Reach("several")
	}
	sym.Reach("generated")
}

// H_P17_regex: the length of a pattern.
func H_P17_regex() { checkRegexLen(gf_dag()) }

// H_P17_flat: the same on patterns without references.
func H_P17_flat() { checkRegexLen(gf_flat()) }

// H_P17_huge: enormous repetitions are decided or refused, not unrolled.
func H_P17_huge() {
	ns := []int{300, 65535, 65537, 1 << 31, 9999999999, 1 << 62}
	lo, hi := 0, -1
	n := ns[sym.Choice(len(ns))]
	switch sym.Choice(3) {
	case 0:
		lo, hi = n, n
	case 1:
		hi = n
	case 2:
		lo = n
	}
	g := grammar(rule("r", conc(rp(lo, hi, schars("a")))))
	in := letters(sym.Choice(3), 2)
	want := newRef(g, in).valid("r")
	switch sym.Choice(5) {
	case 0:
		ok, err := g.IsValid("r", in)
		sym.Assert(err == nil && ok == want, "IsValid is wrong on an enormous repetition")
	case 1, 2:
		f, err := parseForest(sym.Choice(2) == 1, in, g, "r")
		var e *abnf.ErrGrammarTooLarge
		if err != nil {
			sym.Assert(errors.As(err, &e), "an enormous repetition gives another error")
			sym.Reach("refused")
			return
		}
		sym.Assert(f.Valid() == want, "a forest is wrong on an enormous repetition")
	case 3:
		_, err := g.TransitionGraph("r")
		sym.Assert(errors.Is(err, abnf.ErrRepetitionThreshold), "a graph of an enormous repetition is built")
	case 4:
		tg, err := g.TransitionGraph("r", abnf.WithRepetitionThreshold(1<<62), abnf.WithMaxNodes(100))
		var e *abnf.ErrMaxNodesExceeded
		sym.Assert(tg == nil && errors.As(err, &e), "a graph of an enormous repetition is built")
		sym.Reach("refused")
	}
	sym.Reach("decided")
}

// H_P17_empties: enormous repetitions of what may be empty, where counting the
// occurrences consumes nothing.
func H_P17_empties() {
	ns := []int{300, 65537, 9999999999, 1 << 62, 1<<63 - 1}
	lo, hi := 0, -1
	n := ns[sym.Choice(len(ns))]
	switch sym.Choice(3) {
	case 0:
		lo, hi = n, n
	case 1:
		hi = n
	case 2:
		lo = n
	}
	es := []abnf.ElemItf{opt(schars("a")), schars(""), rn("s"), group(conc(one(opt(schars("b")))), conc(one(schars("a")))), schars("abab")}
	k := sym.Choice(len(es))
	g := grammar(rule("r", conc(rp(lo, hi, es[k]))), rule("s", conc(rp(0, -1, schars("a")))))
	sym.Note("grammar", text(g))
	switch sym.Choice(4) {
	case 0:
		in := letters(sym.Choice(3), 2)
		ok, err := g.IsValid("r", in)
		sym.Assert(err == nil && ok == newRef(g, in).valid("r"), "IsValid is wrong on an enormous repetition")
	case 1:
		in := letters(sym.Choice(3), 2)
		f, err := parseForest(sym.Choice(2) == 1, in, g, "r")
		var e *abnf.ErrGrammarTooLarge
		if err != nil {
			sym.Assert(errors.As(err, &e), "an enormous repetition gives another error")
			sym.Reach("refused")
			return
		}
		sym.Assert(f.Valid() == newRef(g, in).valid("r"), "a forest is wrong on an enormous repetition")
	case 2:
		sym.Assume(n != 65537 && (n < 1<<30 || n == 9999999999 || k == 4))
		ag, err := abnf.NewASTGenerator(g, "r", abnf.WithMaxLen(3), abnf.WithMaxRepeat(2))
		if err != nil {
			sym.Assert(lo > 1<<27, "NewASTGenerator refuses a rule that can be generated from")
			sym.Reach("refused")
			return
		}
		out := ag.Generate(octets(sym.Choice(2)))
		if lo == 0 {
			sym.Assert(len(out) < 3+4, "the AST generator exceeds its length limit where nothing forces it to")
		}
		if len(out) < 60 {
			sym.Assert(newRef(g, out).valid("r"), "the AST generator emits what the rule does not derive")
		}
	case 3:
		sym.Assume(n != 65537 && (n < 1<<30 || n == 9999999999 || k == 4))
		sym.RandLimit(1)
		out, err := g.Generate(sym.Seed(), "r", abnf.WithThreshold(3), abnf.WithRepMax(2))
		if err != nil {
			sym.Assert(lo > 1<<27, "Generate refuses a rule that derives some text")
			sym.Reach("refused")
			return
		}
		if len(out) < 60 {
			sym.Assert(newRef(g, out).valid("r"), "Generate emits what the rule does not derive")
		}
	}
	sym.Reach("decided")
}
