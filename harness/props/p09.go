package props

import (
	"math/rand"

	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P09_seq"] = H_P09_seq
	Registry["H_P09_pair"] = H_P09_pair
	Registry["H_P09_dag"] = H_P09_dag
	Registry["H_P09_odd"] = H_P09_odd
	Registry["H_P09_chars"] = H_P09_chars
	Registry["H_P09_core"] = H_P09_core
	Registry["H_P09_range"] = H_P09_range
	Registry["H_P09_count"] = H_P09_count
	Registry["H_P10_seq"] = H_P10_seq
	Registry["H_P10_pair"] = H_P10_pair
	Registry["H_P10_dag"] = H_P10_dag
	Registry["H_P10_odd"] = H_P10_odd
	Registry["H_P10_chars"] = H_P10_chars
	Registry["H_P10_core"] = H_P10_core
	Registry["H_P10_range"] = H_P10_range
	Registry["H_P10_count"] = H_P10_count
	Registry["H_P10_rand"] = H_P10_rand
	Registry["H_P10_null"] = H_P10_null
}

// admits asserts that a generated text belongs to the language of the rule.
func admits(g *abnf.Grammar, root string, out []byte, who string) {
	sym.Note("output", string(out))
	if len(out) > 60 {
		sym.Reach("long")
		return // beyond the reference's positions
	}
	sym.Assert(newRef(g, out).valid(root), who+" emitted a text the rule does not admit")
}

// P09: Grammar.Generate.

func checkGenerate(g *abnf.Grammar, root string, draws, repMax, threshold int) {
	sym.Note("grammar", text(g))
	can := newProd(g).rule(root)
	sym.RandLimit(draws)
	out, err := g.Generate(sym.Seed(), root, abnf.WithRepMax(repMax), abnf.WithThreshold(threshold))
	if !can {
		sym.Assert(err != nil, "Generate pretends to derive a text from a rule that derives none")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "Generate refuses a rule that derives some text")
	admits(g, root, out, "Generate")
	sym.Reach("generated")
}

func p09(g *abnf.Grammar, root string) { checkGenerate(g, root, 8+2*sym.Tier(), 2, 2) }

func H_P09_seq()   { p09(gf_seq()) }
func H_P09_pair()  { p09(gf_pair()) }
func H_P09_dag()   { p09(gf_dag()) }
func H_P09_odd()   { p09(gf_odd()) }
func H_P09_chars() { p09(gf_chars()) }
func H_P09_core()  { p09(gf_core()) }
func H_P09_range() { p09(gf_range()) }

// counted is a repetition with any small bounds of one of several elements.
func counted(max int) *abnf.Grammar {
	lo := sym.Choice(max + 1)
	hi := sym.Choice(max+2) - 1
	var e abnf.ElemItf
	switch sym.Choice(4) {
	case 0:
		e = schars("a")
	case 1:
		e = opt(schars("a"))
	case 2:
		e = group(conc(one(schars("a"))), conc(one(schars("b"))))
	case 3:
		e = rn("s")
	}
	return grammar(rule("r", conc(rp(lo, hi, e), one(opt(schars("c"))))), rule("s", conc(one(schars("b"))), conc(one(rn("digit")))))
}

// H_P09_count: repetition bounds against the maximum of repetitions and the
// length threshold.
func H_P09_count() {
	checkGenerate(counted(3+sym.Tier()), "r", 14, sym.Choice(4), sym.Choice(4))
}

// P10: the AST generator.

type tapeRand struct{}

func (tapeRand) Int63() int64 { return int64(sym.Byte())<<32 | int64(0x1234567) }
func (tapeRand) Seed(int64)   {}

func newAST(g *abnf.Grammar, root string, depth, length, rep int) *abnf.ASTGenerator {
	sym.Note("grammar", text(g))
	p := newProd(g)
	can := p.rule(root)
	ns, undefined := p.reach(root)
	for _, n := range ns {
		can = can && p.rule(n)
	}
	ag, err := abnf.NewASTGenerator(g, root, abnf.WithMaxDepth(depth), abnf.WithMaxLen(length), abnf.WithMaxRepeat(rep))
	if undefined || !can {
		sym.Assert(err != nil, "NewASTGenerator accepts a rule that cannot be generated from")
		sym.Reach("refused")
		return nil
	}
	sym.Assert(err == nil, "NewASTGenerator refuses a rule that can be generated from")
	return ag
}

func checkAST(g *abnf.Grammar, root string, tape []byte, depth, length, rep int) {
	ag := newAST(g, root, depth, length, rep)
	if ag == nil {
		return
	}
	sym.Note("tape", string(tape))
	admits(g, root, ag.Generate(tape), "ASTGenerator.Generate")
	sym.Reach("generated")
}

func p10(g *abnf.Grammar, root string) {
	checkAST(g, root, octets(sym.Choice(5+2*sym.Tier())), 2, 3, 2)
}

func H_P10_seq()   { p10(gf_seq()) }
func H_P10_pair()  { p10(gf_pair()) }
func H_P10_dag()   { p10(gf_dag()) }
func H_P10_odd()   { p10(gf_odd()) }
func H_P10_chars() { p10(gf_chars()) }
func H_P10_core()  { p10(gf_core()) }
func H_P10_range() { p10(gf_range()) }

// H_P10_count: repetition bounds against every budget.
func H_P10_count() {
	checkAST(counted(3+sym.Tier()), "r", octets(4), sym.Choice(3), sym.Choice(4), sym.Choice(3))
}

// H_P10_rand: the same driven by pseudo-random numbers.
func H_P10_rand() {
	g, root := gf_dag()
	ag := newAST(g, root, 2, 3, 2)
	if ag == nil {
		return
	}
	admits(g, root, ag.GenerateRand(rand.New(tapeRand{})), "ASTGenerator.GenerateRand")
	sym.Reach("generated")
}

// H_P10_null: recursion that emits nothing, under the default budgets.
func H_P10_null() {
	k := 1 + sym.Choice(3)
	rs := []abnf.Repetition{}
	for i := 0; i < k; i++ {
		rs = append(rs, one(nR))
	}
	c := conc(rs...)
	switch sym.Choice(3) {
	case 1:
		c = conc(rp(0, -1, nR))
	case 2:
		c = conc(one(option(c)))
	}
	d := conc(one(chars("")))
	cs := [][]abnf.Concatenation{{c, d}, {d, c}}[sym.Choice(2)]
	g := grammar(rule("r", cs...))
	sym.Note("grammar", text(g))
	ag, err := abnf.NewASTGenerator(g, "r")
	sym.Assert(err == nil, "NewASTGenerator refuses a rule that can be generated from")
	b := sym.Byte()
	tape := make([]byte, 64*sym.Choice(2))
	for i := range tape {
		tape[i] = b
	}
	out := ag.Generate(tape)
	sym.Assert(len(out) == 0, "ASTGenerator.Generate emitted a text the rule does not admit")
	sym.Reach("generated")
}
