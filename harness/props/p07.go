package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P07_shape"] = H_P07_shape
	Registry["H_P07_values"] = H_P07_values
	Registry["H_P07_rules"] = H_P07_rules
	Registry["H_P07_prose"] = H_P07_prose
	Registry["H_P07_count"] = H_P07_count
}

// checkPrint: both printers write text that denotes the very grammar.
func checkPrint(g *abnf.Grammar, reread bool) {
	sym.Note("grammar", text(g))
	for i, s := range []string{g.String(), g.PrettyPrint()} {
		what := []string{"String", "PrettyPrint"}[i]
		ds, ok := readABNF([]byte(s))
		sym.Assert(ok || len(g.Rulemap) == 0, what+" does not print ABNF")
		h, v := denoted(ds, true)
		sym.Assert(v == okGrammar && sameGrammar(g, h), what+" prints a different grammar")
		if reread {
			h, err := abnf.ParseABNF([]byte(s), abnf.WithValidation(false), abnf.WithRedefineCoreRules(true))
			sym.Assert(err == nil, "the text printed by "+what+" is not read back")
			sym.Assert(sameGrammar(g, h), "the text printed by "+what+" is read back as a different grammar")
		}
	}
	sym.Reach("printed")
	sym.ObserveS("elem", g.Rulemap["r"].String())
}

var printLeaves = []abnf.ElemItf{chars("a"), schars("B"), hex("1", "2"), hexRange("0", "F"), chars(""), abnf.ElemNumVal{Base: "d", Status: abnf.StatSeries, Elems: []string{"10"}}, rn("Some-rule")}

// H_P07_shape: arbitrary structures.
func H_P07_shape() {
	x := &gen{names: []string{"r"}, leaves: printLeaves[:3], reps: [][2]int{{0, -1}, {2, 3}, {0, 1}, {4, 4}, {0, 0}, {1, -1}, {10, -1}}}
	b := [3]int{3, 1, 1}
	if sym.Tier() == 1 {
		b = [3]int{3, 2, 2}
	}
	checkPrint(x.grammar(b), false)
}

// H_P07_values: strings and numerals of arbitrary printable content.
func H_P07_values() {
	var e abnf.ElemItf
	if sym.Choice(2) == 0 {
		vs := make([]rune, sym.Choice(4))
		for i := range vs {
			c := sym.Byte()
			sym.Assume(c >= 0x20 && c <= 0x7E && c != 0x22)
			vs[i] = rune(c)
		}
		e = abnf.ElemCharVal{Sensitive: sym.Bool(), Values: vs}
	} else {
		e = anyNumVal(3, 2)
	}
	r := one(e)
	switch sym.Choice(3) {
	case 1:
		r = rp(0, -1, option(conc(one(e))))
	case 2:
		r = rp(2, 2, group(conc(one(e)), conc(one(cA))))
	}
	checkPrint(grammar(rule("r", conc(r))), sym.Tier() == 1)
}

// H_P07_rules: several rules with names of different lengths, every map order.
func H_P07_rules() {
	names := []string{"r", "Rule-2", "s1", "alpha", "a-very-long-name", "CRLF"}
	g := grammar(rule("r", conc(one(printLeaves[sym.Choice(len(printLeaves))]))))
	for i := sym.Choice(3); i > 0; i-- {
		n := names[1+sym.Choice(5)]
		g.Rulemap[n] = rule(n, conc(one(rn(names[sym.Choice(2)]))), conc(one(cB), star(cA)))
	}
	anyOrder(2 + sym.Tier())
	checkPrint(g, sym.Tier() == 1 || len(g.Rulemap) < 3)
}

// H_P07_prose: prose survives reading and printing.
func H_P07_prose() {
	in := append([]byte("r=<"), octets(sym.Choice(3))...)
	in = append(in, ">\r\n"...)
	sym.Note("text", string(in))
	g, err := abnf.ParseABNF(in)
	if err != nil {
		sym.Reach("refused")
		return
	}
	ds, _ := readABNF(in)
	h, _ := denoted(ds, false)
	sym.Assert(h != nil && sameGrammar(h, g), "prose is read differently")
	checkPrint(g, true)
}

// H_P07_count: every repetition bound.
func H_P07_count() {
	lo, hi := sym.Choice(13), sym.Choice(14)-1
	if sym.Choice(2) == 1 {
		lo *= 100003
	}
	if hi > 0 && sym.Choice(2) == 1 {
		hi *= 1000000007
	}
	checkPrint(grammar(rule("r", conc(rp(lo, hi, printLeaves[sym.Choice(len(printLeaves))]), one(cA)))), false)
}
