package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P25_rules"] = H_P25_rules
	Registry["H_P25_core"] = H_P25_core
	Registry["H_P25_text"] = H_P25_text
}

// checkRules reads a text under given options: the result is the grammar the
// definitions add up to, or the error of the first definition that is refused;
// nothing but the result changes.
func checkRules(in []byte, validate, redefine bool) {
	sym.Note("text", string(in))
	ds, ok := readABNF(in)
	want := badSyntax
	var g *abnf.Grammar
	if ok {
		g, want = denoted(ds, redefine)
	}
	var sizes []int
	for _, c := range coreNames {
		sizes = append(sizes, coreSize(c))
	}
	got, err := abnf.ParseABNF(in, abnf.WithValidation(validate), abnf.WithRedefineCoreRules(redefine))
	v := verdict(err)
	f := &faults{}
	if want == okGrammar && validate {
		for _, r := range g.Rulemap {
			f.alt(g, r.Alternation)
		}
		if f.dep || f.rep || f.num {
			want = badSemantics
		}
	}
	sym.Assert(v == want, "the wrong verdict on a list of definitions")
	if want == okGrammar {
		sym.Assert(sameGrammar(g, got), "the definitions add up to a different grammar")
		sym.Reach("accept")
	} else {
		sym.Assert(got == nil, "a grammar besides an error")
		sym.Reach([]string{"", "syntax", "core", "duplicate", "increment", "semantics"}[want])
	}
	for i, c := range coreNames {
		sym.Assert(coreSize(c) == sizes[i], "a core rule changed for every grammar")
	}
	sym.Observe("verdict", v)
}

func coreSize(name string) int {
	return len(abnf.GetRule(name, nil).Alternation.Concatenations)
}

var elemTexts = []string{"\"a\"", "\"b\" / R", "zz", "3*2\"a\"", "bit", "%x110000"}

// H_P25_rules: lists of definitions and increments of user rules.
func H_P25_rules() {
	names := []string{"r", "R", "s"}
	n := 1 + sym.Choice(3+sym.Tier())
	s := ""
	for i := 0; i < n; i++ {
		k := 1
		if i == n-1 {
			k = len(elemTexts)
		} else if i == 0 {
			k = 2
		}
		s += names[sym.Choice(3)] + []string{"=", "=/"}[sym.Choice(2)] + elemTexts[sym.Choice(k)] + crlf
	}
	checkRules([]byte(s), sym.Choice(2) == 1, false)
}

// H_P25_core: core rules redefined and extended, when allowed and when not.
func H_P25_core() {
	names := []string{"ALPHA", "alpha", "r", "Bit"}
	n := 1 + sym.Choice(2+sym.Tier())
	s := ""
	for i := 0; i < n; i++ {
		s += names[sym.Choice(4)] + []string{"=", "=/"}[sym.Choice(2)] + elemTexts[sym.Choice(2)] + crlf
	}
	if sym.Tier() == 0 && sym.Bool() {
		s += "aLPHA=/\"c\"" + crlf
	}
	checkRules([]byte(s), sym.Choice(2) == 1, sym.Choice(2) == 1)
}

// H_P25_text: reading is a function of the text: reading another grammar in
// between changes nothing.
func H_P25_text() {
	a := []string{"alpha=/\"1\"", "digit=\"1\"", "r=/\"a\"", "r=\"a\"", "r=r", "r=", "CHAR=/r"}
	x, y := a[sym.Choice(len(a))], a[sym.Choice(len(a))]
	opts := []abnf.ABNFOption{abnf.WithRedefineCoreRules(sym.Choice(2) == 1)}
	sym.Note("first", x)
	sym.Note("second", y)
	g1, e1 := abnf.ParseABNF([]byte(x+crlf), opts...)
	_, e2 := abnf.ParseABNF([]byte(y+crlf), opts...)
	g3, e3 := abnf.ParseABNF([]byte(x+crlf), opts...)
	sym.Assert(verdict(e1) == verdict(e3), "reading a text twice gives different verdicts")
	if e1 == nil && e3 == nil {
		sym.Assert(sameGrammar(g1, g3), "reading a text twice gives different grammars")
		sym.Reach("accept")
	}
	if e2 != nil {
		sym.Reach("reject")
	}
}
