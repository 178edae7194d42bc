package props

import (
	"strconv"

	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P08_range"] = H_P08_range
	Registry["H_P08_astral"] = H_P08_astral
	Registry["H_P08_series"] = H_P08_series
	Registry["H_P08_huge"] = H_P08_huge
	Registry["H_P08_digits"] = H_P08_digits
}

// edges are the code points around which encodings change, and values beyond
// Unicode and beyond every machine word.
var edges = []int64{0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0x100000041}

func numeralOf(v int64, base string) string {
	switch base {
	case "b":
		return strconv.FormatInt(v, 2)
	case "d":
		return strconv.FormatInt(v, 10)
	}
	return strconv.FormatInt(v, 16)
}

// checkEngines: the three recognizers agree with the reference.
func checkEngines(g *abnf.Grammar, root string, in []byte) {
	sym.Note("grammar", text(g))
	sym.Note("input", string(in))
	want := newRef(g, in).valid(root)
	sym.Assert(recognizes(g, root, in) == want, "IsValid differs from the language of the grammar")
	f, err := abnf.Parse(in, g, root)
	sym.Assert(err == nil && f.Valid() == want, "the forest differs from the language of the grammar")
	b, err := abnf.ParseBSR(in, g, root)
	sym.Assert(err == nil && b.Valid() == want, "the BSR differs from the language of the grammar")
	witness(want)
}

func aBase() string { return []string{"x", "d", "b"}[sym.Choice(3)] }

// H_P08_range: ranges between any two edges, on all inputs.
func H_P08_range() {
	base := "x"
	if sym.Tier() == 1 {
		base = aBase()
	}
	lo, hi := edges[sym.Choice(len(edges))], edges[sym.Choice(len(edges))]
	e := abnf.ElemNumVal{Base: base, Status: abnf.StatRange, Elems: []string{numeralOf(lo, base), numeralOf(hi, base)}}
	checkEngines(grammar(rule("r", conc(one(e)))), "r", octets(1+sym.Choice(3+sym.Tier())))
}

// H_P08_astral: the same on all inputs of four octets that start like one
// scalar value.
func H_P08_astral() {
	es := []int64{0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x80000000, 0}
	lo, hi := es[sym.Choice(len(es))], es[sym.Choice(len(es))]
	e := abnf.ElemNumVal{Base: "x", Status: abnf.StatRange, Elems: []string{numeralOf(lo, "x"), numeralOf(hi, "x")}}
	in := octets(4)
	sym.Assume(in[0] >= 0xF0)
	checkEngines(grammar(rule("r", conc(one(e)))), "r", in)
}

// H_P08_series: series of edges.
func H_P08_series() {
	base := aBase()
	var es []string
	for i := 1 + sym.Choice(2); i > 0; i-- {
		es = append(es, numeralOf(edges[sym.Choice(len(edges))], base))
	}
	e := abnf.ElemNumVal{Base: base, Status: abnf.StatSeries, Elems: es}
	n := 4
	if len(es) == 2 {
		n = 2 + 2*sym.Tier()
	}
	checkEngines(grammar(rule("r", conc(one(e)))), "r", octets(sym.Choice(n+1)))
}

// H_P08_huge: numerals of any length, leading zeros included.
func H_P08_huge() {
	base := aBase()
	zeros := []int{0, 1, 7, 30, 70}[sym.Choice(5)]
	ones := []int{0, 1, 8, 17, 21, 32, 64, 70}[sym.Choice(8)]
	s := ""
	for i := 0; i < zeros; i++ {
		s += "0"
	}
	s += "1"
	for i := 0; i < ones; i++ {
		s += "0"
	}
	e := abnf.ElemNumVal{Base: base, Status: abnf.StatSeries, Elems: []string{s}}
	if sym.Bool() {
		e = abnf.ElemNumVal{Base: base, Status: abnf.StatRange, Elems: []string{"0", s}}
	} else if sym.Bool() {
		e = abnf.ElemNumVal{Base: base, Status: abnf.StatRange, Elems: []string{s, s + "1"}}
	}
	checkEngines(grammar(rule("r", conc(one(e)))), "r", octets(1+sym.Choice(3+sym.Tier())))
}

// H_P08_digits: every digit of a hexadecimal numeral is symbolic.
func H_P08_digits() {
	e := abnf.ElemNumVal{Base: "x", Status: abnf.StatSeries, Elems: []string{anyNumeral("x", 4)}}
	in := octets(1 + sym.Choice(3))
	sym.Assume(in[0] < 0x80 && len(in) == 1 || in[0] >= 0xC0 && in[0] < 0xE0 && len(in) == 2 || in[0] >= 0xE0 && in[0] < 0xF0 && len(in) == 3)
	checkEngines(grammar(rule("r", conc(one(e)))), "r", in)
}
