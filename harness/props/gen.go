package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

// gen builds an arbitrary grammar within a budget: every structural decision is
// a symbolic choice.
type gen struct {
	n, m, g int // remaining leaves, non-trivial repetitions, groups and options
	names   []string
	used    map[string]bool
	leaves  []abnf.ElemItf
	reps    [][2]int
	maxConc int  // repetitions per concatenation (0 = unlimited)
	nonrec  bool // rules may not refer to themselves or earlier ones
	cur     int
}

func (g *gen) noself() *gen { g.nonrec = true; return g }

func (g *gen) visible() []string {
	if g.nonrec {
		return g.names[g.cur+1:]
	}
	return g.names
}

func chars(s string) abnf.ElemCharVal { return abnf.ElemCharVal{Values: []rune(s)} }

func schars(s string) abnf.ElemCharVal {
	return abnf.ElemCharVal{Sensitive: true, Values: []rune(s)}
}

func hex(v ...string) abnf.ElemNumVal {
	return abnf.ElemNumVal{Base: "x", Status: abnf.StatSeries, Elems: v}
}

func hexRange(lo, hi string) abnf.ElemNumVal {
	return abnf.ElemNumVal{Base: "x", Status: abnf.StatRange, Elems: []string{lo, hi}}
}

func rn(s string) abnf.ElemRulename { return abnf.ElemRulename{Name: s} }

func one(e abnf.ElemItf) abnf.Repetition { return abnf.Repetition{Min: 1, Max: 1, Element: e} }

func rp(min, max int, e abnf.ElemItf) abnf.Repetition {
	return abnf.Repetition{Min: min, Max: max, Element: e}
}

func conc(rs ...abnf.Repetition) abnf.Concatenation { return abnf.Concatenation{Repetitions: rs} }

func alt(cs ...abnf.Concatenation) abnf.Alternation { return abnf.Alternation{Concatenations: cs} }

func group(cs ...abnf.Concatenation) abnf.ElemGroup { return abnf.ElemGroup{Alternation: alt(cs...)} }

func option(cs ...abnf.Concatenation) abnf.ElemOption {
	return abnf.ElemOption{Alternation: alt(cs...)}
}

func rule(name string, cs ...abnf.Concatenation) *abnf.Rule {
	return &abnf.Rule{Name: name, Alternation: alt(cs...)}
}

func grammar(rs ...*abnf.Rule) *abnf.Grammar {
	g := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{}}
	for _, r := range rs {
		g.Rulemap[r.Name] = r
	}
	return g
}

var bigReps = [][2]int{{5, 5}, {7, -1}, {6, 8}, {4, 5}, {3, 9}}

var allReps = [][2]int{{0, -1}, {1, -1}, {0, 1}, {2, 2}, {2, -1}, {0, 2}, {1, 2}, {0, 0}}

func (g *gen) alternation() abnf.Alternation {
	a := alt(g.concatenation())
	for g.n > 0 && sym.Choice(2) == 1 {
		a.Concatenations = append(a.Concatenations, g.concatenation())
	}
	return a
}

func (g *gen) concatenation() abnf.Concatenation {
	c := conc(g.repetition())
	for g.n > 0 && (g.maxConc == 0 || len(c.Repetitions) < g.maxConc) && sym.Choice(2) == 1 {
		c.Repetitions = append(c.Repetitions, g.repetition())
	}
	return c
}

func (g *gen) repetition() abnf.Repetition {
	min, max := 1, 1
	if g.m > 0 && len(g.reps) > 0 {
		if k := sym.Choice(len(g.reps) + 1); k > 0 {
			g.m--
			min, max = g.reps[k-1][0], g.reps[k-1][1]
		}
	}
	return abnf.Repetition{Min: min, Max: max, Element: g.element()}
}

func (g *gen) element() abnf.ElemItf {
	names := g.visible()
	k := len(g.leaves) + len(names)
	if g.g > 0 {
		k += 2
	}
	i := sym.Choice(k)
	if i < len(g.leaves) {
		g.n--
		return g.leaves[i]
	}
	i -= len(g.leaves)
	if i < len(names) {
		g.n--
		g.used[names[i]] = true
		return abnf.ElemRulename{Name: names[i]}
	}
	i -= len(names)
	g.g--
	a := g.alternation()
	if i == 0 {
		return abnf.ElemGroup{Alternation: a}
	}
	return abnf.ElemOption{Alternation: a}
}

// rules builds the first rule and every other rule that ends up referenced.
func (g *gen) grammar(budgets ...[3]int) *abnf.Grammar {
	out := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{}}
	g.used = map[string]bool{}
	for i, b := range budgets {
		if i > 0 && !g.used[g.names[i]] {
			continue
		}
		g.n, g.m, g.g, g.cur = b[0], b[1], b[2], i
		name := g.names[i]
		out.Rulemap[name] = &abnf.Rule{Name: name, Alternation: g.alternation()}
	}
	for _, n := range g.names {
		if g.used[n] && out.Rulemap[n] == nil {
			sym.Assume(false) // rule 2 referenced only by rule 3
		}
	}
	return out
}

// letters draws n letters out of 'a','b',...
func letters(n, k int) []byte {
	in := make([]byte, n)
	for i := range in {
		in[i] = byte('a' + sym.Int(0, k-1))
	}
	return in
}

func octets(n int) []byte {
	in := make([]byte, n)
	for i := range in {
		in[i] = sym.Byte()
	}
	return in
}

var coreNames = []string{"ALPHA", "BIT", "CHAR", "CR", "CRLF", "CTL", "DIGIT", "DQUOTE", "HEXDIG", "HTAB", "LF", "LWSP", "OCTET", "SP", "VCHAR", "WSP"}

// anyCase draws the case of the first and last letters of a name.
func anyCase(s string) string {
	b := []byte(s)
	for _, i := range []int{0, len(b) - 1} {
		if b[i] >= 'A' && b[i] <= 'Z' && sym.Bool() {
			b[i] += 32
		}
	}
	return string(b)
}

// anyNumeral draws a numeral of 1..max digits in the base.
func anyNumeral(base string, max int) string {
	n := 1 + sym.Choice(max)
	b := make([]byte, n)
	for i := range b {
		c := sym.Byte()
		switch base {
		case "b":
			sym.Assume(c >= '0' && c <= '1')
		case "d":
			sym.Assume(c >= '0' && c <= '9')
		default:
			sym.Assume(c >= '0' && c <= '9' || c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f')
		}
		b[i] = c
	}
	return string(b)
}

// anyNumVal draws a numeric terminal: a range or up to n values in a series.
func anyNumVal(n, digits int) abnf.ElemNumVal {
	base := []string{"x", "d", "b"}[sym.Choice(3)]
	if sym.Choice(2) == 0 {
		return abnf.ElemNumVal{Base: base, Status: abnf.StatRange, Elems: []string{anyNumeral(base, digits), anyNumeral(base, digits)}}
	}
	var es []string
	for i := 1 + sym.Choice(n); i > 0; i-- {
		es = append(es, anyNumeral(base, digits))
	}
	return abnf.ElemNumVal{Base: base, Status: abnf.StatSeries, Elems: es}
}
