package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

// Scenarios: families of grammars and inputs, every part of which is symbolic.

var twoLetters = []abnf.ElemItf{chars("a"), chars("b"), chars("")}

// sc_seq: one rule, sequences and alternatives with one repetition.
func sc_seq() (*abnf.Grammar, string, []byte) {
	n, m := 3, 1
	if sym.Tier() == 1 {
		m = 2
	}
	x := &gen{names: []string{"r"}, leaves: twoLetters, reps: allReps}
	g := x.grammar([3]int{n, m, 0})
	return g, "r", letters(sym.Choice(4), 2)
}

// sc_nest: one rule, nested groups and options.
func sc_nest() (*abnf.Grammar, string, []byte) {
	x := &gen{names: []string{"r"}, leaves: twoLetters, reps: [][2]int{{0, -1}, {2, 2}}}
	b := [3]int{2, 1, 2}
	if sym.Tier() == 1 {
		b, x.reps = [3]int{3, 1, 2}, allReps
	}
	g := x.grammar(b)
	return g, "r", letters(sym.Choice(4), 2)
}

// sc_rep2: repetitions inside repetitions.
func sc_rep2() (*abnf.Grammar, string, []byte) {
	x := &gen{leaves: []abnf.ElemItf{chars("a"), chars("b")}, reps: [][2]int{{0, -1}, {0, 1}, {2, 2}, {2, -1}, {1, 2}}}
	b := [3]int{2, 2, 1}
	if sym.Tier() == 1 {
		b, x.reps = [3]int{2, 3, 1}, allReps
	}
	x.names = []string{"r"}
	g := x.noself().grammar(b)
	return g, "r", letters(sym.Choice(4), 2)
}

// sc_pair: two mutually referring rules.
func sc_pair() (*abnf.Grammar, string, []byte) {
	x := &gen{names: []string{"r", "s"}, leaves: []abnf.ElemItf{chars("a"), chars("")}, reps: [][2]int{{0, -1}, {0, 1}}}
	b1, b2 := [3]int{2, 0, 1}, [3]int{2, 0, 0}
	if sym.Tier() == 1 {
		b1, b2 = [3]int{3, 0, 1}, [3]int{2, 1, 1}
	}
	g := x.grammar(b1, b2)
	return g, "r", letters(sym.Choice(4), 2)
}

// sc_trio: three rules, recursion through all of them.
func sc_trio() (*abnf.Grammar, string, []byte) {
	x := &gen{names: []string{"r", "s", "t"}, leaves: []abnf.ElemItf{chars("a")}, reps: [][2]int{{0, 1}}}
	b := [3]int{2, 0, 0}
	if sym.Tier() == 1 {
		b = [3]int{2, 1, 0}
	}
	g := x.grammar(b, b, b)
	return g, "r", letters(sym.Choice(4), 2)
}

// sc_large: repetition counts beyond the length of the input.
func sc_large() (*abnf.Grammar, string, []byte) {
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{chars("a"), chars("")}, reps: bigReps}
	g := x.grammar([3]int{2, 2, 1})
	return g, "r", letters(sym.Choice(3+sym.Tier()), 1)
}

// sc_count: arbitrary repetition bounds.
func sc_count() (*abnf.Grammar, string, []byte) {
	lo := sym.Conc(sym.Int(0, 6))
	hi := sym.Conc(sym.Int(-1, 6))
	sym.Assume(hi < 0 || lo <= hi)
	var e abnf.ElemItf
	switch sym.Choice(4) {
	case 0:
		e = chars("a")
	case 1:
		e = group(conc(one(chars("a"))), conc(one(chars("aa"))))
	case 2:
		e = option(conc(one(chars("ab"))))
	case 3:
		e = rn("s")
	}
	g := grammar(rule("r", conc(rp(lo, hi, e), rp(0, 1, chars("b")))), rule("s", conc(one(chars("b")), rp(0, -1, chars("a")))))
	return g, "r", letters(sym.Choice(6+sym.Tier()), 2)
}

// sc_charval: arbitrary quoted strings on arbitrary octets.
func sc_charval() (*abnf.Grammar, string, []byte) {
	k := sym.Choice(3)
	vs := make([]rune, k)
	for i := range vs {
		c := sym.Byte()
		sym.Assume(c >= 0x20 && c <= 0x7E && c != 0x22)
		vs[i] = rune(c)
	}
	e := abnf.ElemCharVal{Sensitive: sym.Bool(), Values: vs}
	g := grammar(rule("r", conc(one(e))))
	return g, "r", octets(sym.Choice(4))
}

// sc_twochar: two quoted strings of the same letters, each case-sensitive or
// not, bare, grouped or repeated.
func sc_twochar() (*abnf.Grammar, string, []byte) {
	wrap := func() abnf.Repetition {
		c := sym.Byte()
		sym.Assume(c >= 0x40 && c <= 0x7A)
		e := abnf.ElemCharVal{Sensitive: sym.Bool(), Values: []rune{rune(c)}}
		switch sym.Choice(4) {
		case 1:
			return one(group(conc(one(e))))
		case 2:
			return one(option(conc(one(e))))
		case 3:
			return rp(0, -1, e)
		}
		return one(e)
	}
	a, b := wrap(), wrap()
	var g *abnf.Grammar
	if sym.Bool() {
		g = grammar(rule("r", conc(a, b)))
	} else {
		g = grammar(rule("r", conc(a), conc(b)))
	}
	in := octets(2)
	sym.Assume(in[0] < 0x80 && in[1] < 0x80)
	return g, "r", in
}

// sc_numval: arbitrary numerals on arbitrary octets.
func sc_numval() (*abnf.Grammar, string, []byte) {
	e := anyNumVal(2, 2+sym.Tier())
	g := grammar(rule("r", conc(one(e))))
	return g, "r", octets(sym.Choice(3 + sym.Tier()))
}

// sc_edge: ranges and series between the edges of the encoding, characters
// beyond ASCII, alone or after a letter.
func sc_edge() (*abnf.Grammar, string, []byte) {
	es := []int64{0, 0x41, 0x7F, 0x80, 0x7FF, 0xD800, 0xFFFF, 0x10FFFF, 0x110000, 0x100000041}
	var e abnf.ElemItf
	n := 1
	switch sym.Choice(3) {
	case 0:
		lo, hi := es[sym.Choice(len(es))], es[sym.Choice(len(es))]
		e = abnf.ElemNumVal{Base: "x", Status: abnf.StatRange, Elems: []string{numeralOf(lo, "x"), numeralOf(hi, "x")}}
		n += sym.Choice(2 + 2*sym.Tier())
	case 1:
		e = hex(numeralOf(es[sym.Choice(len(es))], "x"), "41")
		n += sym.Choice(2 + 2*sym.Tier())
	case 2:
		s := []string{"\u00e9", "\u0130", "\u017f", "k", "\u212a"}[sym.Choice(5)]
		e = abnf.ElemCharVal{Sensitive: sym.Choice(2) == 1, Values: []rune(s)}
		n += sym.Choice(3)
	}
	in := octets(n)
	if sym.Choice(2) == 1 {
		return grammar(rule("r", conc(one(schars("z")), one(e)))), "r", append([]byte("z"), in...)
	}
	return grammar(rule("r", conc(one(e)))), "r", in
}

// sc_core: every core rule, under any spelling of its name.
func sc_core() (*abnf.Grammar, string, []byte) {
	name := anyCase(coreNames[sym.Choice(len(coreNames))])
	g := grammar(rule("r", conc(one(rn(name)))))
	root := "r"
	if sym.Bool() {
		root = name
	}
	return g, root, octets(sym.Choice(4))
}

// sc_T is a development aid: large random grammars.
func sc_T() (*abnf.Grammar, string, []byte) {
	x := &gen{names: []string{"r", "s", "t"}, leaves: []abnf.ElemItf{chars("a"), chars("b"), schars("a"), chars("")}, reps: allReps}
	g := x.grammar([3]int{5, 2, 2}, [3]int{4, 2, 2}, [3]int{4, 2, 1})
	return g, "r", letters(sym.Choice(6), 2)
}

// palette builds rules out of ready-made repetitions.
type palette struct {
	used map[string]bool
}

func (p *palette) mark(a abnf.Alternation) {
	for _, c := range a.Concatenations {
		for _, r := range c.Repetitions {
			switch v := r.Element.(type) {
			case abnf.ElemRulename:
				p.used[v.Name] = true
			case abnf.ElemGroup:
				p.mark(v.Alternation)
			case abnf.ElemOption:
				p.mark(v.Alternation)
			}
		}
	}
}

// free draws a rule of 1..max slots, split into alternatives anywhere.
func (p *palette) free(slots []abnf.Repetition, max int) abnf.Alternation {
	a := alt(conc(slots[sym.Choice(len(slots))]))
	for n := 1; n < max; n++ {
		k := sym.Choice(3)
		if k == 0 {
			break
		}
		s := slots[sym.Choice(len(slots))]
		if k == 1 {
			i := len(a.Concatenations) - 1
			a.Concatenations[i].Repetitions = append(a.Concatenations[i].Repetitions, s)
		} else {
			a.Concatenations = append(a.Concatenations, conc(s))
		}
	}
	p.mark(a)
	return a
}

func (p *palette) pick(as ...abnf.Alternation) abnf.Alternation {
	a := as[sym.Choice(len(as))]
	p.mark(a)
	return a
}

// finish adds rules s and t when something refers to them.
func (p *palette) finish(root abnf.Alternation, s, t []abnf.Alternation) *abnf.Grammar {
	g := grammar(&abnf.Rule{Name: "r", Alternation: root})
	if p.used["s"] {
		g.Rulemap["s"] = &abnf.Rule{Name: "s", Alternation: p.pick(s...)}
	}
	if p.used["t"] {
		g.Rulemap["t"] = &abnf.Rule{Name: "t", Alternation: p.pick(t...)}
		if p.used["s"] && g.Rulemap["s"] == nil {
			g.Rulemap["s"] = &abnf.Rule{Name: "s", Alternation: p.pick(s...)}
		}
	}
	return g
}

func opt(e abnf.ElemItf) abnf.ElemItf { return option(conc(one(e))) }

var (
	cA, cB, cE = chars("a"), chars("b"), chars("")
	nR, nS, nT = rn("r"), rn("s"), rn("t")
	star       = func(e abnf.ElemItf) abnf.Repetition { return rp(0, -1, e) }
)

func sDefs() []abnf.Alternation {
	return []abnf.Alternation{
		alt(conc(one(opt(cB)))),
		alt(conc(one(nT))),
		alt(conc(one(nS), one(cA)), conc(one(cB))),
		alt(conc(one(nR)), conc(one(cE))),
		alt(conc(one(nT), one(nT))),
	}
}

func tDefs() []abnf.Alternation {
	return []abnf.Alternation{
		alt(conc(one(cE))),
		alt(conc(one(opt(cA)))),
		alt(conc(star(cB))),
	}
}

// sc_mix: three slots out of a palette, two auxiliary rules.
func sc_mix() (*abnf.Grammar, string, []byte) {
	p := &palette{used: map[string]bool{}}
	slots := []abnf.Repetition{one(cA), star(cA), one(opt(cB)), one(nR), one(nS), rp(2, 2, nS), one(group(conc(one(cA)), conc(one(chars("aa")))))}
	n := 3
	if sym.Tier() == 1 {
		n = 4
		slots = append(slots, rp(1, 2, opt(cA)), one(cB), one(nT))
	}
	g := p.finish(p.free(slots, n), sDefs(), tDefs())
	return g, "r", letters(sym.Choice(4), 2)
}

// sc_tmpl: r = X Y Z / W with recursion hidden behind nullable prefixes.
func sc_tmpl() (*abnf.Grammar, string, []byte) {
	p := &palette{used: map[string]bool{}}
	one1 := func(rs ...abnf.Repetition) abnf.Repetition { return rs[sym.Choice(len(rs))] }
	x := one1(one(opt(cB)), star(cB), one(nS), one(opt(nR)), one(cE), one(group(conc(one(cB)), conc(one(cE)))), rp(0, 1, cB))
	y := one1(one(nR), one(nS), star(nR), one(cA), one(group(conc(one(nR)))))
	z := one1(one(cA), one(nS), one(opt(cB)), star(cA))
	w := one1(one(cA), one(cE), one(nS), one(cB))
	root := alt(conc(x, y, z), conc(w))
	if sym.Tier() == 1 && sym.Bool() {
		root = alt(conc(w), conc(x, y, z))
	}
	p.mark(root)
	g := p.finish(root, sDefs(), tDefs())
	return g, "r", letters(sym.Choice(4+sym.Tier()), 2)
}

var longCounts = []int{0, 1, 9, 10, 15, 16, 17, 31, 32, 33}

// sc_long: repetition counts and inputs of a few dozen.
func sc_long() (*abnf.Grammar, string, []byte) {
	lo := longCounts[sym.Choice(len(longCounts))]
	hi := -1
	if k := sym.Choice(len(longCounts) + 1); k > 0 {
		hi = longCounts[k-1]
		sym.Assume(lo <= hi)
	}
	n := 0
	if sym.Tier() == 1 {
		n = sym.Choice(54)
	} else {
		ls := []int{0, 1, 8, 9, 10, 11, 15, 16, 17, 18, 31, 32, 33, 34}
		n = ls[sym.Choice(len(ls))]
	}
	in := make([]byte, n)
	for i := range in {
		in[i] = 'a'
	}
	if n > 0 {
		in[n-1] += byte(sym.Int(0, 1))
	}
	if n > 1 {
		in[n/2] += byte(sym.Int(0, 1))
	}
	g := grammar(rule("r", conc(rp(lo, hi, cA), rp(0, 1, cB))))
	return g, "r", in
}

// sc_deep: a rule reached through many levels of rules, groups and options.
func sc_deep() (*abnf.Grammar, string, []byte) {
	ds := []int{0, 1, 2, 7, 15, 16, 17, 23}
	depth := ds[sym.Choice(len(ds))]
	name := func(i int) string { return "r" + itoa(i) }
	g := grammar(rule(name(depth), conc(one(cA)), conc(one(cB), one(rn(name(0))))))
	for i := 0; i < depth; i++ {
		k := 0
		if i == 0 || i == depth-1 {
			k = sym.Choice(3)
		}
		next := one(rn(name(i + 1)))
		switch k {
		case 0:
			g.Rulemap[name(i)] = rule(name(i), conc(next))
		case 1:
			g.Rulemap[name(i)] = rule(name(i), conc(one(group(conc(one(group(conc(next))))))))
		default:
			g.Rulemap[name(i)] = rule(name(i), conc(one(option(conc(next))), one(opt(cB))))
		}
	}
	return g, name(0), letters(sym.Choice(4), 2)
}
