package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

// prod is the reference of what can be generated: which rules derive some
// finite text.
type prod struct {
	g     *abnf.Grammar
	rules []*abnf.Rule
	ok    []bool
}

func newProd(g *abnf.Grammar) *prod {
	p := &prod{g: g}
	for _, r := range g.Rulemap {
		p.rules = append(p.rules, r)
	}
	p.ok = make([]bool, len(p.rules))
	for changed := true; changed; {
		changed = false
		for i, r := range p.rules {
			if !p.ok[i] && p.alt(r.Alternation) {
				p.ok[i] = true
				changed = true
			}
		}
	}
	return p
}

func isCore(name string) bool {
	for _, c := range coreNames {
		if sameName(c, name) {
			return true
		}
	}
	return false
}

func (p *prod) find(name string) int {
	for i, r := range p.rules {
		if sameName(r.Name, name) {
			return i
		}
	}
	return -1
}

func (p *prod) rule(name string) bool {
	if i := p.find(name); i >= 0 {
		return p.ok[i]
	}
	return isCore(name)
}

func (p *prod) alt(a abnf.Alternation) bool {
	for _, c := range a.Concatenations {
		if p.conc(c.Repetitions) {
			return true
		}
	}
	return false
}

func (p *prod) conc(rs []abnf.Repetition) bool {
	for _, r := range rs {
		if !p.rep(r) {
			return false
		}
	}
	return true
}

func (p *prod) rep(r abnf.Repetition) bool {
	if r.Max >= 0 && r.Min > r.Max {
		return false
	}
	return r.Min == 0 || p.elem(r.Element)
}

func (p *prod) elem(e abnf.ElemItf) bool {
	switch v := e.(type) {
	case abnf.ElemRulename:
		return p.rule(v.Name)
	case abnf.ElemGroup:
		return p.alt(v.Alternation)
	case abnf.ElemOption:
		return true
	case abnf.ElemCharVal:
		return true
	case abnf.ElemNumVal:
		return denotes(v)
	}
	return false
}

func scalar(v int64) bool { return v >= 0 && v < 0xD800 || v > 0xDFFF && v <= 0x10FFFF }

// denotes tells whether some text matches the numeric terminal.
func denotes(v abnf.ElemNumVal) bool {
	if v.Status == abnf.StatRange {
		lo, hi := numeral(v.Elems[0], v.Base), numeral(v.Elems[1], v.Base)
		if lo > hi || lo > 0x10FFFF {
			return false
		}
		return !(lo >= 0xD800 && hi <= 0xDFFF)
	}
	for _, e := range v.Elems {
		if !scalar(numeral(e, v.Base)) {
			return false
		}
	}
	return true
}

// reach lists the names of the rules referred to from a rule, itself included.
func (p *prod) reach(name string) (names []string, undefined bool) {
	names = []string{name}
	var alt func(a abnf.Alternation)
	alt = func(a abnf.Alternation) {
		for _, c := range a.Concatenations {
			for _, r := range c.Repetitions {
				switch v := r.Element.(type) {
				case abnf.ElemRulename:
					known := false
					for _, n := range names {
						known = known || sameName(n, v.Name)
					}
					if !known {
						names = append(names, v.Name)
					}
				case abnf.ElemGroup:
					alt(v.Alternation)
				case abnf.ElemOption:
					alt(v.Alternation)
				}
			}
		}
	}
	for i := 0; i < len(names); i++ {
		k := p.find(names[i])
		if k < 0 {
			undefined = undefined || !isCore(names[i])
			continue
		}
		alt(p.rules[k].Alternation)
	}
	return
}

// cyclic tells whether a rule reachable from the name reaches itself.
func (p *prod) cyclic(name string) bool {
	ns, _ := p.reach(name)
	for _, n := range ns {
		k := p.find(n)
		if k < 0 {
			continue
		}
		for _, d := range directRefs(p.rules[k].Alternation, nil) {
			ms, _ := p.reach(d)
			for _, m := range ms {
				if sameName(m, n) {
					return true
				}
			}
		}
	}
	return false
}

func directRefs(a abnf.Alternation, out []string) []string {
	for _, c := range a.Concatenations {
		for _, r := range c.Repetitions {
			switch v := r.Element.(type) {
			case abnf.ElemRulename:
				out = append(out, v.Name)
			case abnf.ElemGroup:
				out = directRefs(v.Alternation, out)
			case abnf.ElemOption:
				out = directRefs(v.Alternation, out)
			}
		}
	}
	return out
}

// Families of grammars to generate from.

func gf_seq() (*abnf.Grammar, string) {
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{chars("a"), chars("b1"), chars("")}, reps: allReps}
	b := [3]int{2, 1, 1}
	if sym.Tier() == 1 {
		b = [3]int{3, 1, 1}
	}
	return x.grammar(b), "r"
}

// gf_flat: no recursion.
func gf_flat() (*abnf.Grammar, string) {
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{schars("a"), schars("b"), chars("")}, reps: allReps}
	b := [3]int{2, 1, 1}
	if sym.Tier() == 1 {
		b = [3]int{3, 2, 1}
	}
	return x.noself().grammar(b), "r"
}

func gf_pair() (*abnf.Grammar, string) {
	x := &gen{names: []string{"r", "s"}, leaves: []abnf.ElemItf{schars("a"), schars("")}, reps: [][2]int{{0, -1}}}
	b1, b2 := [3]int{2, 0, 1}, [3]int{2, 0, 0}
	if sym.Tier() == 1 {
		b1, b2 = [3]int{3, 1, 1}, [3]int{2, 1, 0}
	}
	return x.grammar(b1, b2), "r"
}

// gf_dag: rules referring to later ones only, under different spellings.
func gf_dag() (*abnf.Grammar, string) {
	p := &palette{used: map[string]bool{}}
	slots := []abnf.Repetition{one(schars("a")), one(rn("S")), rp(2, 2, nS), rp(0, -1, nS), one(opt(nT)), rp(1, 2, group(conc(one(nT)), conc(one(schars("b")))))}
	root := p.free(slots, 2+sym.Tier())
	p.used["s"] = p.used["s"] || p.used["S"]
	s := []abnf.Alternation{
		alt(conc(one(nT), one(schars("c")))),
		alt(conc(one(opt(schars("c"))))),
		alt(conc(one(schars("c"))), conc(rp(2, -1, nT))),
	}
	t := []abnf.Alternation{
		alt(conc(one(schars("d")))),
		alt(conc(rp(0, 2, schars("d")))),
		alt(conc(one(schars("d"))), conc(one(schars("e")))),
	}
	return p.finish(root, s, t), "r"
}

// proseVal is a prose-val, which only the reader of ABNF can make.
var proseVal = func() abnf.ElemItf {
	g, err := abnf.ParseABNF([]byte("p = <x>\r\n"))
	if err == nil && g != nil {
		for _, r := range g.Rulemap {
			return r.Alternation.Concatenations[0].Repetitions[0].Element
		}
	}
	return rn("nope")
}()

var oddLeaves = []abnf.ElemItf{
	schars("a"),
	hexRange("D7FF", "E000"), hexRange("D800", "DFFF"), hexRange("5A", "58"), hexRange("110000", "110001"),
	hexRange("10FFFF", "FFFFFFFF"), hexRange("7F", "81"), hex("41", "D800"), hex("110000"), hex("E9", "10000"),
	proseVal, rn("nope"), hexRange("DFFF", "E001"),
}

// gf_odd: terminals at the edges of Unicode, unmatchable ones, prose, undefined
// rules, impossible repetitions, in every kind of place.
func gf_odd() (*abnf.Grammar, string) {
	x := oddLeaves[sym.Choice(len(oddLeaves))]
	y := oddLeaves[sym.Choice(1+sym.Tier()*(len(oddLeaves)-1))]
	var a abnf.Alternation
	switch sym.Choice(9) {
	case 0:
		a = alt(conc(one(x)))
	case 1:
		a = alt(conc(one(x)), conc(one(y)))
	case 2:
		a = alt(conc(one(opt(x)), one(y)))
	case 3:
		a = alt(conc(rp(0, -1, x), one(y)))
	case 4:
		a = alt(conc(rp(0, 2, x)))
	case 5:
		a = alt(conc(one(group(conc(one(y)), conc(one(x), one(y))))))
	case 6:
		a = alt(conc(rp(2, 1, x)), conc(one(y)))
	case 7:
		a = alt(conc(one(option(conc(rp(2, 1, y)), conc(one(x))))))
	case 8:
		a = alt(conc(rp(2, 2, group(conc(one(x), one(y)), conc(one(y))))))
	}
	g := grammar(rule("r", conc(one(rn("s")))))
	if sym.Bool() {
		g = grammar(&abnf.Rule{Name: "r", Alternation: a})
	} else {
		g.Rulemap["s"] = &abnf.Rule{Name: "s", Alternation: a}
	}
	return g, "r"
}

// gf_chars: any short quoted string.
func gf_chars() (*abnf.Grammar, string) {
	return grammar(rule("r", conc(one(abnf.ElemCharVal{Sensitive: sym.Bool(), Values: printable(sym.Choice(3))})))), "r"
}

// printable: n arbitrary characters of a quoted string.
func printable(n int) []rune {
	vs := make([]rune, n)
	for i := range vs {
		c := sym.Byte()
		sym.Assume(c >= 0x20 && c <= 0x7E && c != 0x22)
		vs[i] = rune(c)
	}
	return vs
}

// gf_core: every core rule.
func gf_core() (*abnf.Grammar, string) {
	n := coreNames[sym.Choice(len(coreNames))]
	if sym.Bool() {
		return grammar(), n
	}
	return grammar(rule("r", conc(one(rn(n))))), "r"
}

// gf_range: a range between any two edges.
func gf_range() (*abnf.Grammar, string) {
	lo, hi := edges[sym.Choice(len(edges))], edges[sym.Choice(len(edges))]
	base := "x"
	if sym.Tier() == 1 {
		base = aBase()
	}
	return grammar(rule("r", conc(one(abnf.ElemNumVal{Base: base, Status: abnf.StatRange, Elems: []string{numeralOf(lo, base), numeralOf(hi, base)}})))), "r"
}

// gf_counted: a repetition with any small bounds of one of several elements.
func gf_counted() (*abnf.Grammar, string) { return counted(3 + sym.Tier()), "r" }
