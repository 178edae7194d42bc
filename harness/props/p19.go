package props

import (
	"errors"

	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P19_shape"] = H_P19_shape
	Registry["H_P19_two"] = H_P19_two
	Registry["H_P19_num"] = H_P19_num
	Registry["H_P19_count"] = H_P19_count
}

// verdicts of the reference validation
type faults struct{ dep, rep, num bool }

func (f *faults) alt(g *abnf.Grammar, a abnf.Alternation) {
	for _, c := range a.Concatenations {
		for _, r := range c.Repetitions {
			if r.Max >= 0 && r.Min > r.Max {
				f.rep = true
			}
			switch v := r.Element.(type) {
			case abnf.ElemGroup:
				f.alt(g, v.Alternation)
			case abnf.ElemOption:
				f.alt(g, v.Alternation)
			case abnf.ElemRulename:
				ok := false
				for _, x := range g.Rulemap {
					ok = ok || sameName(x.Name, v.Name)
				}
				for _, n := range coreNames {
					ok = ok || sameName(n, v.Name)
				}
				if !ok {
					f.dep = true
				}
			case abnf.ElemNumVal:
				for _, e := range v.Elems {
					if numeral(e, v.Base) > 0x10FFFF {
						f.num = true
					}
				}
			}
		}
	}
}

func checkSemval(g *abnf.Grammar) {
	sym.Note("grammar", text(g))
	f := &faults{}
	for _, r := range g.Rulemap {
		f.alt(g, r.Alternation)
	}
	err := abnf.SemvalABNF(g)
	var d *abnf.ErrDependencyNotFound
	var s *abnf.ErrSemanticRepetition
	var n *abnf.ErrTooLargeNumeral
	switch {
	case err == nil:
		sym.Assert(!f.dep, "a reference to an undefined rule passes validation")
		sym.Assert(!f.rep, "a repetition with min > max passes validation")
		sym.Assert(!f.num, "a numeral beyond Unicode passes validation")
		sym.Reach("valid")
	case errors.As(err, &d):
		sym.Assert(f.dep, "every reference is defined, yet validation reports one that is not")
		sym.Reach("dep")
	case errors.As(err, &s):
		sym.Assert(f.rep, "every repetition has min <= max, yet validation reports one")
		sym.Reach("rep")
	case errors.As(err, &n):
		sym.Assert(f.num, "every numeral is in range, yet validation reports one")
		sym.Reach("num")
	default:
		sym.Assert(false, "an unexpected validation error")
	}
}

var semLeaves = []abnf.ElemItf{chars("a"), rn("R"), rn("digit"), rn("nope"), hex("41"), hex("110000"), hexRange("0", "10ffff"), hexRange("10FFFF", "110000"), hex("41", "42", "0110000")}

// H_P19_shape: faults anywhere in a rule.
func H_P19_shape() {
	x := &gen{names: []string{"r"}, leaves: semLeaves, reps: [][2]int{{0, -1}, {2, 1}}}
	b := [3]int{2, 1, 1}
	if sym.Tier() == 1 {
		b = [3]int{2, 1, 2}
	}
	checkSemval(x.grammar(b))
}

// H_P19_two: faults in any of several rules.
func H_P19_two() {
	g := grammar()
	n := 1 + sym.Choice(3)
	for i := 0; i < n; i++ {
		e := semLeaves[sym.Choice(len(semLeaves))]
		if sym.Bool() {
			e = option(conc(one(cA)), conc(one(group(conc(one(cA), rp(1, -1, e))))))
		}
		name := "r" + itoa(i)
		if i == 1 {
			name = "R"
		}
		g.Rulemap[name] = rule(name, conc(one(cA), one(e)))
	}
	checkSemval(g)
}

// H_P19_num: numerals around the limit with symbolic digits.
func H_P19_num() {
	base := aBase()
	max := map[string]int{"x": 7, "d": 8, "b": 4}[base]
	s := anyNumeral(base, max)
	switch base {
	case "b":
		s += "111111111111111111"
	case "x":
		if sym.Bool() {
			s = "00" + s
		}
	}
	if sym.Bool() {
		base = string(rune(base[0] - 32))
	}
	e := abnf.ElemNumVal{Base: base, Status: abnf.StatSeries, Elems: []string{"1", s}}
	if sym.Bool() {
		e = abnf.ElemNumVal{Base: base, Status: abnf.StatRange, Elems: []string{s, "1"}}
	}
	checkSemval(grammar(rule("r", conc(one(e)))))
}

// H_P19_count: any repetition bounds.
func H_P19_count() {
	lo, hi := sym.Int(0, 40), sym.Int(-1, 40)
	e := abnf.ElemItf(cA)
	if sym.Bool() {
		e = opt(e)
	}
	r := rp(lo, hi, e)
	if sym.Bool() {
		r = one(group(conc(one(cA)), conc(r)))
	}
	checkSemval(grammar(rule("r", conc(one(cA), r))))
}
