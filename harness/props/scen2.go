package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P01_gaps"] = H_P01_gaps
	Registry["H_P02_gaps"] = H_P02_gaps
	Registry["H_P03_gaps"] = H_P03_gaps
	Registry["H_P04_gaps"] = H_P04_gaps
	Registry["H_P05_gaps"] = H_P05_gaps
	Registry["H_P01_ring"] = H_P01_ring
	Registry["H_P02_ring"] = H_P02_ring
	Registry["H_P03_ring"] = H_P03_ring
	Registry["H_P04_ring"] = H_P04_ring
	Registry["H_P05_ring"] = H_P05_ring
	Registry["H_P01_reuse"] = H_P01_reuse
	Registry["H_P02_reuse"] = H_P02_reuse
	Registry["H_P03_reuse"] = H_P03_reuse
	Registry["H_P04_reuse"] = H_P04_reuse
	Registry["H_P05_reuse"] = H_P05_reuse
}

func H_P01_gaps()  { checkRecognizer(sc_gaps()) }
func H_P02_gaps()  { checkForest(sc_gaps()) }
func H_P03_gaps()  { checkBSR(sc_gaps()) }
func H_P04_gaps()  { checkCount(sc_gaps()) }
func H_P05_gaps()  { checkTree(sc_gaps()) }
func H_P01_ring()  { checkRecognizer(sc_ring()) }
func H_P02_ring()  { checkForest(sc_ring()) }
func H_P03_ring()  { checkBSR(sc_ring()) }
func H_P04_ring()  { checkCount(sc_ring()) }
func H_P05_ring()  { checkTree(sc_ring()) }
func H_P01_reuse() { checkRecognizer(sc_reuse()) }
func H_P02_reuse() { checkForest(sc_reuse()) }
func H_P03_reuse() { checkBSR(sc_reuse()) }
func H_P04_reuse() { checkCount(sc_reuse()) }
func H_P05_reuse() { checkTree(sc_reuse()) }

// sc_gaps: a repetition of any set of substrings of a word of distinct letters,
// so that a position may be within reach of some counts and not of others.
func sc_gaps() (*abnf.Grammar, string, []byte) {
	w := "abcd"
	if sym.Tier() == 1 {
		w = "abcde"
	}
	var cs []abnf.Concatenation
	for n := len(w); n > 0; n-- {
		for i := 0; i+n <= len(w); i++ {
			if sym.Choice(2) == 1 {
				cs = append(cs, conc(one(chars(w[i:i+n]))))
			}
		}
	}
	sym.Assume(len(cs) > 0)
	lo := 2 + sym.Choice(3)
	hi := -1
	if k := sym.Choice(3); k > 0 {
		hi = lo + k
	}
	g := grammar(rule("r", conc(rp(lo, hi, group(cs...)))))
	return g, "r", []byte(w)
}

// sc_ring: up to four rules that refer to each other from the left, one with a
// base, one with a second way round, one reference behind something optional.
func sc_ring() (*abnf.Grammar, string, []byte) {
	n := 2 + sym.Choice(3)
	name := func(i int) string { return "r" + itoa(i%n) }
	base := sym.Choice(n)
	from, to := sym.Choice(n), sym.Choice(n)
	kind := sym.Choice(4)
	at := 0
	if kind > 0 {
		at = sym.Choice(n)
	}
	g := grammar()
	for i := 0; i < n; i++ {
		next := one(rn(name(i + 1)))
		c := conc(next, one(cB))
		if kind > 0 && i == at {
			switch kind {
			case 1:
				c = conc(one(opt(cB)), next)
			case 2:
				c = conc(next)
			case 3:
				c = conc(one(group(conc(next), conc(one(cB)))), one(cA))
			}
		}
		r := rule(name(i), c)
		if i == base {
			r.Alternation.Concatenations = append(r.Alternation.Concatenations, conc(one(cA)))
		}
		if i == from {
			r.Alternation.Concatenations = append(r.Alternation.Concatenations, conc(one(rn(name(to))), one(cA)))
		}
		g.Rulemap[name(i)] = r
	}
	return g, "r0", letters(sym.Choice(5+sym.Tier()), 2)
}

// sc_reuse: a rule used from two places at one position; it starts with
// something that ends in several ways.
func sc_reuse() (*abnf.Grammar, string, []byte) {
	heads := []abnf.Repetition{one(opt(cA)), star(cA), rp(0, 2, cA), one(nS), one(opt(nS)), one(group(conc(one(cE)), conc(one(cA)), conc(one(chars("aa"))))), rp(1, 2, opt(cA)), one(cE)}
	mids := []abnf.Repetition{one(cA), one(opt(cA)), star(cB), one(cE), one(opt(nS))}
	h := heads[sym.Choice(len(heads))]
	m := mids[sym.Choice(len(mids))]
	t := rule("t", conc(h, m, one(cA)))
	if sym.Choice(2) == 1 {
		t.Alternation.Concatenations = append(t.Alternation.Concatenations, conc(h, one(cB)))
	}
	s := []*abnf.Rule{rule("s", conc(one(opt(cA)))), rule("s", conc(one(cE)), conc(one(cA), one(nS))), rule("s", conc(one(cA)), conc(one(cE)))}[sym.Choice(3)]
	var r *abnf.Rule
	switch sym.Choice(4) {
	case 0:
		r = rule("r", conc(one(nT), one(cA)), conc(one(nT), one(cB)))
	case 1:
		r = rule("r", conc(one(opt(cB)), one(nT), one(cB)), conc(star(cB), one(nT)))
	case 2:
		r = rule("r", conc(one(nT), one(nT)), conc(one(nT), one(opt(nT))))
	case 3:
		r = rule("r", conc(one(nS), one(nT)), conc(one(opt(nT)), one(nT)))
	}
	return grammar(r, s, t), "r", letters(sym.Choice(5), 2)
}
