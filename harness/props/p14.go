package props

import (
	"errors"
	"regexp/syntax"
	"unicode"

	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P14_flat"] = H_P14_flat
	Registry["H_P14_nest"] = H_P14_nest
	Registry["H_P14_dag"] = H_P14_dag
	Registry["H_P14_rec"] = H_P14_rec
	Registry["H_P14_odd"] = H_P14_odd
	Registry["H_P14_chars"] = H_P14_chars
	Registry["H_P14_core"] = H_P14_core
	Registry["H_P14_range"] = H_P14_range
	Registry["H_P14_count"] = H_P14_count
	Registry["H_P14_limit"] = H_P14_limit
	Registry["H_P14_class"] = H_P14_class
	Registry["H_P14_punct"] = H_P14_punct
	Registry["H_P14_len"] = H_P14_len
}

// reStep gives the positions a regular expression leads to from some of the
// positions s of a text. It follows the documented meaning of RE2 syntax; the
// pattern is read by regexp/syntax.
func reStep(re *syntax.Regexp, in []byte, s int) int {
	n := len(in)
	switch re.Op {
	case syntax.OpNoMatch:
		return 0
	case syntax.OpEmptyMatch:
		return s
	case syntax.OpLiteral:
		for _, r := range re.Rune {
			s = reRune(in, s, func(c rune) bool {
				if c == r {
					return true
				}
				if re.Flags&syntax.FoldCase != 0 {
					for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
						if c == f {
							return true
						}
					}
				}
				return false
			})
		}
		return s
	case syntax.OpCharClass:
		return reRune(in, s, func(c rune) bool {
			for i := 0; i+1 < len(re.Rune); i += 2 {
				if c >= re.Rune[i] && c <= re.Rune[i+1] {
					return true
				}
			}
			return false
		})
	case syntax.OpAnyChar:
		return reRune(in, s, func(rune) bool { return true })
	case syntax.OpAnyCharNotNL:
		return reRune(in, s, func(c rune) bool { return c != '\n' })
	case syntax.OpBeginText:
		return s & 1
	case syntax.OpEndText:
		return s & (1 << uint(n))
	case syntax.OpCapture:
		return reStep(re.Sub[0], in, s)
	case syntax.OpStar:
		return reTimes(re.Sub[0], in, s, 0, -1)
	case syntax.OpPlus:
		return reTimes(re.Sub[0], in, s, 1, -1)
	case syntax.OpQuest:
		return reTimes(re.Sub[0], in, s, 0, 1)
	case syntax.OpRepeat:
		return reTimes(re.Sub[0], in, s, re.Min, re.Max)
	case syntax.OpConcat:
		for _, x := range re.Sub {
			s = reStep(x, in, s)
		}
		return s
	case syntax.OpAlternate:
		t := 0
		for _, x := range re.Sub {
			t |= reStep(x, in, s)
		}
		return t
	}
	panic("operator out of reach of the harness: " + re.Op.String())
}

func reRune(in []byte, s int, f func(rune) bool) int {
	t := 0
	for p := range in {
		if s>>uint(p)&1 == 0 {
			continue
		}
		c, k := decode(in, p)
		if k > 0 && f(c) {
			t |= 1 << uint(p+k)
		}
	}
	return t
}

func reTimes(re *syntax.Regexp, in []byte, s, min, max int) int {
	for i := 0; i < min && s != 0; i++ {
		t := reStep(re, in, s)
		if t == s {
			break
		}
		s = t
	}
	all := s
	for i := min; max < 0 || i < max; i++ {
		s = reStep(re, in, s) &^ all
		if s == 0 {
			break
		}
		all |= s
	}
	return all
}

// patternOf asks for the regular expression of a rule, which exists unless the
// rule is unknown, refers to an unknown one, is cyclic or has prose.
func patternOf(g *abnf.Grammar, root string) (string, bool) {
	p := newProd(g)
	ns, undefined := p.reach(root)
	prose := false
	for _, n := range ns {
		if k := p.find(n); k >= 0 {
			prose = prose || hasProse(p.rules[k].Alternation)
		}
	}
	s, err := g.Regex(root)
	if undefined || prose || p.cyclic(root) {
		sym.Assert(err != nil, "Regex accepts a rule no regular expression stands for")
		sym.Reach("refused")
		return "", false
	}
	if err != nil && repeats(g, rn(root)) > 1000 {
		sym.Reach("refused")
		return "", false
	}
	sym.Assert(err == nil, "Regex refuses a rule a regular expression stands for")
	sym.Note("regex", s)
	return s, err == nil
}

func checkRegex(g *abnf.Grammar, root string, in []byte) {
	s, ok := patternOf(g, root)
	if !ok {
		return
	}
	re, err := syntax.Parse(s, syntax.Perl)
	sym.Assert(err == nil, "Regex gives an invalid regular expression")
	sym.Note("input", string(in))
	want := newRef(g, in).valid(root)
	got := reStep(re, in, 1)>>uint(len(in))&1 == 1
	sym.Assert(got == want, "the regular expression differs from the language of the rule")
	witness(want)
}

func H_P14_flat() {
	g, root := gf_flat()
	checkRegex(g, root, letters(sym.Choice(4), 3))
}

// H_P14_nest: groups and options within each other, of one or two characters.
func H_P14_nest() {
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{schars("a"), schars("ab"), hexRange("61", "62")}, reps: [][2]int{{0, -1}, {2, 2}, {1, 2}}}
	b := [3]int{2, 1, 2}
	if sym.Tier() == 1 {
		b = [3]int{3, 2, 2}
	}
	checkRegex(x.noself().grammar(b), "r", letters(sym.Choice(4), 3))
}

func H_P14_dag() {
	g, root := gf_dag()
	checkRegex(g, root, letters(sym.Choice(4), 5))
}

// H_P14_rec: two rules that may be cyclic or not.
func H_P14_rec() {
	g, root := gf_pair()
	checkRegex(g, root, letters(sym.Choice(3), 2))
}

func H_P14_odd() {
	g, root := gf_odd()
	checkRegex(g, root, octets(sym.Choice(3+sym.Tier())))
}

func H_P14_chars() {
	g, root := gf_chars()
	checkRegex(g, root, octets(sym.Choice(3+sym.Tier())))
}

func H_P14_core() {
	g, root := gf_core()
	checkRegex(g, root, octets(sym.Choice(3)))
}

func H_P14_range() {
	g, root := gf_range()
	checkRegex(g, root, octets(sym.Choice(5)))
}

func H_P14_count() {
	checkRegex(counted(4+sym.Tier()), "r", letters(sym.Choice(6), 3))
}

// repeats gives the largest product of the counts of repetitions within each
// other: RE2 has no patterns with more than 1000.
func repeats(g *abnf.Grammar, e abnf.ElemItf) int {
	var a abnf.Alternation
	switch v := e.(type) {
	case abnf.ElemRulename:
		r := abnf.GetRule(v.Name, g.Rulemap)
		if r == nil {
			return 1
		}
		a = r.Alternation
	case abnf.ElemGroup:
		a = v.Alternation
	case abnf.ElemOption:
		a = v.Alternation
	default:
		return 1
	}
	most := 1
	for _, c := range a.Concatenations {
		for _, rep := range c.Repetitions {
			n := repeats(g, rep.Element)
			k := rep.Max
			if k < 0 {
				k = rep.Min
			}
			if k > 1000 {
				k = 1001
			}
			if k > 1 {
				n *= k
			}
			if n > most {
				most = n
			}
		}
	}
	return most
}

// H_P14_limit: repetition counts around what RE2 admits, alone and within each
// other: the pattern is one RE2 reads, or is refused.
func H_P14_limit() {
	ns := []int{2, 3, 333, 334, 500, 501, 1000, 1001, 70000}
	n := ns[sym.Choice(len(ns))]
	bounds := func(n int) (int, int) {
		switch sym.Choice(3) {
		case 0:
			return n, n
		case 1:
			return 0, n
		}
		return n, -1
	}
	lo, hi := bounds(n)
	var e abnf.ElemItf
	switch sym.Choice(5) {
	case 0:
		e = schars("a")
	case 1:
		e = schars("ab")
	case 2:
		e = option(conc(one(schars("a"))))
	case 3:
		m := ns[sym.Choice(4)]
		l, h := bounds(m)
		e = group(conc(rp(l, h, schars("a"))))
	case 4:
		e = rn("s")
	}
	g := grammar(rule("r", conc(rp(lo, hi, e))), rule("s", conc(one(schars("a"))), conc(rp(2, 2, schars("b")))))
	checkRegex(g, "r", letters(sym.Choice(4), 2))
}

// H_P14_class: alternatives that are characters, ranges and strings, which the
// builder merges into classes, with the characters special to patterns.
func H_P14_class() {
	xs := []abnf.ElemItf{
		hexRange("5B", "5E"), hex("2D"), hexRange("61", "63"), hex("5C"), hexRange("2A", "2F"), chars("k"), chars("]"), hex("5D", "2D"),
		hexRange("64", "7A"), hexRange("D7F0", "E010"), hex("212A"), hexRange("0", "60"), hexRange("80", "10FFFF"), chars("^$"), hex("62"), rn("digit"), hex("D800"), chars(""),
	}
	n := len(xs)
	if sym.Tier() == 0 {
		n = 9
	}
	x, y, z := xs[sym.Choice(len(xs))], xs[sym.Choice(n)], xs[sym.Choice(n)]
	var g *abnf.Grammar
	switch sym.Choice(3) {
	case 0:
		g = grammar(rule("r", conc(one(x)), conc(one(y)), conc(one(z))))
	case 1:
		g = grammar(rule("r", conc(one(group(conc(one(x)), conc(one(y)))), one(z))))
	case 2:
		g = grammar(rule("r", conc(rp(0, -1, group(conc(one(x)), conc(one(y))))), conc(one(z))))
	}
	checkRegex(g, "r", octets(sym.Choice(3)))
}

// H_P14_punct: classes of three characters, most of them special in patterns.
func H_P14_punct() {
	cs := []string{"!", "-", "[", "]", "^", "_", "a", "\\", "&", "|", "$", "\"", "0", " ", "~", "é", "."}
	var as []abnf.Concatenation
	n := sym.Tier()*4 + 13
	k := sym.Choice(n - 2)
	l := k + 1 + sym.Choice(n-2-k)
	m := l + 1 + sym.Choice(n-l-1)
	for _, i := range []int{l, k, m} {
		as = append(as, conc(one(schars(cs[i]))))
	}
	var g *abnf.Grammar
	switch sym.Choice(2) {
	case 0:
		g = grammar(rule("r", as...))
	case 1:
		g = grammar(rule("r", conc(rp(2, 2, group(as...)))))
	}
	checkRegex(g, "r", octets(1+sym.Choice(2)))
}

// H_P14_len: the length budget.
func H_P14_len() { checkRegexLen(gf_dag()) }

func checkRegexLen(g *abnf.Grammar, root string) {
	s, ok := patternOf(g, root)
	if !ok || s == "" {
		return
	}
	n := len(s)
	ks := []int{0, 1, n / 2, n - 1, n, n + 1, 2 * n}
	k := ks[sym.Choice(len(ks))]
	t, err := g.Regex(root, abnf.WithMaxRegexLen(k))
	if k > 0 && k < n {
		var e *abnf.ErrRegexTooLarge
		sym.Assert(errors.As(err, &e) && e.Max == k, "Regex exceeds its budget without telling")
		sym.Assert(t == "", "Regex returns part of a pattern")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil && t == s, "Regex refuses a pattern within its budget")
	sym.Reach("within")
}
