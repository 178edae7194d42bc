package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P15_flat"] = H_P15_flat
	Registry["H_P15_dag"] = H_P15_dag
	Registry["H_P15_count"] = H_P15_count
	Registry["H_P15_odd"] = H_P15_odd
	Registry["H_P15_chars"] = H_P15_chars
	Registry["H_P15_core"] = H_P15_core
	Registry["H_P15_nums"] = H_P15_nums
	Registry["H_P15_nested"] = H_P15_nested
	Registry["H_P16_flat"] = H_P16_flat
	Registry["H_P16_dag"] = H_P16_dag
	Registry["H_P16_count"] = H_P16_count
	Registry["H_P16_odd"] = H_P16_odd
	Registry["H_P16_values"] = H_P16_values
}

// walks tells whether a walk from an entrypoint to an endpoint spells the input.
func walks(tg *abnf.TransitionGraph, in []byte) bool {
	n := len(in)
	isEnd := func(x *abnf.Node) bool {
		for _, e := range tg.Endpoints {
			if e == x {
				return true
			}
		}
		return false
	}
	for _, e := range tg.Entrypoints {
		if e == nil && n == 0 && isEnd(nil) {
			return true
		}
	}
	type at struct {
		node *abnf.Node
		pos  int
	}
	seen := map[at]bool{}
	var visit func(x *abnf.Node, p int) bool
	visit = func(x *abnf.Node, p int) bool {
		if x == nil || seen[at{x, p}] {
			return false
		}
		seen[at{x, p}] = true
		s := 0
		switch v := x.Elem.(type) {
		case abnf.ElemCharVal:
			s = charMatch(v, in, p)
		case abnf.ElemNumVal:
			s = numMatch(v, in, p)
		}
		for q := p; q <= n; q++ {
			if s>>uint(q)&1 == 0 {
				continue
			}
			if q == n && isEnd(x) {
				return true
			}
			for _, y := range x.Nexts {
				if visit(y, q) {
					return true
				}
			}
		}
		return false
	}
	for _, e := range tg.Entrypoints {
		if visit(e, 0) {
			return true
		}
	}
	return false
}

func checkGraph(g *abnf.Grammar, root string, in []byte, opts ...abnf.TGOption) {
	tg := graphOf(g, root, opts...)
	if tg == nil {
		return
	}
	sym.Note("input", string(in))
	want := newRef(g, in).valid(root)
	sym.Assert(walks(tg, in) == want, "the transition graph differs from the language of the grammar")
	witness(want)
}

func H_P15_flat() {
	g, root := gf_flat()
	checkGraph(g, root, letters(sym.Choice(4), 2), tgOpts()...)
}

func H_P15_dag() {
	g, root := gf_dag()
	checkGraph(g, root, letters(sym.Choice(4+sym.Tier()), 5), tgOpts()...)
}

func H_P15_count() {
	g, root := gf_counted()
	checkGraph(g, root, letters(sym.Choice(5+sym.Tier()), 3), tgOpts()...)
}

func H_P15_odd() {
	g, root := gf_odd()
	opts := []abnf.TGOption{}
	if sym.Choice(2) == 1 {
		opts = append(opts, abnf.WithDeflateNumVals(true))
	}
	checkGraph(g, root, octets(sym.Choice(4+sym.Tier())), opts...)
}

func H_P15_chars() {
	g, root := gf_chars()
	checkGraph(g, root, octets(sym.Choice(4)), tgOpts()...)
}

func H_P15_core() {
	g, root := gf_core()
	checkGraph(g, root, octets(sym.Choice(3)), tgOpts()...)
}

// H_P15_nums: numeric terminals, deflated or not, repeated or not.
func H_P15_nums() {
	xs := []abnf.ElemItf{hexRange("61", "63"), hex("61", "62"), hex("61", "62", "63"), hex("62"), hexRange("E8", "EA"), hex("61", "E9")}
	x, y := xs[sym.Choice(len(xs))], xs[sym.Choice(len(xs))]
	reps := [][2]int{{1, 1}, {0, 1}, {0, -1}, {2, 2}, {1, 2}, {2, -1}}
	r := reps[sym.Choice(len(reps))]
	var g *abnf.Grammar
	if sym.Choice(2) == 1 {
		g = grammar(rule("r", conc(rp(r[0], r[1], x), one(y))))
	} else {
		g = grammar(rule("r", conc(rp(r[0], r[1], x)), conc(one(rn("s")), one(rn("S")))), rule("s", conc(one(y))))
	}
	opts := []abnf.TGOption{}
	if sym.Choice(2) == 1 {
		opts = append(opts, abnf.WithDeflateNumVals(true))
	}
	in := octets(sym.Choice(4))
	checkGraph(g, "r", in, opts...)
}

// H_P15_nested: repetitions of repetitions.
func H_P15_nested() {
	reps := [][2]int{{1, 1}, {0, 1}, {0, -1}, {1, -1}, {2, 2}, {1, 2}, {2, -1}, {0, 2}, {2, 3}, {0, 0}}
	a, b := reps[sym.Choice(len(reps))], reps[sym.Choice(len(reps))]
	var in abnf.ElemItf
	switch sym.Choice(3) {
	case 0:
		in = group(conc(rp(b[0], b[1], schars("a")), one(schars("b"))))
	case 1:
		in = group(conc(rp(b[0], b[1], schars("a"))), conc(one(schars("bb"))))
	case 2:
		in = option(conc(one(schars("b")), rp(b[0], b[1], schars("a"))))
	}
	g := grammar(rule("r", conc(rp(a[0], a[1], in), one(opt(schars("a"))))))
	checkGraph(g, "r", letters(sym.Choice(6+sym.Tier()), 2))
}

// P16: the readers of a transition graph.

const manyTexts = 300

// scan reads everything, in either coverage mode.
func scan(tg *abnf.TransitionGraph, compact bool) [][]byte {
	var r *abnf.TransitionGraphReader
	if compact {
		r = tg.Reader(abnf.WithCoverageMode(abnf.CoverageCompact))
	} else {
		r = tg.Reader()
	}
	var out [][]byte
	for r.Next() {
		w := r.Scan()
		out = append(out, append([]byte{}, w...))
		if len(out) > 40*manyTexts {
			sym.Assert(false, "the reader does not end")
		}
	}
	sym.Assert(r.Scan() == nil, "the reader gives more after its end")
	sym.Assert(!r.Next(), "the reader gives more after its end")
	return out
}

// shows lists the texts a node can stand for.
func shows(n *abnf.Node) []string {
	switch v := n.Elem.(type) {
	case abnf.ElemCharVal:
		out := []string{""}
		for _, c := range v.Values {
			cs := []rune{c}
			if !v.Sensitive && c >= 'a' && c <= 'z' {
				cs = append(cs, c-32)
			} else if !v.Sensitive && c >= 'A' && c <= 'Z' {
				cs = append(cs, c+32)
			}
			var next []string
			for _, p := range out {
				for _, c := range cs {
					next = append(next, p+string(c))
				}
			}
			out = next
		}
		return out
	case abnf.ElemNumVal:
		if !denotes(v) {
			return nil
		}
		if v.Status == abnf.StatRange {
			var out []string
			lo, hi := numeral(v.Elems[0], v.Base), numeral(v.Elems[1], v.Base)
			sym.Assume(hi-lo < 0x900)
			for c := lo; c <= hi && c <= 0x10FFFF; c++ {
				if scalar(c) {
					out = append(out, string(rune(c)))
				}
			}
			return out
		}
		s := ""
		for _, e := range v.Elems {
			s += string(rune(numeral(e, v.Base)))
		}
		return []string{s}
	}
	return nil
}

// trails lists the texts of the walks from an entrypoint to an endpoint that
// use no edge twice. Graphs with too many of them are left out.
func trails(tg *abnf.TransitionGraph) map[string]bool {
	type edge struct{ a, b *abnf.Node }
	used := map[edge]bool{}
	isEnd := map[*abnf.Node]bool{}
	for _, e := range tg.Endpoints {
		isEnd[e] = true
	}
	out := map[string]bool{}
	steps := 0
	var visit func(x *abnf.Node, texts []string)
	visit = func(x *abnf.Node, texts []string) {
		steps++
		sym.Assume(steps <= 4*manyTexts)
		var next []string
		vs := shows(x)
		sym.Assume(len(vs)*len(texts) <= manyTexts)
		for _, t := range texts {
			for _, v := range vs {
				next = append(next, t+v)
			}
		}
		if len(next) == 0 {
			return
		}
		if isEnd[x] {
			for _, t := range next {
				out[t] = true
			}
			sym.Assume(len(out) <= manyTexts)
		}
		for _, y := range x.Nexts {
			if y != nil && !used[edge{x, y}] {
				used[edge{x, y}] = true
				visit(y, next)
				used[edge{x, y}] = false
			}
		}
	}
	for _, e := range tg.Entrypoints {
		if e == nil {
			if isEnd[nil] {
				out[""] = true
			}
			continue
		}
		visit(e, []string{""})
	}
	return out
}

// finite tells whether no repetition is unbounded.
func finite(g *abnf.Grammar) bool {
	ok := true
	var alt func(a abnf.Alternation)
	alt = func(a abnf.Alternation) {
		for _, c := range a.Concatenations {
			for _, r := range c.Repetitions {
				ok = ok && r.Max >= 0
				switch v := r.Element.(type) {
				case abnf.ElemGroup:
					alt(v.Alternation)
				case abnf.ElemOption:
					alt(v.Alternation)
				}
			}
		}
	}
	for _, r := range g.Rulemap {
		alt(r.Alternation)
	}
	return ok
}

func checkReader(g *abnf.Grammar, root string, in []byte, opts ...abnf.TGOption) {
	tg := graphOf(g, root, opts...)
	if tg == nil {
		return
	}
	want := trails(tg)
	all := scan(tg, false)
	got := map[string]bool{}
	for _, w := range all {
		sym.Assert(want[string(w)], "the reader (all trails) gives a text that no trail spells")
		got[string(w)] = true
	}
	sym.Assert(len(got) == len(want), "the reader (all trails) misses the text of a trail")
	for w := range want {
		admits(g, root, []byte(w), "the reader (all trails)")
	}
	can := newProd(g).rule(root)
	sym.Assert((len(all) > 0) == can, "the reader (all trails) is wrong on whether there is a text")
	if finite(g) {
		sym.Note("input", string(in))
		has := false
		for w := range want {
			has = has || w == string(in)
		}
		want := newRef(g, in).valid(root)
		sym.Assert(!want || has, "the reader (all trails) misses a text of a finite language")
		if want {
			sym.Reach("listed")
		}
	}
	few := scan(tg, true)
	for _, w := range few {
		admits(g, root, w, "the reader (compact)")
	}
	sym.Assert((len(few) > 0) == can, "the reader (compact) is wrong on whether there is a text")
	sym.Reach("read")
}

func H_P16_flat() {
	g, root := gf_flat()
	checkReader(g, root, letters(sym.Choice(4), 2))
}

func H_P16_dag() {
	g, root := gf_dag()
	checkReader(g, root, letters(sym.Choice(3+sym.Tier()), 5))
}

func H_P16_count() {
	g := counted(2 + sym.Tier())
	g.Rulemap["s"] = rule("s", conc(one(schars("b"))), conc(one(hexRange("64", "65"))))
	checkReader(g, "r", letters(sym.Choice(4), 4))
}

func H_P16_odd() {
	g, root := gf_odd()
	checkReader(g, root, octets(sym.Choice(3)))
}

// H_P16_values: the compact reader shows every node, every edge and every value of
// every terminal. Each leaf has letters of its own, so a text tells its path.
func H_P16_values() {
	k := 0
	leaf := func() abnf.ElemItf {
		k++
		c := rune('a' + 2*k)
		switch sym.Choice(3) {
		case 0:
			return abnf.ElemCharVal{Values: []rune{c}}
		case 1:
			return hexRange(numeralOf(int64(c), "x"), numeralOf(int64(c)+1, "x"))
		}
		return abnf.ElemCharVal{Sensitive: true, Values: []rune{c}}
	}
	reps := [][2]int{{1, 1}, {0, 1}, {0, -1}, {2, 2}}
	rep := func(e abnf.ElemItf) abnf.Repetition {
		r := reps[sym.Choice(len(reps)-1+sym.Tier())]
		return rp(r[0], r[1], e)
	}
	var a abnf.Alternation
	switch sym.Choice(4) {
	case 0:
		a = alt(conc(rep(leaf()), rep(leaf()), one(leaf())))
	case 1:
		a = alt(conc(rep(leaf())), conc(one(leaf()), rep(leaf())))
	case 2:
		a = alt(conc(rep(group(conc(one(leaf())), conc(one(leaf())))), rep(leaf())))
	case 3:
		a = alt(conc(rep(option(conc(one(leaf()), rep(leaf())))), one(leaf())))
	}
	g := grammar(&abnf.Rule{Name: "r", Alternation: a})
	tg := graphOf(g, "r")
	if tg == nil {
		return
	}
	texts := scan(tg, true)
	for _, w := range texts {
		admits(g, "r", w, "the reader")
	}
	shown := func(part string) bool {
		for _, w := range texts {
			for i := 0; i+len(part) <= len(w); i++ {
				if string(w[i:i+len(part)]) == part {
					return true
				}
			}
		}
		return false
	}
	values := shows
	done := map[*abnf.Node]bool{}
	var visit func(n *abnf.Node)
	visit = func(n *abnf.Node) {
		if n == nil || done[n] {
			return
		}
		done[n] = true
		for _, x := range values(n) {
			sym.Assert(shown(x), "the reader never shows a value of a terminal")
		}
		for _, m := range n.Nexts {
			edge := false
			for _, x := range values(n) {
				for _, y := range values(m) {
					edge = edge || shown(x+y)
				}
			}
			sym.Assert(edge, "the reader never follows an edge")
			visit(m)
		}
	}
	for _, e := range tg.Entrypoints {
		visit(e)
	}
	sym.Reach("covered")
}
