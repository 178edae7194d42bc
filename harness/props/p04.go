package props

import (
	"math/big"

	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P05_deep"] = H_P05_deep
	Registry["H_P05_long"] = H_P05_long
	Registry["H_P05_tmpl"] = H_P05_tmpl
	Registry["H_P05_mix"] = H_P05_mix
	Registry["H_P04_deep"] = H_P04_deep
	Registry["H_P04_long"] = H_P04_long
	Registry["H_P04_tmpl"] = H_P04_tmpl
	Registry["H_P04_mix"] = H_P04_mix
	Registry["H_P04_seq"] = H_P04_seq
	Registry["H_P04_nest"] = H_P04_nest
	Registry["H_P04_rep2"] = H_P04_rep2
	Registry["H_P04_pair"] = H_P04_pair
	Registry["H_P04_trio"] = H_P04_trio
	Registry["H_P04_large"] = H_P04_large
	Registry["H_P04_count"] = H_P04_count
	Registry["H_P05_seq"] = H_P05_seq
	Registry["H_P05_nest"] = H_P05_nest
	Registry["H_P05_rep2"] = H_P05_rep2
	Registry["H_P05_pair"] = H_P05_pair
	Registry["H_P05_trio"] = H_P05_trio
	Registry["H_P05_large"] = H_P05_large
	Registry["H_P05_count"] = H_P05_count
	Registry["H_P04_T"] = H_P04_T
	Registry["H_P05_T"] = H_P05_T
}

const infinite = -1

// counter counts the derivations of a rule over a span of the input.
type counter struct {
	*ref
	stack map[[3]int]bool
	memo  map[[3]int]int
	inf   bool
}

func (c *counter) trees(name string) int {
	if !c.valid(name) {
		return 0
	}
	n := c.name(name, 0, len(c.in))
	if c.inf {
		return infinite
	}
	return n
}

func (c *counter) name(name string, l, r int) int {
	i := c.rule(name)
	if i < 0 {
		if !c.span(name, l, r) {
			return 0
		}
		return 1 // core rules have no ambiguity
	}
	if c.ends[i][l]>>uint(r)&1 == 0 {
		return 0
	}
	k := [3]int{i, l, r}
	if c.stack[k] {
		c.inf = true
		return 1
	}
	if n, ok := c.memo[k]; ok {
		return n
	}
	c.stack[k] = true
	n := c.altN(c.rules[i].Alternation, l, r)
	delete(c.stack, k)
	c.memo[k] = n
	return n
}

func (c *counter) altN(a abnf.Alternation, l, r int) int {
	n := 0
	if c.inf {
		return 0
	}
	for _, x := range a.Concatenations {
		n += c.concN(x.Repetitions, l, r)
	}
	return n
}

func (c *counter) concN(xs []abnf.Repetition, l, r int) int {
	if len(xs) == 0 {
		if l == r {
			return 1
		}
		return 0
	}
	n := 0
	for q := l; q <= r; q++ {
		if c.rep(xs[0], 1<<uint(l))>>uint(q)&1 == 0 {
			continue
		}
		if c.conc(conc(xs[1:]...), q)>>uint(r)&1 == 0 {
			continue
		}
		n += c.repN(xs[0], 0, l, q) * c.concN(xs[1:], q, r)
	}
	return n
}

// repN counts the ways to go on after k elements.
func (c *counter) repN(x abnf.Repetition, k, l, r int) int {
	n := 0
	if c.inf {
		return 0
	}
	if k >= x.Min && l == r {
		n++
	}
	if x.Max >= 0 && k >= x.Max {
		return n
	}
	rest := abnf.Repetition{Min: x.Min - k - 1, Max: x.Max, Element: x.Element}
	next := k + 1
	if rest.Min < 0 {
		rest.Min = 0
	}
	if x.Max >= 0 {
		rest.Max = x.Max - k - 1
	} else if next > x.Min {
		next = x.Min
	}
	for q := l; q <= r; q++ {
		if c.elem(x.Element, l)>>uint(q)&1 == 0 || c.rep(rest, 1<<uint(q))>>uint(r)&1 == 0 {
			continue
		}
		if q == l && next == k {
			c.inf = true // one more empty iteration is always possible
			continue
		}
		m := c.elemN(x.Element, l, q)
		n += m * c.repN(x, next, q, r)
	}
	return n
}

func (c *counter) elemN(e abnf.ElemItf, l, r int) int {
	switch v := e.(type) {
	case abnf.ElemRulename:
		return c.name(v.Name, l, r)
	case abnf.ElemGroup:
		return c.altN(v.Alternation, l, r)
	case abnf.ElemOption:
		n := c.altN(v.Alternation, l, r)
		if l == r {
			n++
		}
		return n
	}
	return 1
}

func small(n *big.Int) int {
	if !n.IsInt64() {
		return 1 << 40
	}
	return int(n.Int64())
}

func checkCount(g *abnf.Grammar, root string, in []byte) {
	sym.Note("grammar", text(g))
	sym.Note("input", string(in))
	c := &counter{ref: newRef(g, in), stack: map[[3]int]bool{}, memo: map[[3]int]int{}}
	want := c.trees(root)
	sym.Note("derivations", itoa(want))
	f, err := abnf.ParseForest(in, g, root)
	b, err2 := abnf.ParseBSR(in, g, root)
	if err != nil || err2 != nil {
		sym.Assert(false, "parsing fails for a defined rule")
		return
	}
	sym.Assert(small(f.NumTrees()) == want, "the forest's number of trees is not the number of derivations")
	sym.Assert(small(b.NumTrees()) == want, "the BSR's number of trees is not the number of derivations")
	amb := want != 0 && want != 1
	sym.Assert(f.Ambiguous() == amb, "the forest's ambiguity verdict is wrong")
	sym.Assert(b.Ambiguous() == amb, "the BSR's ambiguity verdict is wrong")
	switch want {
	case 0:
		sym.Reach("none")
	case 1:
		sym.Reach("one")
	case infinite:
		sym.Reach("infinite")
	default:
		sym.Reach("many")
	}
	sym.Observe("trees", small(f.NumTrees()))
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

// checkTree: the extracted tree is a derivation of the input.
func checkTree(g *abnf.Grammar, root string, in []byte) {
	sym.Note("grammar", text(g))
	sym.Note("input", string(in))
	c := &counter{ref: newRef(g, in), stack: map[[3]int]bool{}, memo: map[[3]int]int{}}
	n := c.trees(root)
	f, err := abnf.ParseForest(in, g, root)
	b, err2 := abnf.ParseBSR(in, g, root)
	if err != nil || err2 != nil {
		sym.Assert(false, "parsing fails for a defined rule")
		return
	}
	if n == 0 {
		sym.Assert(f.Tree() == nil, "a tree for a rejected input")
		sym.Assert(b.Tree() == nil, "a tree for a rejected input")
		return
	}
	if n == infinite {
		sym.Reach("infinite")
		sym.Assert(nested(f.Tree(), root, len(in)), "the tree's spans are inconsistent")
		sym.Assert(nested(b.Tree(), root, len(in)), "the BSR tree's spans are inconsistent")
		return
	}
	sym.Reach("tree")
	sym.Assert(derives(g, root, f.Tree(), in), "the tree is not a derivation of the input")
	sym.Assert(derives(g, root, b.Tree(), in), "the BSR tree is not a derivation of the input")
	sym.ObserveS("tree", treeText(f.Tree()))
}

func treeText(t *abnf.ParseTree) string {
	if t == nil {
		return "nil"
	}
	s := t.Rule + "[" + itoa(t.Start) + "," + itoa(t.End)
	for _, c := range t.Children {
		s += " " + treeText(c)
	}
	return s + "]"
}

func nested(t *abnf.ParseTree, root string, n int) bool {
	return t != nil && sameName(t.Rule, root) && t.Start == 0 && t.End == n && spans(t)
}

func spans(t *abnf.ParseTree) bool {
	p := t.Start
	for _, c := range t.Children {
		if c.Start < p || c.End < c.Start || c.End > t.End {
			return false
		}
		p = c.End
		if !spans(c) {
			return false
		}
	}
	return true
}

// derives tells whether t is a derivation tree for the rule: children are
// contiguous and read left to right they spell an expansion of the rule's
// definition. Leaves of no length are not required (nor forbidden).
func derives(g *abnf.Grammar, root string, t *abnf.ParseTree, in []byte) bool {
	if t == nil || !sameName(t.Rule, root) || t.Start != 0 || t.End != len(in) {
		return false
	}
	d := &deriver{g, in}
	return d.node(t)
}

type deriver struct {
	g  *abnf.Grammar
	in []byte
}

func (d *deriver) node(t *abnf.ParseTree) bool {
	p := t.Start
	kids := make([]*abnf.ParseTree, 0, len(t.Children))
	for _, c := range t.Children {
		if c.Start != p || c.End < c.Start {
			return false
		}
		p = c.End
		if c.Rule == "" {
			if len(c.Children) != 0 {
				return false
			}
			if c.End == c.Start {
				continue
			}
		} else if !d.node(c) {
			return false
		}
		kids = append(kids, c)
	}
	if p != t.End {
		return false
	}
	var def *abnf.Rule
	for _, r := range d.g.Rulemap {
		if sameName(r.Name, t.Rule) {
			def = r
		}
	}
	if def == nil {
		return coreMatch(t.Rule, d.in, t.Start)>>uint(t.End)&1 == 1
	}
	return d.alt(def.Alternation, kids, 1)>>uint(len(kids))&1 == 1
}

// The functions below map a set of child positions to the set reachable by
// consuming children.
func (d *deriver) alt(a abnf.Alternation, kids []*abnf.ParseTree, s int) int {
	t := 0
	for _, c := range a.Concatenations {
		x := s
		for _, r := range c.Repetitions {
			x = d.rep(r, kids, x)
		}
		t |= x
	}
	return t
}

func (d *deriver) rep(r abnf.Repetition, kids []*abnf.ParseTree, s int) int {
	for i := 0; i < r.Min; i++ {
		s = d.elem(r.Element, kids, s)
	}
	acc := s
	for k := r.Min; r.Max < 0 || k < r.Max; k++ {
		t := acc | d.elem(r.Element, kids, acc)
		if t == acc {
			break
		}
		acc = t
	}
	return acc
}

func (d *deriver) elem(e abnf.ElemItf, kids []*abnf.ParseTree, s int) int {
	if s == 0 {
		return 0
	}
	t := 0
	switch v := e.(type) {
	case abnf.ElemGroup:
		return d.alt(v.Alternation, kids, s)
	case abnf.ElemOption:
		return s | d.alt(v.Alternation, kids, s)
	case abnf.ElemRulename:
		for i, k := range kids {
			if s>>uint(i)&1 == 1 && sameName(k.Rule, v.Name) {
				t |= 1 << uint(i+1)
			}
		}
		return t
	}
	if emptyTerminal(e) {
		t = s
	}
	for i, k := range kids {
		if s>>uint(i)&1 == 1 && k.Rule == "" && d.term(e, k.Start)>>uint(k.End)&1 == 1 {
			t |= 1 << uint(i+1)
		}
	}
	return t
}

func (d *deriver) term(e abnf.ElemItf, p int) int {
	switch v := e.(type) {
	case abnf.ElemCharVal:
		return charMatch(v, d.in, p)
	case abnf.ElemNumVal:
		return numMatch(v, d.in, p)
	}
	return 0
}

func emptyTerminal(e abnf.ElemItf) bool {
	v, ok := e.(abnf.ElemCharVal)
	return ok && len(v.Values) == 0
}

func H_P04_T()     { checkCount(sc_T()) }
func H_P05_T()     { checkTree(sc_T()) }
func H_P04_seq()   { checkCount(sc_seq()) }
func H_P04_nest()  { checkCount(sc_nest()) }
func H_P04_rep2()  { checkCount(sc_rep2()) }
func H_P04_pair()  { checkCount(sc_pair()) }
func H_P04_trio()  { checkCount(sc_trio()) }
func H_P04_large() { checkCount(sc_large()) }
func H_P04_count() { checkCount(sc_count()) }
func H_P05_seq()   { checkTree(sc_seq()) }
func H_P05_nest()  { checkTree(sc_nest()) }
func H_P05_rep2()  { checkTree(sc_rep2()) }
func H_P05_pair()  { checkTree(sc_pair()) }
func H_P05_trio()  { checkTree(sc_trio()) }
func H_P05_large() { checkTree(sc_large()) }
func H_P05_count() { checkTree(sc_count()) }
func H_P04_mix()   { checkCount(sc_mix()) }
func H_P04_tmpl()  { checkCount(sc_tmpl()) }
func H_P04_long()  { checkCount(sc_long()) }
func H_P04_deep()  { checkCount(sc_deep()) }
func H_P05_mix()   { checkTree(sc_mix()) }
func H_P05_tmpl()  { checkTree(sc_tmpl()) }
func H_P05_long()  { checkTree(sc_long()) }
func H_P05_deep()  { checkTree(sc_deep()) }
