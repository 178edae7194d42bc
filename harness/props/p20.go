package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P20_names"] = H_P20_names
	Registry["H_P20_override"] = H_P20_override
	Registry["H_P20_core"] = H_P20_core
	Registry["H_P20_unknown"] = H_P20_unknown
	Registry["H_P21_graph"] = H_P21_graph
	Registry["H_P21_nested"] = H_P21_nested
	Registry["H_P21_core"] = H_P21_core
}

// spell draws the case of every letter of a name.
func spell(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && sym.Bool() {
			b[i] = c - 32
		}
	}
	return string(b)
}

// H_P20_names: a recursive two-rule grammar under any spelling of every name.
func H_P20_names() {
	r, s := spell("r"), spell("q-z")
	g := grammar(
		rule(r, conc(one(cA), one(rn(spell("q-z")))), conc(one(rn(spell("r"))), one(cB))),
		rule(s, conc(one(cB)), conc(one(cA), one(opt(rn(spell("r")))))))
	root := spell("r")
	in := letters(sym.Choice(4), 2)
	checkEngines(g, root, in)
	sym.Assert(abnf.GetRule(root, g.Rulemap) == g.Rulemap[r], "a rule is not found under another spelling")
	c, err := g.RuleContainsCycle(root)
	sym.Assert(err == nil && c, "recursion is missed under another spelling")
	sym.Assert(!g.IsDAG(), "recursion is missed under another spelling")
	sym.Assert(abnf.SemvalABNF(g) == nil, "validation rejects another spelling")
}

// H_P20_override: a grammar's own definition of a core rule takes precedence.
func H_P20_override() {
	name := []string{"digit", "wsp", "hexdig", "crlf"}[sym.Choice(4)]
	user := []string{"hexdig", "lwsp", "digit", "lwsp"}[sym.Choice(4)]
	def := spell2(name)
	g := grammar(rule(def, conc(one(cA))), rule("r", conc(one(rn(spell2(name))), one(rn(spell2(user))))))
	root := []string{"r", spell2(name), spell2(user)}[sym.Choice(3)]
	in := octets(sym.Choice(2 + sym.Tier()))
	if sym.Tier() == 0 && sym.Bool() {
		in = append(in, 'a')
	}
	sym.Note("root", root)
	checkCoreRedefined(g, root, in)
}

// spell2 draws the case of the first and last letters.
func spell2(s string) string {
	b := []byte(s)
	for _, i := range []int{0, len(b) - 1} {
		if (i > 0 || sym.Tier() == 1) && sym.Bool() {
			b[i] -= 32
		}
	}
	return string(b)
}

// coreDefs spells out the core rules that refer to others.
func withCore(g *abnf.Grammar) *abnf.Grammar {
	out := grammar()
	for k, v := range g.Rulemap {
		out.Rulemap[k] = v
	}
	add := func(r *abnf.Rule) {
		for _, x := range g.Rulemap {
			if sameName(x.Name, r.Name) {
				return
			}
		}
		out.Rulemap[r.Name] = r
	}
	add(rule("HEXDIG", conc(one(rn("DIGIT"))), conc(one(chars("A"))), conc(one(chars("B"))), conc(one(chars("C"))), conc(one(chars("D"))), conc(one(chars("E"))), conc(one(chars("F")))))
	add(rule("WSP", conc(one(rn("SP"))), conc(one(rn("HTAB")))))
	add(rule("CRLF", conc(one(rn("CR")), one(rn("LF")))))
	add(rule("LWSP", conc(rp(0, -1, group(conc(one(rn("WSP"))), conc(one(rn("CRLF")), one(rn("WSP"))))))))
	return out
}

func checkCoreRedefined(g *abnf.Grammar, root string, in []byte) {
	sym.Note("grammar", text(g))
	sym.Note("input", string(in))
	want := newRef(withCore(g), in).valid(root)
	sym.Assert(recognizes(g, root, in) == want, "IsValid disregards the grammar's own definition of a core rule")
	f, err := abnf.Parse(in, g, root)
	sym.Assert(err == nil && f.Valid() == want, "the forest disregards the grammar's own definition of a core rule")
	b, err := abnf.ParseBSR(in, g, root)
	sym.Assert(err == nil && b.Valid() == want, "the BSR disregards the grammar's own definition of a core rule")
	witness(want)
}

// H_P20_core: core rules exist in every grammar, under every spelling.
func H_P20_core() {
	name := anyCase(coreNames[sym.Choice(len(coreNames))])
	g := grammar(rule("r", conc(one(rn(name)))))
	root := "r"
	if sym.Bool() {
		root = name
	}
	checkEngines(g, root, octets(sym.Choice(3)))
	sym.Assert(abnf.SemvalABNF(g) == nil, "validation does not know a core rule")
}

// H_P20_unknown: an undefined start rule is an error everywhere.
func H_P20_unknown() {
	g := grammar(rule("rule", conc(one(cA))), rule("rul", conc(one(cB))))
	b := []byte("rule-digit"[:1+sym.Choice(9)])
	i := sym.Choice(len(b))
	b[i] = sym.Byte()
	sym.Assume(b[i] < 0x80)
	name := string(b)
	known := sameName(name, "rule") || sameName(name, "rul")
	for _, n := range coreNames {
		known = known || sameName(n, name)
	}
	_, err := g.IsValid(name, []byte("a"))
	sym.Assert((err == nil) == known, "the validity check knows the wrong rules")
	_, err = abnf.Parse([]byte("a"), g, name)
	sym.Assert((err == nil) == known, "the forest parser knows the wrong rules")
	_, err = abnf.ParseBSR([]byte("a"), g, name)
	sym.Assert((err == nil) == known, "the BSR parser knows the wrong rules")
	_, err = g.RuleContainsCycle(name)
	sym.Assert((err == nil) == known, "cycle detection knows the wrong rules")
	_, err = g.Regex(name)
	sym.Assert((err == nil) == known, "regex export knows the wrong rules")
	_, err = g.TransitionGraph(name)
	sym.Assert((err == nil) == known, "the transition graph knows the wrong rules")
	_, err = g.Generate(1, name)
	sym.Assert((err == nil) == known, "generation knows the wrong rules")
	_, err = abnf.NewASTGenerator(g, name)
	sym.Assert((err == nil) == known, "the recursive generator knows the wrong rules")
	sym.Assert((abnf.GetRule(name, g.Rulemap) != nil) == known, "rule lookup knows the wrong rules")
	if known {
		sym.Reach("known")
	} else {
		sym.Reach("unknown")
	}
}

// closure computes reachability between rules; names are given in lower case.
func closure(g *abnf.Grammar) map[string]map[string]bool {
	edge := map[string]map[string]bool{}
	core := withCore(g)
	for _, r := range core.Rulemap {
		m := map[string]bool{}
		collect(r.Alternation, m)
		edge[lower(r.Name)] = m
	}
	for k := range edge {
		for i := range edge {
			for j := range edge {
				if edge[i][k] && edge[k][j] {
					edge[i][j] = true
				}
			}
		}
	}
	return edge
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = lowerByte(b[i])
	}
	return string(b)
}

func collect(a abnf.Alternation, m map[string]bool) {
	for _, c := range a.Concatenations {
		for _, r := range c.Repetitions {
			switch v := r.Element.(type) {
			case abnf.ElemRulename:
				m[lower(v.Name)] = true
			case abnf.ElemGroup:
				collect(v.Alternation, m)
			case abnf.ElemOption:
				collect(v.Alternation, m)
			}
		}
	}
}

func checkCycles(g *abnf.Grammar, roots ...string) {
	sym.Note("grammar", text(g))
	edge := closure(g)
	dag := true
	for n := range edge {
		dag = dag && !edge[n][n]
	}
	sym.Assert(g.IsDAG() == dag, "the acyclicity verdict is wrong")
	for _, n := range roots {
		want := edge[n][n]
		for k := range edge {
			want = want || edge[n][k] && edge[k][k]
		}
		got, err := g.RuleContainsCycle(n)
		sym.Assert(err == nil, "cycle detection fails for a defined rule")
		sym.Assert(got == want, "the cycle verdict of a rule is wrong")
	}
	if dag {
		sym.Reach("dag")
		sym.Observe("dag", 1)
	} else {
		sym.Reach("cycle")
		sym.Observe("dag", 0)
	}
}

func anyOrder(n int) {
	sym.MapOrder(sym.Choice(n), sym.Choice(2) == 1)
}

// H_P21_graph: every dependency relation between up to four rules, every
// rotation of the map order and its reverse.
func H_P21_graph() {
	n := 3 + sym.Tier()
	names := []string{"a", "b", "c", "d"}[:n]
	g := grammar()
	for i, x := range names {
		c := conc(one(cA))
		for _, y := range names {
			if sym.Choice(2) == 1 {
				c.Repetitions = append(c.Repetitions, one(rn(y)))
			}
		}
		_ = i
		g.Rulemap[x] = rule(x, c)
	}
	anyOrder(16 + n)
	checkCycles(g, names...)
}

// H_P21_nested: dependencies inside groups, options and repetitions, spelled in
// any case, to defined and undefined rules.
func H_P21_nested() {
	ref := func() abnf.Repetition {
		e := abnf.ElemItf(rn([]string{"a", "A", "b", "B", "zz", "DIGIT"}[sym.Choice(6)]))
		switch sym.Choice(5) {
		case 1:
			return one(group(conc(one(cA)), conc(one(e))))
		case 2:
			return rp(0, -1, option(conc(one(cA), one(e))))
		case 3:
			return rp(0, 0, e)
		case 4:
			return one(group(conc(one(option(conc(one(group(conc(one(e))))))), one(cA))))
		}
		return one(e)
	}
	g := grammar(rule("a", conc(one(cA), ref())), rule("B", conc(ref()), conc(one(cB))))
	checkCycles(g, "a", "b", "digit", "lwsp")
}

// H_P21_core: cycles through redefined core rules.
func H_P21_core() {
	cores := []string{"WSP", "crlf", "DIGIT", "Sp", "LWSP", "HEXDIG"}
	x, y := cores[sym.Choice(6)], cores[sym.Choice(6)]
	z := []string{"LWSP", "hexdig", "WSP", "r", "alpha"}[sym.Choice(5)]
	g := grammar(rule(x, conc(one(rn(y)))), rule("r", conc(one(rn(z)))))
	if !sameName(x, y) && sym.Bool() {
		g.Rulemap[y] = rule(y, conc(one(rn("r"))))
	}
	anyOrder(18)
	checkCycles(g, "r", lower(x), "lwsp", "hexdig", "alpha")
}
