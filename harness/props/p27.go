package props

import (
	"strings"

	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P27_deps"] = H_P27_deps
	Registry["H_P27_shape"] = H_P27_shape
	Registry["H_P27_core"] = H_P27_core
	Registry["H_P27_flat"] = H_P27_flat
	Registry["H_P27_dag"] = H_P27_dag
	Registry["H_P27_count"] = H_P27_count
	Registry["H_P27_plain"] = H_P27_plain
}

// checkDeps compares the dependency graph with the references the rules hold.
func checkDeps(g *abnf.Grammar) {
	sym.Note("grammar", text(g))
	dg := g.DependencyGraph()
	core := withCore(g)
	direct := func(name string) (string, map[string]bool) {
		for _, r := range core.Rulemap {
			if lower(r.Name) == name {
				m := map[string]bool{}
				collect(r.Alternation, m)
				return r.Name, m
			}
		}
		return name, map[string]bool{}
	}
	flow := dg.Mermaid()
	arrows := 0
	some := false
	for k, n := range dg {
		sym.Assert(lower(k) == k && lower(n.Rulename) == k, "an entry of the dependency graph is misnamed")
		name, want := direct(k)
		for _, r := range g.Rulemap {
			if lower(r.Name) == k {
				sym.Assert(n.Rulename == name, "the dependency graph does not name the rule as the grammar does")
			}
		}
		sym.Assert(len(n.Dependencies) == len(want), "a rule has too many or too few dependencies")
		for i, d := range n.Dependencies {
			sym.Assert(want[d], "a dependency is not a reference of the rule")
			for _, e := range n.Dependencies[:i] {
				sym.Assert(e != d, "a dependency is listed twice")
			}
			sym.Assert(strings.Contains(flow, "\t"+n.Rulename+" --> "+d+"\n"), "the flowchart lacks a dependency")
			arrows++
			some = true
		}
	}
	sym.Assert(strings.Count(flow, " --> ") == arrows, "the flowchart shows other dependencies")
	for _, r := range g.Rulemap {
		n := dg[lower(r.Name)]
		sym.Assert(n != nil, "a rule is missing in the dependency graph")
		for _, d := range n.Dependencies {
			if isCore(d) {
				sym.Assert(dg[d] != nil, "a core rule in use is missing in the dependency graph")
			}
		}
	}
	if some {
		sym.Reach("dependencies")
	}
}

// H_P27_deps: references of three rules to each other, nested or not.
func H_P27_deps() {
	ref := func() abnf.Repetition {
		e := abnf.ElemItf(rn([]string{"a", "B", "b", "zz", "WSP", "digit"}[sym.Choice(6)]))
		switch sym.Choice(6) {
		case 1:
			return one(group(conc(one(cA)), conc(one(e))))
		case 2:
			return rp(0, -1, option(conc(one(cA), one(e))))
		case 3:
			return rp(0, 0, e)
		case 4:
			return one(group(conc(one(option(conc(one(group(conc(one(e))))))), one(rn("A")))))
		case 5:
			return one(option(conc(one(e)), conc(one(rn("B")), one(e))))
		}
		return one(e)
	}
	g := grammar(rule("a", conc(one(cA), ref()), conc(ref())), rule("b", conc(one(rn("a")), one(rn("A")))))
	if sym.Tier() == 1 {
		g.Rulemap["b"] = rule("b", conc(ref()), conc(one(rn("A"))))
	}
	anyOrder(2)
	checkDeps(g)
}

// H_P27_shape: every structure of a rule.
func H_P27_shape() {
	x := &gen{names: []string{"r", "s"}, leaves: []abnf.ElemItf{rn("R"), rn("t"), cA}, reps: [][2]int{{0, -1}, {0, 0}}}
	b := [3]int{2, 1, 1}
	if sym.Tier() == 1 {
		b = [3]int{3, 1, 1}
	}
	g := x.grammar(b, [3]int{1, 0, 0})
	checkDeps(g)
}

// H_P27_core: rules redefining core rules or using them.
func H_P27_core() {
	x := anyCase(coreNames[sym.Choice(len(coreNames))])
	y := anyCase(coreNames[sym.Choice(len(coreNames))])
	g := grammar(rule("r", conc(one(rn(x)), one(rn(y)))))
	if sym.Bool() {
		g.Rulemap[y] = rule(y, conc(one(rn("r"))), conc(one(rn(x))))
	}
	checkDeps(g)
}

// checkFlow compares the flowchart of a transition graph with the graph.
func checkFlow(tg *abnf.TransitionGraph) {
	flow := tg.ToMermaid()
	in := func(ns []*abnf.Node, x *abnf.Node) bool {
		for _, n := range ns {
			if n == x {
				return true
			}
		}
		return false
	}
	var all []*abnf.Node
	for _, e := range tg.Entrypoints {
		if e != nil && !in(all, e) {
			all = append(all, e)
		}
	}
	entries, ends, arrows := 0, 0, 0
	for i := 0; i < len(all); i++ {
		n := all[i]
		for _, m := range n.Nexts {
			if !in(all, m) {
				all = append(all, m)
			}
			arrows++
			sym.Assert(strings.Contains(flow, "    "+n.ID+" --> "+m.ID+"\n"), "the flowchart lacks a transition")
		}
		end := in(tg.Endpoints, n)
		entry := in(tg.Entrypoints, n)
		if end {
			ends++
		}
		if entry {
			entries++
		}
		i := strings.Index(flow, "    "+n.ID+"(((\"")
		j := strings.Index(flow, "    "+n.ID+"[\"")
		sym.Assert(i >= 0 || j >= 0, "the flowchart lacks a node")
		sym.Assert((i >= 0) == end && (j >= 0) == !end, "the flowchart marks the wrong end nodes")
		if j > i {
			i = j
		}
		line := flow[i:]
		line = line[:strings.Index(line, "\n")]
		sym.Assert(strings.HasSuffix(line, ":::entrypoint") == entry, "the flowchart marks the wrong entry nodes")
	}
	empty := in(tg.Entrypoints, nil)
	sym.Assert(strings.Contains(flow, "emptyNode") == empty, "the flowchart is wrong on the empty text")
	if empty {
		entries++
		sym.Reach("empty")
	}
	sym.Assert(strings.Count(flow, " --> ") == arrows, "the flowchart shows other transitions")
	sym.Assert(strings.Count(flow, ":::entrypoint") == entries, "the flowchart shows other entry nodes")
	sym.Assert(strings.Count(flow, "(((\"") == ends, "the flowchart shows other end nodes")
	if arrows > 0 {
		sym.Reach("arrows")
	}
}

func p27(g *abnf.Grammar, root string) {
	if tg := graphOf(g, root, tgOpts()...); tg != nil {
		checkFlow(tg)
	}
}

func H_P27_flat()  { p27(gf_flat()) }
func H_P27_dag()   { p27(gf_dag()) }
func H_P27_count() { p27(gf_counted()) }

// H_P27_plain: rules left as nodes.
func H_P27_plain() {
	x := &gen{names: []string{"r", "s"}, leaves: []abnf.ElemItf{cA, hexRange("61", "63"), cE}, reps: [][2]int{{0, -1}, {1, 2}}, nonrec: true}
	g := x.grammar([3]int{2 + sym.Tier(), 1, 1}, [3]int{1, 0, 0})
	if g.Rulemap["s"] == nil {
		g.Rulemap["s"] = rule("s", conc(one(cB)))
	}
	tg, err := g.TransitionGraph("r")
	sym.Assert(err == nil, "TransitionGraph refuses a valid rule without cycle")
	checkFlow(tg)
}
