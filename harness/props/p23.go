package props

import (
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P23_seq"] = H_P23_seq
	Registry["H_P23_dag"] = H_P23_dag
	Registry["H_P23_odd"] = H_P23_odd
	Registry["H_P23_text"] = H_P23_text
	Registry["H_P23_plain"] = H_P23_plain
	Registry["H_P23_graph"] = H_P23_graph
	Registry["H_P24_seq"] = H_P24_seq
	Registry["H_P24_dag"] = H_P24_dag
	Registry["H_P24_odd"] = H_P24_odd
	Registry["H_P24_rules"] = H_P24_rules
	Registry["H_P24_edit"] = H_P24_edit
	Registry["H_P18_odd"] = H_P18_odd
	Registry["H_P18_rec"] = H_P18_rec
	Registry["H_P18_count"] = H_P18_count
	Registry["H_P18_deep"] = H_P18_deep
	Registry["H_P18_read"] = H_P18_read
}

func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

func failed(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

const nServices = 13

// ask puts one of the questions the library answers and digests the answer.
func ask(k int, g *abnf.Grammar, root string, in []byte) string {
	switch k {
	case 0:
		ok, err := g.IsValid(root, in)
		sym.Assert(err == nil || !ok, bothText)
		return yes(ok) + failed(err)
	case 1:
		f, err := abnf.Parse(in, g, root)
		either(f != nil, err)
		if err != nil {
			return "error"
		}
		out := yes(f.Valid()) + count(f) + yes(f.Ambiguous())
		if e := f.ParseError(); e != nil {
			out += e.Error()
		}
		// which tree of an ambiguous text is taken is not specified
		if t := f.Tree(); t != nil && !f.Ambiguous() {
			out += treeText(t)
		}
		return out
	case 2:
		f, err := abnf.ParseBSR(in, g, root)
		either(f != nil, err)
		if err != nil {
			return "error"
		}
		out := yes(f.Valid()) + count(f) + yes(f.Ambiguous())
		// which tree of an ambiguous text is taken is not specified
		if t := f.Tree(); t != nil && !f.Ambiguous() {
			out += treeText(t)
		}
		return out
	case 3:
		s, err := g.Regex(root)
		sym.Assert(err == nil || s == "", bothText)
		return s + failed(err)
	case 4:
		// the order of the rules is not specified
		sym.Assert(len(g.Rulemap) == 0 || g.String() != "", "a grammar is printed as nothing")
		return sorted(g.String()) + sorted(g.PrettyPrint())
	case 5:
		cyc, err := g.RuleContainsCycle(root)
		sym.Assert(err == nil || !cyc, bothText)
		dg := g.DependencyGraph()
		var ns []string
		for n, d := range dg {
			ns = append(ns, n+d.Rulename+strings.Join(d.Dependencies, ","))
		}
		sort.Strings(ns)
		return yes(cyc) + failed(err) + yes(g.IsDAG()) + strings.Join(ns, ";")
	case 6:
		err := abnf.SemvalABNF(g)
		sym.Assert(err == nil || err.Error() != "", "an error says nothing")
		return failed(err)
	case 7:
		tg, err := g.TransitionGraph(root, abnf.WithDeflateRules(true))
		either(tg != nil, err)
		if err != nil {
			return "error"
		}
		gen, err := abnf.NewGenerator(tg, abnf.WithMaxLength(3), abnf.WithMaxReps(2))
		either(gen != nil, err)
		if err != nil {
			return "no generator"
		}
		out := string(gen.Generate(in))
		miss, label, ok := gen.NearMiss(in)
		next, acc, ok2 := gen.ExpectedNext(in)
		return out + ":" + string(miss) + label + yes(ok) + string(next) + yes(acc) + yes(ok2)
	case 8:
		gen, err := abnf.NewASTGenerator(g, root, abnf.WithMaxLen(3), abnf.WithMaxRepeat(2), abnf.WithMaxDepth(3))
		either(gen != nil, err)
		if err != nil {
			return "error"
		}
		return string(gen.Generate(in))
	case 9, 10:
		tg, err := g.TransitionGraph(root, abnf.WithDeflateRules(true))
		either(tg != nil, err)
		if err != nil {
			return "error"
		}
		rd := tg.Reader()
		if k == 10 {
			rd = tg.Reader(abnf.WithCoverageMode(abnf.CoverageCompact))
		}
		out := strconv.Itoa(nodesOf(tg))
		for i := 0; i < 40 && rd.Next(); i++ {
			out += "," + string(rd.Scan())
		}
		return out
	case 11:
		gen, err := abnf.NewASTGenerator(g, root, abnf.WithMaxLen(3), abnf.WithMaxRepeat(2), abnf.WithMaxDepth(3))
		either(gen != nil, err)
		if err != nil {
			return "error"
		}
		return string(gen.GenerateRand(rand.New(fixedRand{})))
	case 12:
		sym.RandLimit(10)
		out, err := g.Generate(sym.Seed(), root, abnf.WithRepMax(2), abnf.WithThreshold(3))
		sym.Assert(err == nil || len(out) == 0, bothText)
		return failed(err)
	}
	panic("no such service")
}

const bothText = "a service gives neither or both of an answer and an error"

func either(answer bool, err error) { sym.Assert(answer == (err == nil), bothText) }

func sorted(text string) string {
	ls := strings.Split(text, "\r\n")
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

type fixedRand struct{}

func (fixedRand) Int63() int64 { return 5 }
func (fixedRand) Seed(int64)   {}

// snap describes all of a grammar, spare room of its slices included.
func snap(g *abnf.Grammar) string {
	out := ""
	var ks []string
	for k := range g.Rulemap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out += k + "=" + snapRule(g.Rulemap[k])
	}
	return out
}

func snapRule(r *abnf.Rule) string {
	if r == nil {
		return "nil"
	}
	return r.Name + ":" + snapAlt(r.Alternation)
}

func snapAlt(a abnf.Alternation) string {
	out := strconv.Itoa(len(a.Concatenations)) + "("
	for _, c := range a.Concatenations[:cap(a.Concatenations)] {
		out += strconv.Itoa(len(c.Repetitions)) + "["
		for _, r := range c.Repetitions[:cap(c.Repetitions)] {
			out += strconv.Itoa(r.Min) + "*" + strconv.Itoa(r.Max)
			switch v := r.Element.(type) {
			case abnf.ElemRulename:
				out += v.Name
			case abnf.ElemGroup:
				out += "g" + snapAlt(v.Alternation)
			case abnf.ElemOption:
				out += "o" + snapAlt(v.Alternation)
			case abnf.ElemCharVal:
				out += "c" + yes(v.Sensitive) + strconv.Itoa(len(v.Values)) + string(v.Values[:cap(v.Values)])
			case abnf.ElemNumVal:
				out += "n" + v.Base + string(rune('0'+v.Status)) + strconv.Itoa(len(v.Elems)) + strings.Join(v.Elems[:cap(v.Elems)], ".")
			case nil:
				out += "nil"
			default:
				out += "p"
			}
		}
		out += "]"
	}
	return out + ")"
}

// shared describes what all grammars share: the core rules and the grammar of
// ABNF.
func shared() string {
	out := snap(abnf.ABNF)
	for _, n := range coreNames {
		out += snapRule(abnf.GetRule(n, nil))
	}
	return out
}

// P23: nothing given to the library is modified.

func checkPure(g *abnf.Grammar, root string, in []byte) {
	was, text := snap(g), string(in)
	all := shared()
	k := sym.Choice(nServices)
	sym.Observe("service", k)
	ask(k, g, root, in)
	sym.Assert(snap(g) == was, "a service modifies the grammar")
	sym.Assert(string(in) == text, "a service modifies the input")
	sym.Assert(shared() == all, "a service modifies what all grammars share")
	sym.Reach("asked")
}

// gf_small: one rule with or without recursion.
func gf_small() (*abnf.Grammar, string) {
	if sym.Tier() == 1 {
		return gf_seq()
	}
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{schars("a"), chars("b")}, reps: [][2]int{{0, -1}, {2, 2}, {0, 2}}}
	return x.grammar([3]int{2, 1, 1}), "r"
}

func H_P23_seq() {
	g, root := gf_small()
	checkPure(g, root, letters(2*sym.Choice(2), 2))
}

func H_P23_dag() {
	g, root := gf_dag()
	checkPure(g, root, letters(sym.Choice(3), 5))
}

func H_P23_odd() {
	g, root := gf_odd()
	checkPure(g, root, octets(sym.Choice(3)))
}

var someTexts = []string{
	"r = \"a\" / s / 2DIGIT\r\ns = *(\"b\" / %x63-65) [t]\r\nt =/ \"x\"\r\n",
	"r = 1*3( ALPHA / %s\"q\" ) CRLF / r \"a\"\r\n",
	"r = %x61.62.63 / %d97 / <prose>\r\nr =/ [ \"a\" ]\r\n",
	"a = b / c / d\r\nb = \"x\"\r\nc = \"y\" b\r\nd = *WSP\r\nr = a\r\n",
	"r = \"a\" / \"b\" / \"c\"\r\nr =/ \"d\"\r\nr =/ \"e\" / \"f\"\r\n",
	"r = undefined / 3*2\"a\" / %x110000\r\n",
}

// H_P23_text: grammars as the reader of ABNF makes them.
func H_P23_text() {
	g, err := abnf.ParseABNF([]byte(someTexts[sym.Choice(len(someTexts))]), abnf.WithValidation(false))
	if err != nil {
		sym.Reach("refused")
		return
	}
	checkPure(g, "r", letters(sym.Choice(3), 3))
}

func snapGraph(tg *abnf.TransitionGraph) string {
	ids := map[*abnf.Node]int{}
	out := ""
	var visit func(n *abnf.Node) int
	visit = func(n *abnf.Node) int {
		if n == nil {
			return -1
		}
		if i, ok := ids[n]; ok {
			return i
		}
		i := len(ids)
		ids[n] = i
		s := ""
		for _, m := range n.Nexts[:cap(n.Nexts)] {
			s += "," + strconv.Itoa(visit(m))
		}
		out += strconv.Itoa(i) + snapAlt(alt(conc(one(n.Elem)))) + strconv.Itoa(len(n.Nexts)) + s + ";"
		return i
	}
	for _, n := range tg.Entrypoints[:cap(tg.Entrypoints)] {
		out += "i" + strconv.Itoa(visit(n))
	}
	for _, n := range tg.Endpoints[:cap(tg.Endpoints)] {
		out += "o" + strconv.Itoa(visit(n))
	}
	return out
}

// H_P23_graph: readers and generators leave the graph as it is, and do not
// disturb each other.
func H_P23_graph() {
	g, root := gf_dag()
	tg, err := g.TransitionGraph(root, append(tgOptsT(), abnf.WithDeflateRules(true))...)
	if err != nil {
		return
	}
	was := snapGraph(tg)
	tape := octets(1 + sym.Tier())
	text := string(tape)
	gen, err := abnf.NewGenerator(tg, abnf.WithMaxLength(3), abnf.WithMaxReps(2))
	sym.Assert(err == nil, "NewGenerator refuses a rule that derives some text")
	if err != nil {
		return
	}
	first := string(gen.Generate(tape))
	switch sym.Choice(4) {
	case 0:
		r, s := tg.Reader(), tg.Reader()
		for i := 0; i < 20; i++ {
			a, b := r.Next(), s.Next()
			sym.Assert(a == b, "readers of one graph disturb each other")
			x, y := r.Scan(), s.Scan()
			sym.Assert(string(x) == string(y), "readers of one graph disturb each other")
			if !a || !b {
				break
			}
		}
	case 1:
		r := tg.Reader(abnf.WithCoverageMode(abnf.CoverageCompact))
		for r.Next() {
			r.Scan()
		}
	case 2:
		gen.NearMiss(tape)
	case 3:
		gen.ExpectedNext(tape)
		gen.Generate([]byte("other"))
	}
	sym.Assert(snapGraph(tg) == was, "reading or generating modifies the graph")
	sym.Assert(string(tape) == text, "generating modifies the tape")
	sym.Assert(string(gen.Generate(tape)) == first, "a generator answers differently later")
	sym.Reach("asked")
}

// H_P23_plain: the same with rules left as nodes of the graph, which readers
// and generators cannot see through.
func H_P23_plain() {
	x := &gen{names: []string{"r", "s"}, leaves: []abnf.ElemItf{schars("a"), hexRange("62", "63")}, reps: [][2]int{{0, -1}, {1, 2}}}
	g := x.noself().grammar([3]int{3, 1, 1}, [3]int{1, 0, 0})
	if sym.Tier() == 1 {
		g.Rulemap["u"] = rule("u", conc(one(schars("u"))))
	}
	tg, err := g.TransitionGraph("r", tgOptsT()...)
	if err != nil {
		return
	}
	was := snapGraph(tg)
	switch sym.Choice(4) {
	case 0:
		r := tg.Reader()
		for i := 0; i < 20 && r.Next(); i++ {
			r.Scan()
		}
	case 1:
		r := tg.Reader(abnf.WithCoverageMode(abnf.CoverageCompact))
		for i := 0; i < 20 && r.Next(); i++ {
			r.Scan()
		}
	case 2:
		if gen, err := abnf.NewGenerator(tg); err == nil {
			gen.Generate([]byte("tape"))
			gen.NearMiss([]byte("tape"))
		}
	case 3:
		tg.ToMermaid()
	}
	sym.Assert(snapGraph(tg) == was, "reading or generating modifies the graph")
	sym.Reach("asked")
}

// P24: an answer depends on the content of the grammar and the input only.

func checkSame(g *abnf.Grammar, root string, in []byte) {
	k := sym.Choice(nServices)
	sym.Observe("service", k)
	o := sym.Choice(2 + 3*sym.Tier())
	rot, rev := (o+1)/2, o%2 == 0
	sym.MapOrder(0, false)
	x := ask(k, g, root, in)
	sym.MapOrder(rot, rev)
	y := ask(k, copyOf(g), root, in)
	sym.MapOrder(0, false)
	sym.Note("first", x)
	sym.Note("then", y)
	sym.Assert(x == y, "the same question is answered differently")
	sym.Reach("asked")
}

func copyOf(g *abnf.Grammar) *abnf.Grammar {
	h := grammar()
	var ks []string
	for k := range g.Rulemap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i := range ks {
		k := ks[len(ks)-1-i]
		h.Rulemap[k] = &abnf.Rule{Name: g.Rulemap[k].Name, Alternation: g.Rulemap[k].Alternation}
	}
	return h
}

func H_P24_seq() {
	g, root := gf_small()
	checkSame(g, root, letters(1+sym.Choice(2), 2))
}

func H_P24_dag() {
	g, root := gf_dag()
	checkSame(g, root, letters(1+sym.Choice(1+sym.Tier()), 5))
}

func H_P24_odd() {
	g, root := gf_odd()
	checkSame(g, root, octets(1+sym.Choice(1+sym.Tier())))
}

// H_P24_rules: several mutually recursive rules.
func H_P24_rules() {
	g := grammar(
		rule("r", conc(one(rn("s")), one(schars("a"))), conc(one(opt(rn("t"))))),
		rule("s", conc(one(rn("t"))), conc(one(schars("b")), rp(0, -1, rn("r")))),
		rule("t", conc(one(schars("a")), rp(0, 2, rn("u")))),
		rule("u", conc(one(schars("b"))), conc(one(schars("c")), one(rn([]string{"t", "s", "u", "digit"}[sym.Choice(4)])))),
	)
	k := sym.Choice(nServices)
	sym.Observe("service", k)
	in := letters(sym.Choice(4), 3)
	rot, rev := sym.Choice(6), sym.Choice(2) == 1
	x := ask(k, g, "r", in)
	sym.MapOrder(rot, rev)
	y := ask(k, g, "r", in)
	sym.MapOrder(0, false)
	sym.Note("first", x)
	sym.Note("then", y)
	sym.Assert(x == y, "the same question is answered differently")
	sym.Reach("asked")
}

// H_P24_edit: after other questions and after the grammar has been edited, the
// answer is the one a fresh grammar of the same content gives.
func H_P24_edit() {
	as := []abnf.Alternation{
		alt(conc(one(schars("a")))),
		alt(conc(one(schars("b")), one(opt(rn("r"))))),
		alt(conc(one(rn("s")))),
		alt(conc(one(schars("a"))), conc(one(rn("s")), one(schars("b")))),
		alt(conc(rp(0, 2, hexRange("61", "62")))),
	}
	r := as[sym.Choice(len(as))]
	s, t := as[sym.Choice(2+3*sym.Tier())], as[sym.Choice(len(as))]
	g := grammar(&abnf.Rule{Name: "r", Alternation: r}, &abnf.Rule{Name: "s", Alternation: s})
	in := letters(1+sym.Choice(1+sym.Tier()), 2)
	before, k := []int{0, 1, 2, 9, 3, 5, 7, 8}[sym.Choice(4+4*sym.Tier())], sym.Choice(nServices)
	sym.Observe("service", k)
	ask(before, g, "r", in)
	ask(k, g, "r", in)
	switch sym.Choice(3) {
	case 0:
		g.Rulemap["s"] = &abnf.Rule{Name: "s", Alternation: t}
	case 1:
		g.Rulemap["s"].Alternation = t
	case 2:
		g.Rulemap["s"].Alternation.Concatenations = t.Concatenations
	}
	x := ask(k, g, "r", in)
	y := ask(k, grammar(&abnf.Rule{Name: "r", Alternation: r}, &abnf.Rule{Name: "s", Alternation: t}), "r", in)
	sym.Note("first", x)
	sym.Note("then", y)
	sym.Assert(x == y, "an edited grammar is answered for like the former one")
	sym.Reach("asked")
}

// P18: no question makes the library panic or run for ever.

func checkTotal(g *abnf.Grammar, root string, in []byte) {
	k := sym.Choice(nServices + 1)
	sym.Observe("service", k)
	if k == nServices {
		for _, o := range []abnf.TGOption{abnf.WithDeflateRules(false), abnf.WithDeflateNumVals(true), abnf.WithDeflateCharVals(true)} {
			tg, err := g.TransitionGraph(root, o, abnf.WithMaxNodes(1000))
			if err != nil {
				continue
			}
			gen, err := abnf.NewGenerator(tg)
			if err == nil {
				gen.Generate(in)
				gen.NearMiss(in)
				gen.ExpectedNext(in)
			}
			for _, m := range []abnf.CoverageMode{abnf.CoverageAllTrails, abnf.CoverageCompact} {
				rd := tg.Reader(abnf.WithCoverageMode(m))
				for i := 0; i < 10 && rd.Next(); i++ {
					rd.Scan()
				}
			}
		}
	} else {
		ask(k, g, root, in)
	}
	sym.Reach("answered")
}

func H_P18_odd() {
	g, root := gf_odd()
	checkTotal(g, root, octets(sym.Choice(3)))
}

// H_P18_rec: recursion of every kind, with faults.
func H_P18_rec() {
	leaves := []abnf.ElemItf{schars("a"), schars(""), rn("r"), rn("S"), rn("nope"), proseVal, hex("D800"), hexRange("62", "61")}
	pick := func() abnf.Repetition {
		e := leaves[sym.Choice(len(leaves))]
		switch sym.Choice(4) {
		case 0:
			return one(opt(e))
		case 1:
			return rp(0, -1, e)
		case 2:
			return rp(2, 1, e)
		}
		return one(e)
	}
	last := one(schars("a"))
	if sym.Tier() == 1 {
		last = one(leaves[sym.Choice(4)])
	}
	g := grammar(rule("r", conc(pick(), one(leaves[2+sym.Choice(2)])), conc(last)), rule("s", conc(pick())))
	checkTotal(g, "r", letters(1+sym.Choice(1+sym.Tier()), 2))
}

func H_P18_count() {
	checkTotal(counted(3+sym.Tier()), "r", letters(sym.Choice(3), 3))
}

// H_P18_deep: deep nesting, long rules.
func H_P18_deep() {
	var e abnf.ElemItf = schars("a")
	n := []int{1, 2, 17, 40}[sym.Choice(4)]
	kind := sym.Choice(4)
	var g *abnf.Grammar
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			e = group(conc(one(e)))
		}
		g = grammar(rule("r", conc(one(e))))
	case 1:
		for i := 0; i < n; i++ {
			e = opt(e)
		}
		g = grammar(rule("r", conc(one(e))))
	case 2:
		var cs []abnf.Concatenation
		for i := 0; i < n; i++ {
			cs = append(cs, conc(one(e)))
		}
		g = grammar(rule("r", cs...))
	case 3:
		var rs []abnf.Repetition
		for i := 0; i < n; i++ {
			rs = append(rs, one(opt(e)))
		}
		g = grammar(rule("r", conc(rs...)))
	}
	checkTotal(g, "r", letters(sym.Choice(3), 2))
}

// H_P18_read: reading and evaluating any text.
func H_P18_read() {
	in := octets(sym.Choice(3 + sym.Tier()))
	pre := []string{"", "r=", "r = \"", "r = %", "r = %x", "r = 1", "r = (", "r=a\r\nr"}[sym.Choice(8)]
	text := append([]byte(pre), in...)
	if sym.Choice(2) == 1 {
		text = append(text, "\r\n"...)
	}
	g, err := abnf.ParseABNF(text, abnf.WithValidation(sym.Choice(2) == 1))
	sym.Assert((g == nil) == (err != nil), "reading gives neither or both of a grammar and an error")
	f, err := abnf.Parse(text, abnf.ABNF, "rulelist")
	if err == nil {
		abnf.EvaluateABNF(text, f)
	}
	sym.Reach("answered")
}
