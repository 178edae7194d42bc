package props

import (
	"errors"
	"strconv"

	"verif/harness/genrun"
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P26_one"] = H_P26_one
	Registry["H_P26_pair"] = H_P26_pair
	Registry["H_P26_rep"] = H_P26_rep
	Registry["H_P26_count"] = H_P26_count
	Registry["H_P26_odd"] = H_P26_odd
	Registry["H_P26_text"] = H_P26_text
	Registry["H_P26_core"] = H_P26_core
	Registry["H_P26_range"] = H_P26_range
	Registry["H_P26_mix"] = H_P26_mix
	Registry["H_P26_limit"] = H_P26_limit
	Registry["H_P26_root"] = H_P26_root
}

// generated makes and starts the parser of a rule, or asserts that it was
// refused for a reason.
func generated(g *abnf.Grammar, root string) func(in []byte, max int) *genrun.Answer {
	sym.Note("grammar", text(g))
	src, err := abnf.GenerateGoParser(g, root, "p")
	sym.Assert(err == nil, "no parser is generated for a defined rule")
	if err != nil {
		return nil
	}
	start, run, msg := genrun.Build(string(src))
	sym.Note("compiler", msg)
	sym.Assert(msg == "", "the generated parser does not compile")
	if msg != "" {
		return nil
	}
	start()
	return run
}

func own(t *genrun.Tree) *abnf.ParseTree {
	if t == nil {
		return nil
	}
	u := &abnf.ParseTree{Rule: t.Rule, Start: t.Start, End: t.End}
	for _, c := range t.Children {
		u.Children = append(u.Children, own(c))
	}
	return u
}

func checkParser(g *abnf.Grammar, root string, run func(in []byte, max int) *genrun.Answer, in []byte) {
	sym.Note("input", string(in))
	a := run(in, -1)
	sym.Assert(a.Err == "", "the generated parser fails")
	ok := newRef(g, in).valid(root)
	sym.Assert(a.Valid == ok, "the generated parser's verdict is wrong")
	c := &counter{ref: newRef(g, in), stack: map[[3]int]bool{}, memo: map[[3]int]int{}}
	n := c.trees(root)
	sym.Assert(a.Num == strconv.Itoa(n), "the generated parser's number of trees is not the number of derivations")
	sym.Assert(a.Ambiguous == (n != 0 && n != 1), "the generated parser's ambiguity verdict is wrong")
	t := own(a.Tree)
	switch {
	case n == 0:
		sym.Assert(t == nil, "the generated parser has a tree of a rejected input")
	case n == infinite:
		sym.Assert(nested(t, root, len(in)), "the generated parser's tree has inconsistent spans")
	default:
		sym.Assert(derives(g, root, t, in), "the generated parser's tree is not a derivation of the input")
	}
	sym.Observe("valid", map[bool]int{true: 1}[a.Valid])
	if ok {
		sym.Reach("accept")
	} else {
		sym.Reach("reject")
	}
}

// H_P26_limit: a budget of elements.
func H_P26_limit() {
	g := smallGrammar()
	run := generated(g, "r")
	if run == nil {
		return
	}
	in := letters(sym.Choice(4), 2)
	sym.Note("input", string(in))
	base := run(in, -1)
	same := func(a *genrun.Answer) bool {
		return a.Err == "" && a.Valid == base.Valid && a.Num == base.Num && a.Elements == base.Elements && a.Ambiguous == base.Ambiguous
	}
	sym.Assert(same(run(in, 0)) && same(run(in, 100000)), "an ample budget of elements changes the outcome")
	n := fib[sym.Choice(len(fib))]
	a := run(in, n)
	if a.Err != "" {
		sym.Assert(a.TooLarge, "exceeding the budget of elements gives another error")
		sym.Reach("refused")
		return
	}
	sym.Assert(a.Elements <= n, "a result is larger than its budget")
	sym.Assert(same(a), "a budget of elements changes the answers")
	sym.Assert(same(run(in, n+1)), "a larger budget of elements is refused")
	sym.Reach("within")
}

// H_P26_root: the root in any spelling, from a grammar or from its text.
func H_P26_root() {
	names := []string{"r-1", "R-1", "s", "S", "nope", "", "alpha", "Alpha", "ALPHA"}
	root := names[sym.Choice(len(names))]
	text := "r-1 = \"a\" S / 2ALPHA\r\ns = *\"b\"\r\n"
	g, err := abnf.ParseABNF([]byte(text))
	if err != nil {
		return
	}
	src, err := abnf.GenerateGoParser(g, root, "p")
	src2, err2 := abnf.GenerateGoParserFromABNF([]byte(text), root, "p")
	sym.Assert((err == nil) == (err2 == nil) && string(src) == string(src2), "a parser made from the text differs from one made from the grammar")
	if root == "nope" || root == "" {
		var e *abnf.ErrRuleNotFound
		sym.Assert(errors.As(err, &e) && src == nil, "a parser is made for an undefined root")
		sym.Reach("undefined")
		return
	}
	if run := generated(g, root); run != nil {
		checkParser(g, root, run, letters(sym.Choice(4), 2))
	}
	if _, err := abnf.GenerateGoParserFromABNF([]byte(text[1:]), root, "p"); text[1] == '-' {
		sym.Assert(err != nil, "a parser is made from a text that is not ABNF")
	}
}

// H_P26_one: one rule, recursive or not.
func H_P26_one() {
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{chars("a"), chars("")}, reps: [][2]int{{0, -1}, {2, 2}, {0, 2}}}
	if sym.Tier() == 1 {
		x.reps = allReps
	}
	g := x.grammar([3]int{2, 1, 1})
	if run := generated(g, "r"); run != nil {
		checkParser(g, "r", run, letters(sym.Choice(4), 2))
	}
}

// H_P26_pair: two mutually referring rules.
func H_P26_pair() {
	x := &gen{names: []string{"r", "s"}, leaves: []abnf.ElemItf{schars("a")}, reps: [][2]int{{0, -1}}}
	b := [3]int{2, 0, 0}
	if sym.Tier() == 1 {
		b = [3]int{2, 1, 0}
	}
	g := x.grammar([3]int{2, 0, sym.Tier()}, b)
	if run := generated(g, "r"); run != nil {
		checkParser(g, "r", run, letters(sym.Choice(4), 1))
	}
}

// H_P26_rep: repetitions in repetitions.
func H_P26_rep() {
	reps := [][2]int{{0, -1}, {1, -1}, {2, 2}, {0, 2}, {2, -1}, {1, 3}, {0, 0}}
	a, b := reps[sym.Choice(len(reps))], reps[sym.Choice(len(reps))]
	var e abnf.ElemItf
	switch sym.Choice(3) {
	case 0:
		e = group(conc(rp(b[0], b[1], schars("a")), one(chars("b"))))
	case 1:
		e = group(conc(rp(b[0], b[1], schars("a"))))
	case 2:
		e = option(conc(one(chars("b")), rp(b[0], b[1], rn("s"))))
	}
	g := grammar(rule("r", conc(rp(a[0], a[1], e), one(opt(schars("a"))))), rule("s", conc(one(opt(schars("a"))))))
	if run := generated(g, "r"); run != nil {
		checkParser(g, "r", run, letters(sym.Choice(4+sym.Tier()), 2))
	}
}

// H_P26_count: arbitrary repetition bounds.
func H_P26_count() {
	g := counted(3 + sym.Tier())
	if run := generated(g, "r"); run != nil {
		checkParser(g, "r", run, letters(sym.Choice(5), 3))
	}
}

func H_P26_odd() {
	g, root := gf_odd()
	if run := generated(g, root); run != nil {
		checkParser(g, root, run, octets(sym.Choice(3+sym.Tier())))
	}
}

// H_P26_text: strings of every kind of character, quotes, backslashes and
// comment ends included.
func H_P26_text() {
	ss := []string{"a", "Z", "*/", "\\", "`", "{", "[", "@", "a*/b", "//", "\\n", "%d", "k~", "Az", "é", "aÉ", "~\x7f"}
	x := abnf.ElemCharVal{Sensitive: sym.Choice(2) == 1, Values: []rune(ss[sym.Choice(len(ss))])}
	ys := []abnf.ElemItf{chars("a"), hex("41", "2A"), hex("41"), hex("2A", "2F"), hexRange("40", "5B")}
	y := ys[sym.Choice(2+3*sym.Tier())]
	g := grammar(rule("r", conc(one(x)), conc(one(rn("s")), one(x), one(rn("s")))), rule("s", conc(one(y))))
	if run := generated(g, "r"); run != nil {
		checkParser(g, "r", run, octets(sym.Choice(4)))
	}
}

func H_P26_core() {
	g, root := gf_core()
	if run := generated(g, root); run != nil {
		checkParser(g, root, run, octets(sym.Choice(3)))
	}
}

func H_P26_range() {
	g, root := gf_range()
	if run := generated(g, root); run != nil {
		checkParser(g, root, run, octets(1+sym.Choice(3)))
	}
}

// H_P26_mix: nullable, ambiguous and recursive parts together.
func H_P26_mix() {
	xs := []abnf.Repetition{rp(0, -1, schars("a")), one(opt(schars("a"))), one(rn("R")), one(rn("s")), rp(2, 2, rn("s")), one(group(conc(one(schars("a"))), conc(one(opt(schars("a"))))))}
	ss := []abnf.Alternation{
		alt(conc(one(opt(schars("a"))))),
		alt(conc(one(rn("r"))), conc(one(schars("b")))),
		alt(conc(one(schars("a"))), conc(one(rn("s")), one(schars("a")))),
	}
	x, y, z := xs[sym.Choice(len(xs))], xs[sym.Choice(len(xs))], one(schars("b"))
	if sym.Tier() == 1 {
		z = xs[sym.Choice(len(xs))]
	}
	g := grammar(rule("r", conc(x, y, z), conc(one(chars("b")))), &abnf.Rule{Name: "s", Alternation: ss[sym.Choice(len(ss))]})
	if run := generated(g, "r"); run != nil {
		checkParser(g, "r", run, letters(sym.Choice(4), 2))
	}
}
