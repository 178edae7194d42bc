package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	for n, f := range map[string]func(){
		"H_P06_start": H_P06_start, "H_P06_element": H_P06_element, "H_P06_num": H_P06_num, "H_P06_repeat": H_P06_repeat,
		"H_P06_edit": H_P06_edit, "H_P06_space": H_P06_space, "H_P06_shape": H_P06_shape, "H_P06_string": H_P06_string, "H_P06_size": H_P06_size, "H_P06_two": H_P06_two,
	} {
		Registry[n] = f
	}
}

// What reading a text must lead to.
const (
	okGrammar = iota
	badSyntax
	badCore
	badDuplicate
	badIncrement
	badSemantics
)

// denoted is the grammar a list of definitions stands for.
func denoted(ds []definition, redefine bool) (*abnf.Grammar, int) {
	g := grammar()
	find := func(n string) *abnf.Rule {
		for _, r := range g.Rulemap {
			if sameName(r.Name, n) {
				return r
			}
		}
		return nil
	}
	for _, d := range ds {
		core := false
		for _, c := range coreNames {
			core = core || sameName(c, d.name)
		}
		if core && !redefine {
			return nil, badCore
		}
		r := find(d.name)
		if !d.incremental {
			if r != nil {
				return nil, badDuplicate
			}
			g.Rulemap[d.name] = &abnf.Rule{Name: d.name, Alternation: d.alt}
			continue
		}
		if r == nil && core {
			c := abnf.GetRule(d.name, nil)
			r = &abnf.Rule{Name: c.Name, Alternation: c.Alternation}
			g.Rulemap[r.Name] = r
		}
		if r == nil {
			return nil, badIncrement
		}
		r.Alternation.Concatenations = append(append([]abnf.Concatenation{}, r.Alternation.Concatenations...), d.alt.Concatenations...)
	}
	return g, okGrammar
}

func verdict(err error) int {
	switch err.(type) {
	case nil:
		return okGrammar
	case *abnf.ErrCoreRuleModify:
		return badCore
	case *abnf.ErrDuplicatedRule:
		return badDuplicate
	case *abnf.ErrRuleNotFound:
		return badIncrement
	case *abnf.ErrDependencyNotFound, *abnf.ErrSemanticRepetition, *abnf.ErrTooLargeNumeral:
		return badSemantics
	case *abnf.ParseError:
		return badSyntax
	}
	return -1
}

// checkText: reading the text gives the grammar it denotes, or the right error.
func checkText(in []byte) {
	sym.Note("text", string(in))
	want := badSyntax
	var g *abnf.Grammar
	if ds, ok := readABNF(in); ok {
		g, want = denoted(ds, false)
	}
	got, err := abnf.ParseABNF(in, abnf.WithValidation(false))
	v := verdict(err)
	sym.Assert(v >= 0, "an unknown kind of error")
	if want == okGrammar {
		sym.Assert(v != badSyntax, "valid ABNF text is refused")
	} else if want == badSyntax {
		sym.Assert(v == badSyntax, "invalid ABNF text is not refused as such")
	}
	sym.Assert(v == want, "the wrong verdict on a text")
	if want == okGrammar {
		sym.Assert(got != nil && sameGrammar(g, got), "the grammar read is not the one the text denotes")
		sym.Reach("accept")
	} else {
		sym.Reach("reject")
	}
	sym.Observe("verdict", v)
}

func sameGrammar(a, b *abnf.Grammar) bool {
	if len(a.Rulemap) != len(b.Rulemap) {
		return false
	}
	for _, r := range a.Rulemap {
		found := false
		for k, s := range b.Rulemap {
			if s.Name == r.Name {
				found = k == s.Name && sameAlt(r.Alternation, s.Alternation)
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

const crlf = "\r\n"

// H_P06_start: arbitrary octets in front of, and between the parts of, a rule.
func H_P06_start() {
	var in []byte
	switch sym.Choice(4) {
	case 0:
		in = octets(sym.Choice(5 + sym.Tier()))
	case 1:
		in = append(octets(1+sym.Choice(2+sym.Tier())), "=a"+crlf...)
	case 2:
		in = append(append([]byte("r"), octets(1+sym.Choice(3))...), "a"+crlf...)
	case 3:
		in = append([]byte("r=a"), octets(sym.Choice(4+sym.Tier()))...)
	}
	checkText(in)
}

// H_P06_element: arbitrary octets as an element.
func H_P06_element() {
	in := append([]byte("r="), octets(1+sym.Choice(2))...)
	if sym.Tier() == 1 {
		in = append(in, octets(1)...)
	}
	in = append(in, []string{"", "\"", ")", "]", ">", "a", "1", " b", "/(c)"}[sym.Choice(9)]...)
	checkText(append(in, crlf...))
}

// H_P06_string: quoted strings and prose with arbitrary octets.
func H_P06_string() {
	open := []string{"\"", "%s\"", "%I\"", "<", "%", "%i"}[sym.Choice(6)]
	in := append([]byte("r="+open), octets(sym.Choice(3))...)
	checkText(append(in, []string{"\"", ">", "\"a", ""}[sym.Choice(4)]+crlf...))
}

// H_P06_num: numeric terminals with arbitrary octets.
func H_P06_num() {
	base := []string{"b", "d", "x", "B", "D", "X"}[sym.Choice(6)]
	in := append([]byte("r=%"+base), sym.Byte())
	switch sym.Choice(4) {
	case 1:
		in = append(in, sym.Byte())
	case 2:
		in = append(in, '1', sym.Byte(), '0')
	case 3:
		in = append(in, '.', '1', sym.Byte(), '1')
	}
	if sym.Tier() == 1 {
		in = append(in, octets(1)...)
	}
	checkText(append(in, crlf...))
}

// H_P06_repeat: repetition prefixes made of arbitrary octets.
func H_P06_repeat() {
	in := []byte("r=")
	switch sym.Choice(6) {
	case 0:
		in = append(in, octets(2)...)
	case 1:
		in = append(in, '1', sym.Byte(), '*', sym.Byte())
	case 2:
		in = append(in, '*', sym.Byte(), '0')
	case 3:
		in = append(in, "12"...)
		in = append(in, sym.Byte())
		in = append(in, "34"...)
	case 4:
		in = append(in, "99999999999999999999*"...)
		in = append(in, sym.Byte())
	case 5:
		in = append(in, '0', sym.Byte())
	}
	checkText(append(in, []string{"a", "\"b\"", " a"}[sym.Choice(3)]+crlf...))
}

var seedTexts = []string{
	"r=\"a\"/[b]\r\n",
	"r = 2(a)\r\nb=/c\r\n",
	"r=<p>;c\r\n\r\n",
	"r=a\r\n b\r\n",
	"x-1=%x1-f %d1.2\r\n",
	"r=( a/\tb ) \r\n",
	" ; c\r\nr=%s\"A\"\r\n",
	"r = 1*2a *b c\r\n",
	"a=b\r\n\tc / d\r\ne=\"\"\r\n",
	"r=[[a]/((b))] ; x\r\n ;y\r\n",
	"r=%b01.1/%D255-9/%i\"!\"\r\n",
	"r=a; \t~\r\n /b\r\n",
}

// H_P06_edit: one arbitrary octet replaced, inserted or removed anywhere.
func H_P06_edit() {
	s := seedTexts[sym.Choice(len(seedTexts))]
	i := sym.Choice(len(s))
	switch sym.Choice(3) {
	case 0:
		checkText([]byte(s[:i] + s[i+1:]))
	case 1:
		in := append([]byte(s[:i]), sym.Byte())
		checkText(append(in, s[i:]...))
	case 2:
		in := append([]byte(s[:i]), sym.Byte())
		checkText(append(in, s[i+1:]...))
	}
}

var spaces = []string{"", " ", "\t", "\r\n ", ";=/\r\n\t", "\r\n", "; c\r\n", "  "}

// H_P06_space: white space, comments and line breaks wherever they may occur.
func H_P06_space() {
	w := func() string { return spaces[sym.Choice(len(spaces))] }
	var s string
	switch sym.Choice(7) {
	case 0:
		s = w() + "r=a" + crlf + w()
	case 1:
		s = "r" + w() + "=" + w() + "a" + crlf
	case 2:
		s = "r=a" + w() + w() + crlf
	case 3:
		s = "r=a" + w() + "/" + w() + "b" + crlf
	case 4:
		s = "r=(" + w() + "a" + w() + ")" + crlf
	case 5:
		s = "r=[a" + w() + "b" + w() + "]" + crlf
	case 6:
		s = "r=a" + w() + crlf + w() + "s" + w() + "=/b" + crlf
	}
	checkText([]byte(s))
}

// H_P06_shape: arbitrary structures.
func H_P06_shape() {
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{chars("a"), schars("B"), hex("1", "2")}, reps: [][2]int{{0, -1}, {2, 3}, {4, 4}}}
	b := [3]int{2, 1, 1}
	if sym.Tier() == 1 {
		b = [3]int{3, 1, 2}
		x.leaves = append(x.leaves, hexRange("0", "F"), prose("p"), chars(""))
		x.reps = append(x.reps, [2]int{0, 1}, [2]int{2, 1}, [2]int{1, -1})
	}
	g := x.grammar(b)
	checkText([]byte("r = " + textAlt(g.Rulemap["r"].Alternation) + crlf))
}

func times(n int, s string) string {
	out := ""
	for i := 0; i < n; i++ {
		out += s
	}
	return out
}

// H_P06_size: every repeated part of a text, many times over.
func H_P06_size() {
	n := []int{0, 1, 2, 3, 7, 8, 9, 10, 16, 17, 20, 21, 33}[sym.Choice(13)]
	var s string
	switch sym.Choice(16) {
	case 0:
		s = "r=a" + times(n, "/b") + crlf
	case 1:
		s = "r=a" + times(n, " b") + crlf
	case 2:
		sym.Assume(n < 12)
		s = "r=" + times(n, "(") + "a" + times(n, ")") + crlf
	case 3:
		sym.Assume(n < 12)
		s = "r=" + times(n, "[") + "a" + times(n, "]") + crlf
	case 4:
		s = "r" + times(n, "x") + "=a" + crlf
	case 5:
		s = "r=a;" + times(n, "/") + crlf
	case 6:
		s = times(n, crlf) + "r=a" + crlf + times(n, " "+crlf)
	case 7:
		s = "r=" + times(n, "9") + "a" + crlf
	case 8:
		s = "r=" + times(n, "1") + "*" + times(n, "2") + "a" + crlf
	case 9:
		s = "r=%x1" + times(n, "F") + crlf
	case 10:
		s = "r=%d1" + times(n, ".0") + crlf
	case 11:
		s = "r=%b" + times(n, "0") + "-1" + crlf
	case 12:
		s = "r=\"" + times(n, "ab") + "\"" + crlf
	case 13:
		s = "r=<" + times(n, "a ") + ">" + crlf
	case 14:
		s = "r=a" + times(n, ";c"+crlf+" ") + times(n, crlf+"\t") + crlf
	case 15:
		for i := 0; i < n; i++ {
			s += "r" + itoa(i) + "=a" + crlf
		}
	}
	checkText([]byte(s))
}

// H_P06_two: two constructs out of every kind, next to each other.
func H_P06_two() {
	xs := []string{"a", "\"b\"", "%s\"C\"", "%i\"d\"", "%x41", "%d1-2", "%b1.0", "<e>", "(f)", "[g]", "*h", "2i", "1*3(j)", "*4[k]", "0l", "%X1A-ff"}
	x, y := xs[sym.Choice(len(xs))], xs[sym.Choice(len(xs))]
	sep := []string{" ", "/", "", " / ", "\r\n\t/", "\t\r\n "}[sym.Choice(6)]
	wrap := [][2]string{{"", ""}, {"(", ")"}, {"2[", "]"}}[sym.Choice(3)]
	checkText([]byte("r=" + wrap[0] + x + sep + y + wrap[1] + crlf))
}
