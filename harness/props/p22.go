package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P22_deep"] = H_P22_deep
	Registry["H_P22_long"] = H_P22_long
	Registry["H_P22_tmpl"] = H_P22_tmpl
	Registry["H_P22_mix"] = H_P22_mix
	Registry["H_P22_T"] = H_P22_T
	Registry["H_P22_seq"] = H_P22_seq
	Registry["H_P22_nest"] = H_P22_nest
	Registry["H_P22_pair"] = H_P22_pair
	Registry["H_P22_count"] = H_P22_count
	Registry["H_P22_octets"] = H_P22_octets
}

// reacher computes how far a left-to-right parse can get: the positions at which
// some terminal is attempted, and which terminals those are.
type reacher struct {
	*ref
	called map[[2]int]bool
	tries  []attempt
	far    int
}

type attempt struct {
	pos  int
	ok   bool
	what abnf.ElemItf
}

func (r *reacher) call(i, p int) {
	if r.called[[2]int{i, p}] {
		return
	}
	r.called[[2]int{i, p}] = true
	r.altR(r.rules[i].Alternation, p)
}

func (r *reacher) altR(a abnf.Alternation, p int) {
	for _, c := range a.Concatenations {
		s := 1 << uint(p)
		for _, x := range c.Repetitions {
			r.repR(x, s)
			s = r.rep(x, s)
		}
	}
}

// repR attempts the element at every position it can be asked for.
func (r *reacher) repR(x abnf.Repetition, s int) {
	if x.Max >= 0 && x.Min > x.Max {
		return
	}
	all := 0
	for k := 0; (x.Max < 0 || k < x.Max) && k <= x.Min+len(r.in)+1; k++ {
		all |= s
		s = r.step(x.Element, s)
	}
	for p := 0; p <= len(r.in); p++ {
		if all>>uint(p)&1 == 1 {
			r.elemR(x.Element, p)
		}
	}
}

func (r *reacher) elemR(e abnf.ElemItf, p int) {
	switch v := e.(type) {
	case abnf.ElemRulename:
		if i := r.rule(v.Name); i >= 0 {
			r.call(i, p)
		}
	case abnf.ElemGroup:
		r.altR(v.Alternation, p)
	case abnf.ElemOption:
		r.altR(v.Alternation, p)
	default:
		s := r.elem(e, p)
		if p > r.far {
			r.far = p
		}
		r.tries = append(r.tries, attempt{p, s != 0, e})
		for q := r.far + 1; q <= len(r.in); q++ {
			if s>>uint(q)&1 == 1 {
				r.far = q
			}
		}
	}
}

// coreDefs are the core rules as RFC 5234 defines them.
var coreDefs = func() map[string]*abnf.Rule {
	ds, ok := readABNF([]byte("ALPHA = %x41-5A / %x61-7A\r\nBIT = \"0\" / \"1\"\r\nCHAR = %x01-7F\r\nCR = %x0D\r\nCRLF = CR LF\r\n" +
		"CTL = %x00-1F / %x7F\r\nDIGIT = %x30-39\r\nDQUOTE = %x22\r\nHEXDIG = DIGIT / \"A\" / \"B\" / \"C\" / \"D\" / \"E\" / \"F\"\r\n" +
		"HTAB = %x09\r\nLF = %x0A\r\nLWSP = *(WSP / CRLF WSP)\r\nOCTET = %x00-FF\r\nSP = %x20\r\nVCHAR = %x21-7E\r\nWSP = SP / HTAB\r\n"))
	if !ok {
		panic("the core rules")
	}
	g, v := denoted(ds, true)
	if v != okGrammar {
		panic("the core rules")
	}
	return g.Rulemap
}()

// addCore adds the core rules a grammar uses without defining them.
func addCore(g *abnf.Grammar) *abnf.Grammar {
	var rs []*abnf.Rule
	var names []string
	for _, r := range g.Rulemap {
		rs = append(rs, r)
		names = directRefs(r.Alternation, names)
	}
	for i := 0; i < len(names); i++ {
		known := false
		for _, r := range rs {
			known = known || sameName(r.Name, names[i])
		}
		if known {
			continue
		}
		for n, r := range coreDefs {
			if sameName(n, names[i]) {
				rs = append(rs, r)
				names = directRefs(r.Alternation, names)
			}
		}
	}
	if len(rs) == len(g.Rulemap) {
		return g
	}
	return grammar(rs...)
}

// checkError: the diagnostic of a rejected input.
func checkError(g *abnf.Grammar, root string, in []byte) {
	sym.Note("grammar", text(g))
	sym.Note("input", string(in))
	f, err := abnf.Parse(in, g, root)
	if err != nil || f == nil {
		sym.Assert(false, "Parse fails for a defined rule")
		return
	}
	pe := f.ParseError()
	if newRef(g, in).valid(root) {
		sym.Assert(pe == nil, "a parse error for an accepted input")
		return
	}
	if pe == nil {
		sym.Assert(false, "no parse error for a rejected input")
		return
	}
	sym.Reach("error")
	r := &reacher{ref: newRef(addCore(g), in), called: map[[2]int]bool{}}
	r.call(r.rule(root), 0)
	sym.Note("offset", itoa(pe.Offset)+" want "+itoa(r.far))
	sym.Assert(pe.Offset == r.far, "the offset is not the furthest position reached")
	var want []string
	for _, t := range r.tries {
		if t.pos != r.far || t.ok {
			continue
		}
		s := textElem(t.what)
		dup := false
		for _, w := range want {
			dup = dup || w == s
		}
		if !dup {
			want = append(want, s)
		}
	}
	sym.Assert(len(pe.Expected) == len(want), "the expected terminals are not those that can be consumed there")
	for i, s := range pe.Expected {
		found := false
		for _, w := range want {
			found = found || w == s
		}
		sym.Assert(found, "an expected terminal cannot be consumed there")
		sym.Assert(i == 0 || pe.Expected[i-1] < s, "the expected terminals are not sorted")
	}
	if len(want) > 0 {
		sym.Reach("expected")
	} else {
		sym.Reach("trailing")
	}
	place(pe, in)
	sym.Observe("offset", pe.Offset)
}

// place checks line, column, found octet and hint against the offset.
func place(pe *abnf.ParseError, in []byte) {
	if pe.Offset < 0 || pe.Offset > len(in) {
		sym.Assert(false, "the offset lies outside the input")
		return
	}
	line, col := 1, 1
	for _, c := range in[:pe.Offset] {
		col++
		if c == 10 {
			line, col = line+1, 1
		}
	}
	sym.Assert(pe.Line == line, "the line is wrong")
	sym.Assert(pe.Col == col, "the column is wrong")
	if pe.Offset == len(in) {
		sym.Assert(pe.Found == "EOF", "the end of the input is not reported")
		sym.Assert(pe.Hint == "", "a hint at the end of the input")
		return
	}
	c := in[pe.Offset]
	sym.Assert(pe.Found == octetName(c), "the octet found is misreported")
	bare := c == 10 && (pe.Offset == 0 || in[pe.Offset-1] != 13)
	sym.Assert((pe.Hint != "") == bare, "the line-ending hint is wrong")
	if bare {
		sym.Reach("hint")
	}
}

func octetName(c byte) string {
	h := func(d byte) string {
		if d < 10 {
			return string(rune('0' + d))
		}
		return string(rune('A' + d - 10))
	}
	switch c {
	case 13:
		return "%x0D (CR)"
	case 10:
		return "%x0A (LF)"
	case 9:
		return "%x09 (HTAB)"
	case 32:
		return "%x20 (SP)"
	case '"':
		return `"\""`
	case '\\':
		return `"\\"`
	}
	if c > 32 && c < 127 {
		return "\"" + string(rune(c)) + "\""
	}
	return "%x" + h(c>>4) + h(c&15)
}

func H_P22_T()     { checkError(sc_T()) }
func H_P22_seq()   { checkError(sc_seq()) }
func H_P22_nest()  { checkError(sc_nest()) }
func H_P22_pair()  { checkError(sc_pair()) }
func H_P22_count() { checkError(sc_count()) }

// H_P22_octets: arbitrary octets against a line-structured grammar.
func H_P22_octets() {
	line := group(conc(rp(0, -1, hexRange("61", "7A")), one(hex("0A"))), conc(one(hex("0D", "0A"))))
	if sym.Bool() {
		line = group(conc(one(hexRange("61", "7A"))), conc(one(hex("0D", "0A"))), conc(one(hex("0D"))))
	}
	g := grammar(rule("r", conc(rp(0, -1, line), one(chars("!")))))
	checkError(g, "r", octets(sym.Choice(4+sym.Tier())))
}
func H_P22_mix()  { checkError(sc_mix()) }
func H_P22_tmpl() { checkError(sc_tmpl()) }
func H_P22_long() { checkError(sc_long()) }
func H_P22_deep() { checkError(sc_deep()) }
