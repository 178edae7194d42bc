package props

import (
	"math/rand"

	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P11_flat"] = H_P11_flat
	Registry["H_P11_dag"] = H_P11_dag
	Registry["H_P11_odd"] = H_P11_odd
	Registry["H_P11_chars"] = H_P11_chars
	Registry["H_P11_range"] = H_P11_range
	Registry["H_P11_core"] = H_P11_core
	Registry["H_P11_count"] = H_P11_count
	Registry["H_P11_local"] = H_P11_local
	Registry["H_P11_rand"] = H_P11_rand
	Registry["H_P12_flat"] = H_P12_flat
	Registry["H_P12_dag"] = H_P12_dag
	Registry["H_P12_range"] = H_P12_range
	Registry["H_P12_chars"] = H_P12_chars
	Registry["H_P12_count"] = H_P12_count
	Registry["H_P12_touch"] = H_P12_touch
	Registry["H_P12_rand"] = H_P12_rand
	Registry["H_P13_flat"] = H_P13_flat
	Registry["H_P13_dag"] = H_P13_dag
	Registry["H_P13_range"] = H_P13_range
	Registry["H_P13_odd"] = H_P13_odd
	Registry["H_P13_count"] = H_P13_count
	Registry["H_P13_core"] = H_P13_core
	Registry["H_P13_chars"] = H_P13_chars
	Registry["H_P13_multi"] = H_P13_multi
}

func hasProse(a abnf.Alternation) bool {
	for _, c := range a.Concatenations {
		for _, r := range c.Repetitions {
			switch v := r.Element.(type) {
			case abnf.ElemProseVal:
				return true
			case abnf.ElemGroup:
				if hasProse(v.Alternation) {
					return true
				}
			case abnf.ElemOption:
				if hasProse(v.Alternation) {
					return true
				}
			}
		}
	}
	return false
}

// graphOf builds the fully expanded transition graph of a rule, or asserts that
// it was refused for a reason.
func graphOf(g *abnf.Grammar, root string, opts ...abnf.TGOption) *abnf.TransitionGraph {
	sym.Note("grammar", text(g))
	f := &faults{}
	prose := false
	p := newProd(g)
	for _, r := range g.Rulemap {
		f.alt(g, r.Alternation)
	}
	ns, _ := p.reach(root)
	for _, n := range ns {
		if k := p.find(n); k >= 0 {
			prose = prose || hasProse(p.rules[k].Alternation)
		}
	}
	// a rule without references needs no expansion, nor a valid grammar around
	if k := p.find(root); k >= 0 && len(ns) == 1 && sym.Choice(2) == 1 {
		f = &faults{}
		f.alt(g, p.rules[k].Alternation)
		f.num = false
	} else {
		opts = append([]abnf.TGOption{abnf.WithDeflateRules(true)}, opts...)
	}
	tg, err := g.TransitionGraph(root, opts...)
	if f.dep || f.rep || f.num || prose || p.cyclic(root) {
		sym.Assert(err != nil, "TransitionGraph accepts a rule it cannot build a graph of")
		sym.Reach("refused")
		return nil
	}
	sym.Assert(err == nil, "TransitionGraph refuses a valid rule without cycle")
	return tg
}

func newGen(g *abnf.Grammar, root string, tg *abnf.TransitionGraph, opts ...abnf.GenOption) *abnf.Generator {
	gen, err := abnf.NewGenerator(tg, opts...)
	if !newProd(g).rule(root) {
		sym.Assert(err != nil, "NewGenerator accepts a rule that derives no text")
		sym.Reach("refused")
		return nil
	}
	sym.Assert(err == nil, "NewGenerator refuses a rule that derives some text")
	return gen
}

func tgOpts() []abnf.TGOption {
	switch sym.Choice(3) {
	case 1:
		return []abnf.TGOption{abnf.WithDeflateCharVals(true)}
	case 2:
		return []abnf.TGOption{abnf.WithDeflateNumVals(true), abnf.WithDeflateCharVals(true)}
	}
	return nil
}

// tgOptsT varies the graph in the thorough tier only.
func tgOptsT() []abnf.TGOption {
	if sym.Tier() == 0 {
		return nil
	}
	return tgOpts()
}

// P11: the transition graph generator.

func checkGen(g *abnf.Grammar, root string, tape []byte, length, reps, steps int, opts ...abnf.TGOption) {
	tg := graphOf(g, root, opts...)
	if tg == nil {
		return
	}
	gos := []abnf.GenOption{abnf.WithMaxLength(length), abnf.WithMaxReps(reps), abnf.WithMaxSteps(steps)}
	stable := sym.Choice(2) == 1
	if stable {
		gos = append(gos, abnf.WithStableAddressing())
		long := make([]byte, 4*len(tape))
		for i := range tape {
			long[4*i+3] = tape[i]
		}
		tape = long
	}
	gen := newGen(g, root, tg, gos...)
	if gen == nil {
		return
	}
	sym.Note("tape", string(tape))
	admits(g, root, gen.Generate(tape), "Generator.Generate")
	sym.Reach("generated")
}

func p11(g *abnf.Grammar, root string) {
	checkGen(g, root, octets(sym.Choice(4+sym.Tier())), 3, 2, 5, tgOpts()...)
}

func H_P11_flat()  { p11(gf_flat()) }
func H_P11_dag()   { p11(gf_dag()) }
func H_P11_odd()   { p11(gf_odd()) }
func H_P11_chars() { p11(gf_chars()) }
func H_P11_core()  { p11(gf_core()) }

// H_P11_range: ranges between edges of the encoding.
func H_P11_range() {
	g, root := gf_range()
	checkGen(g, root, octets(3), 3, 2, 5)
}

// H_P11_count: repetition bounds against every budget.
func H_P11_count() {
	checkGen(counted(3+sym.Tier()), "r", octets(4), sym.Choice(4), sym.Choice(3), sym.Choice(4))
}

// H_P11_rand: the same driven by pseudo-random numbers.
func H_P11_rand() {
	g, root := gf_dag()
	tg := graphOf(g, root)
	if tg == nil {
		return
	}
	gen := newGen(g, root, tg, abnf.WithMaxLength(3), abnf.WithMaxReps(2))
	if gen == nil {
		return
	}
	admits(g, root, gen.GenerateRand(rand.New(tapeRand{})), "Generator.GenerateRand")
	sym.Reach("generated")
}

// H_P11_local: decisions addressed by number are independent of each other.
func H_P11_local() {
	parts := []abnf.ElemItf{
		group(conc(one(schars("a"))), conc(one(schars("b"))), conc(one(schars("c")))),
		hexRange("61", "7A"),
		hexRange("30", "1FF"),
		chars("k"),
	}
	var rs []abnf.Repetition
	n := 2 + sym.Choice(2)
	for i := 0; i < n; i++ {
		rs = append(rs, one(parts[sym.Choice(len(parts))]))
	}
	g := grammar(rule("r", conc(rs...)))
	tg := graphOf(g, "r")
	if tg == nil {
		return
	}
	gen := newGen(g, "r", tg, abnf.WithStableAddressing())
	if gen == nil {
		return
	}
	one := make([]byte, 4*n)
	two := make([]byte, 4*n)
	for i := 0; i < n; i++ {
		one[4*i+3] = sym.Byte()
		two[4*i+3] = one[4*i+3]
	}
	k := sym.Choice(n)
	// any other content of one slot
	two[4*k+2] = sym.Byte()
	two[4*k+3] = sym.Byte()
	sym.Note("tape", string(one))
	sym.Note("edited tape", string(two))
	a, b := split(gen.Generate(one)), split(gen.Generate(two))
	sym.Assert(len(a) == n && len(b) == n, "not one character per part")
	if len(a) != n || len(b) != n {
		return
	}
	differ := 0
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			differ++
		}
	}
	sym.Assert(differ <= 1, "an edit of one slot changes several decisions")
	sym.Reach("edited")
}

// split cuts a text into its characters.
func split(in []byte) []string {
	var out []string
	for len(in) > 0 {
		n := 1
		for n < len(in) && in[n] >= 0x80 && in[n] < 0xC0 {
			n++
		}
		out = append(out, string(in[:n]))
		in = in[n:]
	}
	return out
}

// P12: near misses.

func checkMiss(g *abnf.Grammar, root string, tape []byte, opts ...abnf.TGOption) {
	tg := graphOf(g, root, opts...)
	if tg == nil {
		return
	}
	gen := newGen(g, root, tg, abnf.WithMaxLength(3), abnf.WithMaxReps(2))
	if gen == nil {
		return
	}
	sym.Note("tape", string(tape))
	out, label, ok := gen.NearMiss(tape)
	miss(g, root, out, label, ok)
}

func miss(g *abnf.Grammar, root string, out []byte, label string, ok bool) {
	if !ok {
		sym.Assert(out == nil && label == "", "NearMiss without success returns a production")
		sym.Reach("none")
		return
	}
	sym.Note("output", string(out))
	sym.Assert(label != "", "a near miss has no label")
	sym.Assert(!newRef(g, out).valid(root), "a near miss belongs to the language of the rule")
	sym.Reach("miss")
}

func p12(g *abnf.Grammar, root string) {
	checkMiss(g, root, octets(sym.Choice(3+2*sym.Tier())))
}

func H_P12_flat()  { p12(gf_flat()) }
func H_P12_dag()   { p12(gf_dag()) }
func H_P12_chars() { p12(gf_chars()) }
func H_P12_count() { p12(gf_counted()) }
func H_P12_range() {
	g, root := gf_range()
	checkMiss(g, root, octets(3))
}

// H_P12_touch: terminals next to each other, so that a step beyond one may be
// a step into another.
func H_P12_touch() {
	xs := []abnf.ElemItf{hexRange("61", "66"), hexRange("67", "6A"), hexRange("60", "60"), schars("g"), chars("k"), hexRange("6B", "7F"), hexRange("80", "82"), hex("21")}
	x, y := xs[sym.Choice(len(xs))], xs[sym.Choice(len(xs))]
	var g *abnf.Grammar
	switch sym.Choice(4) {
	case 0:
		g = grammar(rule("r", conc(one(x)), conc(one(y))))
	case 1:
		g = grammar(rule("r", conc(one(x), one(opt(y)))))
	case 2:
		g = grammar(rule("r", conc(rp(1, 2, group(conc(one(x)), conc(one(y)))))))
	case 3:
		g = grammar(rule("r", conc(one(x), one(y)), conc(one(y), one(y)), conc(rp(0, 1, y))))
	}
	checkMiss(g, "r", octets(4+sym.Tier()))
}

type wideRand struct{}

func (wideRand) Int63() int64 { return int64(sym.Byte()) | int64(sym.Byte())<<8 }
func (wideRand) Seed(int64)   {}

// H_P12_rand: the same driven by pseudo-random numbers.
func H_P12_rand() {
	g, root := gf_flat()
	tg := graphOf(g, root)
	if tg == nil {
		return
	}
	gen := newGen(g, root, tg, abnf.WithMaxLength(3), abnf.WithMaxReps(2))
	if gen == nil {
		return
	}
	out, label, ok := gen.NearMissRand(rand.New(wideRand{}))
	miss(g, root, out, label, ok)
}

// P13: ExpectedNext. The reference tells whether a text is a prefix of some
// text of the language.

type viab struct {
	r *ref
	p *prod
}

func viable(g *abnf.Grammar, root string, in []byte) bool {
	v := &viab{newRef(g, in), newProd(g)}
	return v.rule(root, 0)
}

func (v *viab) rule(name string, p int) bool {
	if i := v.r.rule(name); i >= 0 {
		return v.alt(v.r.rules[i].Alternation, p)
	}
	return v.core(name, p)
}

// core: prefixes of core rules. One octet each but for CRLF, LWSP and OCTET.
func (v *viab) core(name string, p int) bool {
	n := len(v.r.in)
	if p == n {
		return true
	}
	if coreMatch(name, v.r.in, p)>>uint(n)&1 == 1 {
		return true
	}
	if sameName(name, "CRLF") {
		return p+1 == n && v.r.in[p] == 0x0D
	}
	if sameName(name, "OCTET") {
		return p+1 == n && (v.r.in[p] == 0xC2 || v.r.in[p] == 0xC3)
	}
	if sameName(name, "LWSP") {
		ends := coreMatch(name, v.r.in, p) | 1<<uint(p)
		if n >= 1 && ends>>uint(n-1)&1 == 1 && v.r.in[n-1] == 0x0D {
			return true
		}
		return n >= 2 && ends>>uint(n-2)&1 == 1 && v.r.in[n-2] == 0x0D && v.r.in[n-1] == 0x0A
	}
	return false
}

func (v *viab) alt(a abnf.Alternation, p int) bool {
	for _, c := range a.Concatenations {
		if v.conc(c, p) {
			return true
		}
	}
	return false
}

func (v *viab) conc(c abnf.Concatenation, p int) bool {
	if !v.p.conc(c.Repetitions) {
		return false
	}
	s := 1 << uint(p)
	for _, r := range c.Repetitions {
		if v.rep(r, s) {
			return true
		}
		s = v.r.rep(r, s)
		if s == 0 {
			return false
		}
	}
	return s>>uint(len(v.r.in))&1 == 1
}

func (v *viab) rep(r abnf.Repetition, s int) bool {
	if !v.p.elem(r.Element) {
		return false
	}
	// occurrences consuming nothing lead nowhere new, so as many steps as octets
	seen := 0
	for i := 0; r.Max < 0 || i < r.Max; i++ {
		for p := 0; p <= len(v.r.in); p++ {
			if s>>uint(p)&1 == 1 && v.elem(r.Element, p) {
				return true
			}
		}
		seen |= s
		s = v.r.step(r.Element, s)
		if s&^seen == 0 {
			return false
		}
	}
	return false
}

func (v *viab) elem(e abnf.ElemItf, p int) bool {
	n := len(v.r.in)
	if p == n {
		return true // the element is productive
	}
	switch x := e.(type) {
	case abnf.ElemRulename:
		return v.rule(x.Name, p)
	case abnf.ElemGroup:
		return v.alt(x.Alternation, p)
	case abnf.ElemOption:
		return v.alt(x.Alternation, p)
	case abnf.ElemCharVal:
		for _, w := range x.Values {
			if p == n {
				return true
			}
			c := rune(v.r.in[p])
			if c != w && (x.Sensitive || foldRune(c) != foldRune(w)) {
				return false
			}
			p++
		}
		return p == n
	case abnf.ElemNumVal:
		if x.Status == abnf.StatRange {
			return leads(v.r.in[p:], numeral(x.Elems[0], x.Base), numeral(x.Elems[1], x.Base))
		}
		for _, s := range x.Elems {
			val := numeral(s, x.Base)
			c, k := decode(v.r.in, p)
			if k == 0 {
				return leads(v.r.in[p:], val, val)
			}
			if int64(c) != val {
				return false
			}
			p += k
			if p == n {
				return true
			}
		}
		return false
	}
	return false
}

// leads tells whether the octets start the encoding of a scalar in [lo,hi], or
// are one.
func leads(in []byte, lo, hi int64) bool {
	size, low, mask := 0, int64(0), int64(0)
	b := int64(in[0])
	switch {
	case b < 0x80:
		size, low, mask = 1, 0, b
	case b >= 0xC2 && b <= 0xDF:
		size, low, mask = 2, 0x80, b&0x1F
	case b >= 0xE0 && b <= 0xEF:
		size, low, mask = 3, 0x800, b&0x0F
	case b >= 0xF0 && b <= 0xF4:
		size, low, mask = 4, 0x10000, b&0x07
	default:
		return false
	}
	if len(in) > size {
		return false
	}
	for _, c := range in[1:] {
		if c&0xC0 != 0x80 {
			return false
		}
		mask = mask<<6 | int64(c&0x3F)
	}
	from, to := mask, mask
	for i := len(in); i < size; i++ {
		from, to = from<<6, to<<6|0x3F
	}
	if from < low {
		from = low
	}
	if to > 0x10FFFF {
		to = 0x10FFFF
	}
	if from < lo {
		from = lo
	}
	if to > hi {
		to = hi
	}
	if from >= 0xD800 && from <= 0xDFFF {
		from = 0xE000
	}
	return from <= to && !(to >= 0xD800 && to <= 0xDFFF && from > 0xD7FF)
}

func checkNext(g *abnf.Grammar, root string, prefix []byte, opts ...abnf.TGOption) {
	tg := graphOf(g, root, opts...)
	if tg == nil {
		return
	}
	gen := newGen(g, root, tg)
	if gen == nil {
		return
	}
	sym.Note("prefix", string(prefix))
	next, accepts, ok := gen.ExpectedNext(prefix)
	if !ok {
		sym.Assert(wide(g), "ExpectedNext gives up on a rule without enormous range")
		sym.Reach("gave up")
		return
	}
	sym.Assert(accepts == newRef(g, prefix).valid(root), "ExpectedNext is wrong on whether the prefix is complete")
	b := sym.Byte()
	has := false
	for i, c := range next {
		has = has || c == b
		sym.Assert(i == 0 || next[i-1] < c, "ExpectedNext repeats an octet")
	}
	sym.Note("next", string([]byte{b}))
	want := viable(g, root, append(append([]byte{}, prefix...), b))
	sym.Assert(has == want, "ExpectedNext is wrong on an octet")
	if has {
		sym.Reach("expected")
	} else {
		sym.Reach("unexpected")
	}
}

// wide tells whether some range has more than 2^16 values.
func wide(g *abnf.Grammar) bool {
	w := false
	var alt func(a abnf.Alternation)
	alt = func(a abnf.Alternation) {
		for _, c := range a.Concatenations {
			for _, r := range c.Repetitions {
				switch v := r.Element.(type) {
				case abnf.ElemGroup:
					alt(v.Alternation)
				case abnf.ElemOption:
					alt(v.Alternation)
				case abnf.ElemNumVal:
					if v.Status == abnf.StatRange && numeral(v.Elems[1], v.Base)-numeral(v.Elems[0], v.Base) >= 1<<16 {
						w = true
					}
				}
			}
		}
	}
	for _, r := range g.Rulemap {
		alt(r.Alternation)
	}
	return w
}

func p13(g *abnf.Grammar, root string) {
	checkNext(g, root, letters(sym.Choice(3+sym.Tier()), 4), tgOptsT()...)
}

func H_P13_flat()  { p13(gf_flat()) }
func H_P13_dag()   { p13(gf_dag()) }
func H_P13_count() { p13(gf_counted()) }
func H_P13_odd() {
	g, root := gf_odd()
	checkNext(g, root, octets(sym.Choice(3+sym.Tier())))
}

// H_P13_range: narrow ranges around the edges of the encoding.
func H_P13_range() {
	e := edges[sym.Choice(14)]
	lo, hi := e-int64(sym.Choice(2+sym.Tier())), e+int64(sym.Choice(2+sym.Tier()))
	sym.Assume(lo >= 0 && hi <= 0x10FFFF)
	x := hexRange(numeralOf(lo, "x"), numeralOf(hi, "x"))
	g := grammar(rule("r", conc(one(x), one(opt(schars("a"))))))
	checkNext(g, "r", octets(sym.Choice(4+sym.Tier())))
}

// H_P13_multi: two terminals of several octets sharing a lead.
func H_P13_multi() {
	xs := []abnf.ElemItf{hexRange("7E", "81"), hexRange("E8", "EA"), hexRange("BF", "C1"), hex("E9", "41"), hexRange("7FF", "801"), hexRange("FFFD", "FFFF"), hexRange("10000", "10040"), hex("1F600")}
	x, y := xs[sym.Choice(len(xs))], xs[sym.Choice(len(xs))]
	g := grammar(rule("r", conc(one(x)), conc(one(y), rp(0, -1, x))))
	checkNext(g, "r", octets(sym.Choice(3+sym.Tier())))
}

func H_P13_chars() {
	n := sym.Choice(2 + sym.Tier())
	g := grammar(rule("r", conc(one(abnf.ElemCharVal{Sensitive: sym.Bool(), Values: printable(n)}))))
	root := "r"
	checkNext(g, root, octets(sym.Choice(2)), tgOptsT()...)
}

func H_P13_core() {
	g, root := gf_core()
	checkNext(g, root, octets(sym.Choice(3)))
}
