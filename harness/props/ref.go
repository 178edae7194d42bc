package props

import (
	abnf "github.com/pandatix/go-abnf"
)

// ref is the reference semantics of ABNF (RFC 5234, RFC 7405) over UTF-8 text:
// for every rule and start position the set of reachable end positions, as the
// least fixpoint of the grammar's equations. It shares no code with the library.
type ref struct {
	g     *abnf.Grammar
	in    []byte
	names []string
	rules []*abnf.Rule
	ends  [][]int // rule, start -> bit set of ends
}

func lowerByte(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func sameName(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if lowerByte(a[i]) != lowerByte(b[i]) {
			return false
		}
	}
	return true
}

func newRef(g *abnf.Grammar, in []byte) *ref {
	r := &ref{g: g, in: in}
	for _, x := range g.Rulemap {
		r.rules = append(r.rules, x)
		r.ends = append(r.ends, make([]int, len(in)+1))
	}
	for changed := true; changed; {
		changed = false
		for i, x := range r.rules {
			for p := 0; p <= len(in); p++ {
				s := r.ends[i][p] | r.alt(x.Alternation, p)
				if s != r.ends[i][p] {
					r.ends[i][p] = s
					changed = true
				}
			}
		}
	}
	return r
}

func (r *ref) rule(name string) int {
	for i, x := range r.rules {
		if sameName(x.Name, name) {
			return i
		}
	}
	return -1
}

// valid tells whether the whole input derives from the rule.
func (r *ref) valid(name string) bool {
	return r.span(name, 0, len(r.in))
}

func (r *ref) span(name string, from, to int) bool {
	i := r.rule(name)
	if i < 0 {
		return coreMatch(name, r.in, from)>>uint(to)&1 == 1
	}
	return r.ends[i][from]>>uint(to)&1 == 1
}

func (r *ref) alt(a abnf.Alternation, p int) int {
	s := 0
	for _, c := range a.Concatenations {
		s |= r.conc(c, p)
	}
	return s
}

func (r *ref) conc(c abnf.Concatenation, p int) int {
	s := 1 << uint(p)
	for _, x := range c.Repetitions {
		s = r.rep(x, s)
		if s == 0 {
			return 0
		}
	}
	return s
}

func (r *ref) step(e abnf.ElemItf, s int) int {
	t := 0
	for p := 0; p <= len(r.in); p++ {
		if s>>uint(p)&1 == 1 {
			t |= r.elem(e, p)
		}
	}
	return t
}

func (r *ref) rep(x abnf.Repetition, s int) int {
	if x.Max >= 0 && x.Min > x.Max {
		return 0
	}
	prev := 0
	for i := 0; i < x.Min; i++ {
		t := r.step(x.Element, s)
		if t == 0 {
			return 0
		}
		if t == s && t == prev {
			break // the level is stationary
		}
		prev, s = s, t
	}
	acc := s
	for k := x.Min; x.Max < 0 || k < x.Max; k++ {
		t := acc | r.step(x.Element, acc)
		if t == acc {
			break
		}
		acc = t
	}
	return acc
}

func (r *ref) elem(e abnf.ElemItf, p int) int {
	switch v := e.(type) {
	case abnf.ElemRulename:
		if i := r.rule(v.Name); i >= 0 {
			return r.ends[i][p]
		}
		return coreMatch(v.Name, r.in, p)
	case abnf.ElemGroup:
		return r.alt(v.Alternation, p)
	case abnf.ElemOption:
		return r.alt(v.Alternation, p) | 1<<uint(p)
	case abnf.ElemCharVal:
		return charMatch(v, r.in, p)
	case abnf.ElemNumVal:
		return numMatch(v, r.in, p)
	}
	return 0
}

// decode reads one UTF-8 encoded scalar value at p; size 0 when there is none.
func decode(in []byte, p int) (rune, int) {
	if p >= len(in) {
		return 0, 0
	}
	b0 := in[p]
	if b0 < 0x80 {
		return rune(b0), 1
	}
	n := len(in) - p
	cont := func(i int) bool { return n > i && in[p+i]&0xC0 == 0x80 }
	if b0 >= 0xC2 && b0 <= 0xDF {
		if !cont(1) {
			return 0, 0
		}
		return rune(b0&0x1F)<<6 | rune(in[p+1]&0x3F), 2
	}
	if b0 >= 0xE0 && b0 <= 0xEF {
		if !cont(1) || !cont(2) {
			return 0, 0
		}
		v := rune(b0&0x0F)<<12 | rune(in[p+1]&0x3F)<<6 | rune(in[p+2]&0x3F)
		if v < 0x800 || (v >= 0xD800 && v <= 0xDFFF) {
			return 0, 0
		}
		return v, 3
	}
	if b0 >= 0xF0 && b0 <= 0xF4 {
		if !cont(1) || !cont(2) || !cont(3) {
			return 0, 0
		}
		v := rune(b0&0x07)<<18 | rune(in[p+1]&0x3F)<<12 | rune(in[p+2]&0x3F)<<6 | rune(in[p+3]&0x3F)
		if v < 0x10000 || v > 0x10FFFF {
			return 0, 0
		}
		return v, 4
	}
	return 0, 0
}

func foldRune(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r + 32
	}
	return r
}

func charMatch(v abnf.ElemCharVal, in []byte, p int) int {
	for _, w := range v.Values {
		r, n := decode(in, p)
		if n == 0 {
			return 0
		}
		if v.Sensitive {
			if r != w {
				return 0
			}
		} else if foldRune(r) != foldRune(w) {
			return 0
		}
		p += n
	}
	return 1 << uint(p)
}

// numeral is the value of a numeral, saturating far above every code point.
func numeral(s, base string) int64 {
	radix := int64(10)
	switch base {
	case "b", "B":
		radix = 2
	case "x", "X":
		radix = 16
	}
	v := int64(0)
	for i := 0; i < len(s); i++ {
		c := lowerByte(s[i])
		d := int64(c - '0')
		if c >= 'a' {
			d = int64(c-'a') + 10
		}
		v = v*radix + d
		if v > 1<<40 {
			v = 1 << 40
		}
	}
	return v
}

func numMatch(v abnf.ElemNumVal, in []byte, p int) int {
	if v.Status == abnf.StatRange {
		r, n := decode(in, p)
		if n == 0 {
			return 0
		}
		if int64(r) >= numeral(v.Elems[0], v.Base) && int64(r) <= numeral(v.Elems[1], v.Base) {
			return 1 << uint(p+n)
		}
		return 0
	}
	for _, e := range v.Elems {
		r, n := decode(in, p)
		if n == 0 || int64(r) != numeral(e, v.Base) {
			return 0
		}
		p += n
	}
	return 1 << uint(p)
}

// coreMatch gives the core rules of RFC 5234 appendix B.1.
func coreMatch(name string, in []byte, p int) int {
	is := func(s string) bool { return sameName(name, s) }
	b := -1
	if p < len(in) {
		b = int(in[p])
	}
	hit := func(ok bool) int {
		if b >= 0 && ok {
			return 1 << uint(p+1)
		}
		return 0
	}
	switch {
	case is("ALPHA"):
		return hit(b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z')
	case is("BIT"):
		return hit(b == '0' || b == '1')
	case is("CHAR"):
		return hit(b >= 1 && b <= 0x7F)
	case is("CR"):
		return hit(b == 0x0D)
	case is("CRLF"):
		if p+1 < len(in) && in[p] == 0x0D && in[p+1] == 0x0A {
			return 1 << uint(p+2)
		}
		return 0
	case is("CTL"):
		return hit(b <= 0x1F || b == 0x7F)
	case is("DIGIT"):
		return hit(b >= '0' && b <= '9')
	case is("DQUOTE"):
		return hit(b == 0x22)
	case is("HEXDIG"):
		return hit(b >= '0' && b <= '9' || b >= 'A' && b <= 'F' || b >= 'a' && b <= 'f')
	case is("HTAB"):
		return hit(b == 9)
	case is("LF"):
		return hit(b == 10)
	case is("LWSP"):
		s := 1 << uint(p)
		for {
			q := p
			if q+1 < len(in) && in[q] == 0x0D && in[q+1] == 0x0A {
				q += 2
			}
			if q < len(in) && (in[q] == ' ' || in[q] == 9) {
				p = q + 1
				s |= 1 << uint(p)
				continue
			}
			return s
		}
	case is("OCTET"):
		r, n := decode(in, p)
		if n == 0 || r > 0xFF {
			return 0
		}
		return 1 << uint(p+n)
	case is("SP"):
		return hit(b == ' ')
	case is("VCHAR"):
		return hit(b >= 0x21 && b <= 0x7E)
	case is("WSP"):
		return hit(b == ' ' || b == 9)
	}
	return 0
}
