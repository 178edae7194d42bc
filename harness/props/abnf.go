package props

import (
	abnf "github.com/pandatix/go-abnf"
)

// An independent reader of ABNF text (RFC 5234 section 4 with errata 2968 and
// 3076, RFC 7405). It shares no code with the library.

type prose string

func (p prose) String() string { return "<" + string(p) + ">" }

type definition struct {
	name        string
	incremental bool
	alt         abnf.Alternation
}

type reader struct {
	in []byte
}

func (r *reader) at(p int) byte {
	if p < len(r.in) {
		return r.in[p]
	}
	return 0 // no ABNF token contains NUL
}

func isAlpha(c byte) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isWsp(c byte) bool   { return c == ' ' || c == 9 }

// cnl reads a c-nl; -1 when there is none.
func (r *reader) cnl(p int) int {
	if r.at(p) == ';' {
		p++
		for isWsp(r.at(p)) || r.at(p) >= 0x21 && r.at(p) <= 0x7E {
			p++
		}
	}
	if r.at(p) == 13 && r.at(p+1) == 10 {
		return p + 2
	}
	return -1
}

// cwsps reads *c-wsp, as many as possible.
func (r *reader) cwsps(p int) int {
	for {
		if isWsp(r.at(p)) {
			p++
			continue
		}
		q := r.cnl(p)
		if q < 0 || !isWsp(r.at(q)) {
			return p
		}
		p = q + 1
	}
}

// readABNF reads a rule list.
func readABNF(in []byte) ([]definition, bool) {
	r := &reader{in}
	var ds []definition
	if len(in) == 0 {
		return nil, false
	}
	for p := 0; p < len(in); {
		if !isAlpha(in[p]) {
			for isWsp(r.at(p)) {
				p++
			}
			if p = r.cnl(p); p < 0 {
				return nil, false
			}
			continue
		}
		var d definition
		d.name, p = r.name(p)
		p = r.cwsps(p)
		if r.at(p) != '=' {
			return nil, false
		}
		p++
		if r.at(p) == '/' {
			d.incremental = true
			p++
		}
		p = r.cwsps(p)
		d.alt, p = r.alternation(p)
		if p < 0 {
			return nil, false
		}
		for isWsp(r.at(p)) {
			p++
		}
		if p = r.cnl(p); p < 0 {
			return nil, false
		}
		ds = append(ds, d)
	}
	return ds, true
}

func (r *reader) name(p int) (string, int) {
	q := p
	for isAlpha(r.at(q)) || isDigit(r.at(q)) || r.at(q) == '-' {
		q++
	}
	return string(r.in[p:q]), q
}

func (r *reader) alternation(p int) (abnf.Alternation, int) {
	var a abnf.Alternation
	for {
		var c abnf.Concatenation
		if c, p = r.concatenation(p); p < 0 {
			return a, -1
		}
		a.Concatenations = append(a.Concatenations, c)
		q := r.cwsps(p)
		if r.at(q) != '/' {
			return a, p
		}
		p = r.cwsps(q + 1)
	}
}

func (r *reader) concatenation(p int) (abnf.Concatenation, int) {
	var c abnf.Concatenation
	x, p := r.repetition(p)
	if p < 0 {
		return c, -1
	}
	c.Repetitions = append(c.Repetitions, x)
	for {
		q := r.cwsps(p)
		if q == p {
			return c, p
		}
		x, q = r.repetition(q)
		if q < 0 {
			return c, p
		}
		c.Repetitions = append(c.Repetitions, x)
		p = q
	}
}

func (r *reader) digits(p int) int {
	for isDigit(r.at(p)) {
		p++
	}
	return p
}

func (r *reader) number(p, q int) int {
	v := 0
	for ; p < q; p++ {
		if v > 1<<58 {
			return 1<<63 - 1
		}
		v = v*10 + int(r.in[p]-'0')
	}
	return v
}

func (r *reader) repetition(p int) (abnf.Repetition, int) {
	x := abnf.Repetition{Min: 1, Max: 1}
	q := r.digits(p)
	if r.at(q) == '*' {
		x.Min, x.Max = 0, -1
		if q > p {
			x.Min = r.number(p, q)
		}
		p = q + 1
		if q = r.digits(p); q > p {
			x.Max = r.number(p, q)
		}
	} else if q > p {
		x.Min = r.number(p, q)
		x.Max = x.Min
	}
	x.Element, p = r.element(q)
	return x, p
}

func (r *reader) element(p int) (abnf.ElemItf, int) {
	c := r.at(p)
	switch {
	case isAlpha(c):
		n, q := r.name(p)
		return abnf.ElemRulename{Name: n}, q
	case c == '(':
		a, p := r.nested(p+1, ')')
		return abnf.ElemGroup{Alternation: a}, p
	case c == '[':
		a, p := r.nested(p+1, ']')
		return abnf.ElemOption{Alternation: a}, p
	case c == '"':
		v, p := r.quoted(p)
		return abnf.ElemCharVal{Values: v}, p
	case c == '<':
		q := p + 1
		for r.at(q) >= 0x20 && r.at(q) <= 0x7E && r.at(q) != '>' {
			q++
		}
		if r.at(q) != '>' {
			return nil, -1
		}
		return prose(r.in[p+1 : q]), q + 1
	case c == '%':
		switch k := lowerByte(r.at(p + 1)); k {
		case 's', 'i':
			v, q := r.quoted(p + 2)
			return abnf.ElemCharVal{Sensitive: k == 's', Values: v}, q
		case 'b', 'd', 'x':
			return r.numeric(p+2, k)
		}
	}
	return nil, -1
}

func (r *reader) nested(p int, end byte) (abnf.Alternation, int) {
	a, p := r.alternation(r.cwsps(p))
	if p < 0 {
		return a, -1
	}
	p = r.cwsps(p)
	if r.at(p) != end {
		return a, -1
	}
	return a, p + 1
}

func (r *reader) quoted(p int) ([]rune, int) {
	if r.at(p) != '"' {
		return nil, -1
	}
	p++
	var v []rune
	for r.at(p) >= 0x20 && r.at(p) <= 0x7E && r.at(p) != '"' {
		v = append(v, rune(r.at(p)))
		p++
	}
	if r.at(p) != '"' {
		return nil, -1
	}
	return v, p + 1
}

func (r *reader) numeral(p int, base byte) (string, int) {
	q := p
	for {
		c := lowerByte(r.at(q))
		if !(c == '0' || c == '1' || base != 'b' && isDigit(c) || base == 'x' && c >= 'a' && c <= 'f') {
			break
		}
		q++
	}
	if q == p {
		return "", -1
	}
	return string(r.in[p:q]), q
}

func (r *reader) numeric(p int, base byte) (abnf.ElemItf, int) {
	e := abnf.ElemNumVal{Base: string(rune(base)), Status: abnf.StatSeries}
	n, p := r.numeral(p, base)
	if p < 0 {
		return nil, -1
	}
	e.Elems = append(e.Elems, n)
	if r.at(p) == '-' {
		if n, q := r.numeral(p+1, base); q >= 0 {
			e.Status = abnf.StatRange
			e.Elems = append(e.Elems, n)
			p = q
		}
		return e, p
	}
	for r.at(p) == '.' {
		n, q := r.numeral(p+1, base)
		if q < 0 {
			break
		}
		e.Elems = append(e.Elems, n)
		p = q
	}
	return e, p
}

// sameAlt tells whether two definitions are identical.
func sameAlt(a, b abnf.Alternation) bool {
	if len(a.Concatenations) != len(b.Concatenations) {
		return false
	}
	for i, c := range a.Concatenations {
		d := b.Concatenations[i]
		if len(c.Repetitions) != len(d.Repetitions) {
			return false
		}
		for j, x := range c.Repetitions {
			y := d.Repetitions[j]
			if x.Min != y.Min || x.Max != y.Max || !sameElem(x.Element, y.Element) {
				return false
			}
		}
	}
	return true
}

func sameElem(a, b abnf.ElemItf) bool {
	switch v := a.(type) {
	case abnf.ElemRulename:
		w, ok := b.(abnf.ElemRulename)
		return ok && v.Name == w.Name
	case abnf.ElemGroup:
		w, ok := b.(abnf.ElemGroup)
		return ok && sameAlt(v.Alternation, w.Alternation)
	case abnf.ElemOption:
		w, ok := b.(abnf.ElemOption)
		return ok && sameAlt(v.Alternation, w.Alternation)
	case abnf.ElemCharVal:
		w, ok := b.(abnf.ElemCharVal)
		if !ok || v.Sensitive != w.Sensitive || len(v.Values) != len(w.Values) {
			return false
		}
		for i := range v.Values {
			if v.Values[i] != w.Values[i] {
				return false
			}
		}
		return true
	case abnf.ElemNumVal:
		w, ok := b.(abnf.ElemNumVal)
		if !ok || !sameName(v.Base, w.Base) || v.Status != w.Status || len(v.Elems) != len(w.Elems) {
			return false
		}
		for i := range v.Elems {
			if v.Elems[i] != w.Elems[i] {
				return false
			}
		}
		return true
	case prose:
		w, ok := b.(abnf.ElemProseVal)
		return ok && w.String() == v.String()
	case abnf.ElemProseVal:
		switch w := b.(type) {
		case abnf.ElemProseVal:
			return w.String() == v.String()
		case prose:
			return w.String() == v.String()
		}
	}
	return false
}
