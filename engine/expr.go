package main

// Bit-vector and boolean terms. Terms are hash-consed per worker (Ctx).

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	OTrunc // extract low w bits
	OZExt
	OSExt
	OEq
	OUlt
	OUle
	OSlt
	OSle
	ONot  // boolean
	OBAnd // boolean
	OBOr  // boolean
	OIte
	OTable // tab[a], a of width <= 8
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "trunc", "zext", "sext", "=", "bvult", "bvule", "bvslt", "bvsle", "not", "and", "or", "ite", "table"}

// Expr is a term; w == 0 means boolean.
type Expr struct {
	op   Op
	w    uint8
	id   int32
	a    *Expr
	b    *Expr
	c    *Expr
	k    uint64
	tab  []uint64
	vars []int32
	set  *[4]uint64 // truth set when boolean and unary over a small variable
	gen  uint32
	val  uint64
	size int32
}

type ekey struct {
	op      Op
	w       uint8
	a, b, c *Expr
	k       uint64
	t       *uint64
}

// VarInfo describes a symbolic variable.
type VarInfo struct {
	w  uint8
	lo uint64 // inclusive bounds of the raw value (unsigned)
	hi uint64
}

// Ctx owns the terms of one worker.
type Ctx struct {
	tab   map[ekey]*Expr
	n     int32
	vars  []VarInfo
	varE  []*Expr
	gen   uint32
	True  *Expr
	False *Expr
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}}
	c.True = c.mk(OConst, 0, nil, nil, nil, 1, nil)
	c.False = c.mk(OConst, 0, nil, nil, nil, 0, nil)
	return c
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Expr, k uint64, tab []uint64) *Expr {
	key := ekey{op, w, a, b, d, k, nil}
	if tab != nil {
		key.t = &tab[0]
	}
	if e, ok := c.tab[key]; ok {
		return e
	}
	e := &Expr{op: op, w: w, id: c.n, a: a, b: b, c: d, k: k, tab: tab, size: 1}
	c.n++
	for _, x := range [...]*Expr{a, b, d} {
		if x != nil {
			e.vars = mergeVars(e.vars, x.vars)
			e.size += x.size
			if e.size > 1<<28 {
				e.size = 1 << 28
			}
		}
	}
	c.tab[key] = e
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) Const(v uint64, w uint8) *Expr { return c.mk(OConst, w, nil, nil, nil, v&mask(w), nil) }
func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

// NewVar declares variable number len(vars).
func (c *Ctx) NewVar(w uint8, lo, hi uint64) *Expr {
	i := len(c.vars)
	c.vars = append(c.vars, VarInfo{w, lo, hi})
	if i < len(c.varE) && c.varE[i].w == w {
		return c.varE[i]
	}
	e := &Expr{op: OVar, w: w, id: c.n, k: uint64(i), vars: []int32{int32(i)}, size: 1}
	c.n++
	if i < len(c.varE) {
		c.varE[i] = e
	} else {
		c.varE = append(c.varE, e)
	}
	return e
}

func evalOp(op Op, w uint8, aw uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	case OTrunc, OZExt:
		return x & m
	case OSExt:
		return uint64(sext(x, aw)) & m
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext(x, aw) < sext(y, aw))
	case OSle:
		return b2u(sext(x, aw) <= sext(y, aw))
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Eval evaluates e under the model (indexed by variable).
func (c *Ctx) Eval(e *Expr, model []uint64) uint64 {
	c.gen++
	return c.eval(e, model)
}

func (c *Ctx) eval(e *Expr, model []uint64) uint64 {
	if e.op == OConst {
		return e.k
	}
	if e.op == OVar {
		return model[e.k]
	}
	if e.gen == c.gen {
		return e.val
	}
	var v uint64
	switch e.op {
	case ONot:
		v = 1 - c.eval(e.a, model)
	case OBAnd:
		if c.eval(e.a, model) == 0 {
			v = 0
		} else {
			v = c.eval(e.b, model)
		}
	case OBOr:
		if c.eval(e.a, model) == 1 {
			v = 1
		} else {
			v = c.eval(e.b, model)
		}
	case OIte:
		if c.eval(e.a, model) == 1 {
			v = c.eval(e.b, model)
		} else {
			v = c.eval(e.c, model)
		}
	case OTable:
		i := c.eval(e.a, model)
		if i < uint64(len(e.tab)) {
			v = e.tab[i]
		}
	default:
		x := c.eval(e.a, model)
		var y uint64
		if e.b != nil {
			y = c.eval(e.b, model)
		}
		v = evalOp(e.op, e.w, e.a.w, x, y)
	}
	e.gen, e.val = c.gen, v
	return v
}

// Not negates a boolean.
func (c *Ctx) Not(e *Expr) *Expr {
	switch e.op {
	case OConst:
		return c.Bool(e.k == 0)
	case ONot:
		return e.a
	}
	return c.mk(ONot, 0, e, nil, nil, 0, nil)
}

// And is boolean conjunction.
func (c *Ctx) And(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.k == 0 {
			return c.False
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return c.False
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.False
	}
	return c.mk(OBAnd, 0, a, b, nil, 0, nil)
}

// Or is boolean disjunction.
func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.k == 1 {
			return c.True
		}
		return b
	}
	if b.op == OConst {
		if b.k == 1 {
			return c.True
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.True
	}
	return c.mk(OBOr, 0, a, b, nil, 0, nil)
}

// Ite is if-then-else on any sort.
func (c *Ctx) Ite(p, a, b *Expr) *Expr {
	if p.op == OConst {
		if p.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.k == 1 {
				return c.Or(p, b)
			}
			return c.And(c.Not(p), b)
		}
		if b.op == OConst {
			if b.k == 0 {
				return c.And(p, a)
			}
			return c.Or(c.Not(p), a)
		}
	}
	return c.mk(OIte, a.w, p, a, b, 0, nil)
}

// Bin builds an arithmetic or bitwise operation on equal widths.
func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return c.Const(evalOp(op, w, w, a.k, b.k), w)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, a.a, c.Const(a.b.k+b.k, w))
			}
		}
	case OSub:
		if b.op == OConst {
			return c.Bin(OAdd, a, c.Const(-b.k, w))
		}
		if a == b {
			return c.Const(0, w)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OZExt && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OOr, OXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
		if a == b {
			if op == OOr {
				return a
			}
			return c.Const(0, w)
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.k == 0 {
			return a
		}
	case OUDiv, OSDiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
	}
	return c.mk(op, w, a, b, nil, 0, nil)
}

// Ext converts e to width w (truncation, or extension by signedness).
func (c *Ctx) Ext(e *Expr, w uint8, signed bool) *Expr {
	if e.w == w {
		return e
	}
	if e.op == OConst {
		if w > e.w && signed {
			return c.Const(uint64(sext(e.k, e.w)), w)
		}
		return c.Const(e.k, w)
	}
	if w < e.w {
		switch e.op {
		case OZExt, OSExt:
			if e.a.w == w {
				return e.a
			}
			if e.a.w > w {
				return c.Ext(e.a, w, false)
			}
			return c.Ext(e.a, w, e.op == OSExt)
		case OTrunc:
			return c.Ext(e.a, w, false)
		}
		return c.mk(OTrunc, w, e, nil, nil, 0, nil)
	}
	if e.op == OZExt {
		return c.Ext(e.a, w, false)
	}
	if e.op == OSExt && signed {
		return c.Ext(e.a, w, true)
	}
	if signed {
		return c.mk(OSExt, w, e, nil, nil, 0, nil)
	}
	return c.mk(OZExt, w, e, nil, nil, 0, nil)
}

// Cmp builds a comparison.
func (c *Ctx) Cmp(op Op, a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return c.Bool(evalOp(op, 0, a.w, a.k, b.k) == 1)
	}
	if a == b {
		return c.Bool(op == OEq || op == OUle || op == OSle)
	}
	if op == OEq {
		if a.w == 0 {
			if a.op == OConst {
				a, b = b, a
			}
			if b.op == OConst {
				if b.k == 1 {
					return a
				}
				return c.Not(a)
			}
			return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch a.op {
			case OZExt:
				if b.k&^mask(a.a.w) != 0 {
					return c.False
				}
				return c.Cmp(OEq, a.a, c.Const(b.k, a.a.w))
			case OSExt:
				if uint64(sext(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
					return c.False
				}
				return c.Cmp(OEq, a.a, c.Const(b.k, a.a.w))
			case OAdd:
				if a.b.op == OConst {
					return c.Cmp(OEq, a.a, c.Const(b.k-a.b.k, a.w))
				}
			case OIte:
				if a.b.op == OConst && a.c.op == OConst {
					if a.b.k == b.k && a.c.k != b.k {
						return a.a
					}
					if a.b.k != b.k && a.c.k == b.k {
						return c.Not(a.a)
					}
					if a.b.k != b.k && a.c.k != b.k {
						return c.False
					}
				}
			}
		} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return c.Cmp(OEq, a.a, b.a)
		} else if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OEq, 0, a, b, nil, 0, nil)
	}
	// zero-extended operands compare like their sources
	if a.op == OZExt && b.op == OConst {
		m := mask(a.a.w)
		signed := op == OSlt || op == OSle
		if signed && sext(b.k, b.w) < 0 {
			return c.False
		}
		if b.k > m {
			return c.True
		}
		nop := op
		if op == OSlt {
			nop = OUlt
		} else if op == OSle {
			nop = OUle
		}
		return c.Cmp(nop, a.a, c.Const(b.k, a.a.w))
	}
	if b.op == OZExt && a.op == OConst {
		m := mask(b.a.w)
		signed := op == OSlt || op == OSle
		if signed && sext(a.k, a.w) < 0 {
			return c.True
		}
		if a.k > m {
			return c.False
		}
		nop := op
		if op == OSlt {
			nop = OUlt
		} else if op == OSle {
			nop = OUle
		}
		return c.Cmp(nop, c.Const(a.k, b.a.w), b.a)
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		nop := op
		if op == OSlt {
			nop = OUlt
		} else if op == OSle {
			nop = OUle
		}
		return c.Cmp(nop, a.a, b.a)
	}
	return c.mk(op, 0, a, b, nil, 0, nil)
}

// Table builds tab[idx]; idx must be known to be in range.
func (c *Ctx) Table(tab []uint64, idx *Expr, w uint8) *Expr {
	if idx.op == OConst {
		return c.Const(tab[idx.k], w)
	}
	return c.mk(OTable, w, idx, nil, nil, 0, tab)
}

// unarySet returns the truth set of a boolean term over one variable of at most
// 8 bits.
func (c *Ctx) unarySet(e *Expr) *[4]uint64 {
	if e.set != nil {
		return e.set
	}
	v := e.vars[0]
	w := c.vars[v].w
	var s [4]uint64
	m := make([]uint64, v+1)
	for i := uint64(0); i <= mask(w); i++ {
		m[v] = i
		if c.Eval(e, m) == 1 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	e.set = &s
	return e.set
}

func setEmpty(s [4]uint64) bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func setFirst(s [4]uint64) uint64 {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}
func setHas(s *[4]uint64, v uint64) bool { return v < 256 && s[v>>6]>>(v&63)&1 == 1 }
func setCount(s [4]uint64) int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}

// smt prints e as SMT-LIB, sharing repeated subterms with let.
func smt(e *Expr) string {
	refs := map[*Expr]int{}
	var order []*Expr
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x == nil || x.op == OConst || x.op == OVar {
			return
		}
		refs[x]++
		if refs[x] > 1 {
			return
		}
		walk(x.a)
		walk(x.b)
		walk(x.c)
		order = append(order, x)
	}
	walk(e)
	names := map[*Expr]string{}
	var sb strings.Builder
	closing := 0
	for _, x := range order {
		if refs[x] > 1 && x != e {
			n := fmt.Sprintf("t%d", x.id)
			sb.WriteString("(let ((" + n + " ")
			writeSMT(&sb, x, names)
			sb.WriteString(")) ")
			names[x] = n
			closing++
		}
	}
	writeSMT(&sb, e, names)
	sb.WriteString(strings.Repeat(")", closing))
	return sb.String()
}

func writeSMT(sb *strings.Builder, e *Expr, names map[*Expr]string) {
	if n, ok := names[e]; ok {
		sb.WriteString(n)
		return
	}
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.k == 1 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", e.k, e.w)
	case OVar:
		fmt.Fprintf(sb, "v%d_%d", e.k, e.w)
	case OTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) ", e.w-1)
		writeSMT(sb, e.a, names)
		sb.WriteByte(')')
	case OZExt, OSExt:
		n := "zero_extend"
		if e.op == OSExt {
			n = "sign_extend"
		}
		fmt.Fprintf(sb, "((_ %s %d) ", n, e.w-e.a.w)
		writeSMT(sb, e.a, names)
		sb.WriteByte(')')
	case OTable:
		// ranges of equal values, as nested ite on index <= upper bound
		var idx strings.Builder
		writeSMT(&idx, e.a, names)
		is := idx.String()
		n := 0
		i := 0
		for i < len(e.tab) {
			j := i
			for j+1 < len(e.tab) && e.tab[j+1] == e.tab[i] {
				j++
			}
			if j+1 >= len(e.tab) {
				fmt.Fprintf(sb, "(_ bv%d %d)", e.tab[i], e.w)
			} else {
				fmt.Fprintf(sb, "(ite (bvule %s (_ bv%d %d)) (_ bv%d %d) ", is, j, e.a.w, e.tab[i], e.w)
				n++
			}
			i = j + 1
		}
		sb.WriteString(strings.Repeat(")", n))
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[e.op])
		for _, x := range [...]*Expr{e.a, e.b, e.c} {
			if x != nil {
				sb.WriteByte(' ')
				writeSMT(sb, x, names)
			}
		}
		sb.WriteByte(')')
	}
}
