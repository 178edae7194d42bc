package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Val is a Go value during symbolic execution.
//
//	bool, integers   N (masked to the width), or P=*Expr when symbolic
//	floats           N = bits of the float64 (float32 is kept as float64)
//	string           P = nil ("") | string | *SymStr
//	pointer          P = nil | *Val | *SymPtr | *Obj (opaque)
//	slice            P = nil | *Slice
//	map              P = nil | *MapObj
//	interface        P = nil | *Iface
//	func             P = nil | *Closure
//	struct, array    P = *Agg
//	tuple            P = *Agg
type Val struct {
	N uint64
	P any
}

type Agg struct{ F []Val }

type Slice struct{ S []Val }

type Iface struct {
	T *TInfo
	V Val
}

type Closure struct {
	fn   *Fn
	free []Val
	bi   string // builtin
}

type SymStr struct{ b []Val }

// SymPtr is the address of an element at a symbolic index.
type SymPtr struct {
	s   []Val
	idx *Expr
}

type TKind uint8

const (
	KBool TKind = iota
	KInt
	KFloat
	KString
	KPtr
	KSlice
	KMap
	KIface
	KFunc
	KStruct
	KArray
	KTuple
	KChan
	KOther
)

// TInfo is the canonical description of a type.
type TInfo struct {
	T      types.Type
	id     int
	kind   TKind
	w      uint8
	signed bool
	elem   *TInfo
	key    *TInfo
	fields []*TInfo
	n      int
	named  bool
}

var (
	tmu    sync.Mutex
	tmap   typeutil.Map
	tcount int
)

func tinfo(t types.Type) *TInfo {
	tmu.Lock()
	defer tmu.Unlock()
	return tinfoL(t)
}

func tinfoL(t types.Type) *TInfo {
	if v := tmap.At(t); v != nil {
		return v.(*TInfo)
	}
	ti := &TInfo{T: t, id: tcount}
	tcount++
	tmap.Set(t, ti)
	_, ti.named = types.Unalias(t).(*types.Named)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, 64
		case types.Float32:
			ti.kind, ti.w = KFloat, 32
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer, types.UntypedNil:
			ti.kind = KPtr
		default:
			ti.kind = KOther
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = tinfoL(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = tinfoL(u.Elem())
	case *types.Map:
		ti.kind = KMap
		ti.key, ti.elem = tinfoL(u.Key()), tinfoL(u.Elem())
	case *types.Interface:
		ti.kind = KIface
	case *types.Signature:
		ti.kind = KFunc
	case *types.Struct:
		ti.kind = KStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tinfoL(u.Field(i).Type()))
		}
	case *types.Array:
		ti.kind = KArray
		ti.elem = tinfoL(u.Elem())
		ti.n = int(u.Len())
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tinfoL(u.At(i).Type()))
		}
	case *types.Chan:
		ti.kind = KChan
		ti.elem = tinfoL(u.Elem())
	default:
		ti.kind = KOther
	}
	return ti
}

func (t *TInfo) String() string { return t.T.String() }

func zero(t *TInfo) Val {
	switch t.kind {
	case KStruct, KTuple:
		a := &Agg{F: make([]Val, len(t.fields))}
		for i, f := range t.fields {
			if f.kind == KStruct || f.kind == KArray {
				a.F[i] = zero(f)
			}
		}
		return Val{P: a}
	case KArray:
		a := &Agg{F: make([]Val, t.n)}
		if t.elem.kind == KStruct || t.elem.kind == KArray {
			for i := range a.F {
				a.F[i] = zero(t.elem)
			}
		}
		return Val{P: a}
	}
	return Val{}
}

// copyVal deep-copies aggregates (struct and array values).
func copyVal(v Val) Val {
	a, ok := v.P.(*Agg)
	if !ok {
		return v
	}
	n := &Agg{F: make([]Val, len(a.F))}
	for i, f := range a.F {
		if _, ok := f.P.(*Agg); ok {
			f = copyVal(f)
		}
		n.F[i] = f
	}
	return Val{P: n}
}

func sym(v Val) *Expr {
	e, _ := v.P.(*Expr)
	return e
}

func mkBool(b bool) Val { return Val{N: b2u(b)} }
func mkInt(i int) Val   { return Val{N: uint64(i)} }
func mkStr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{P: s}
}

func exprVal(e *Expr) Val {
	if e.op == OConst {
		return Val{N: e.k}
	}
	return Val{P: e}
}

func strLen(v Val) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.P))
}

func strConc(v Val) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strAt(v Val, i int) Val {
	switch s := v.P.(type) {
	case string:
		return Val{N: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Val) []Val {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		out := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = Val{N: uint64(s[i])}
		}
		return out
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

// bytesStr makes a string from octets (the slice is not retained when concrete).
func bytesStr(b []Val) Val {
	conc := true
	for i := range b {
		if b[i].P != nil {
			conc = false
			break
		}
	}
	if conc {
		if len(b) == 0 {
			return Val{}
		}
		buf := make([]byte, len(b))
		for i := range b {
			buf[i] = byte(b[i].N)
		}
		return Val{P: unsafe.String(&buf[0], len(buf))}
	}
	return Val{P: &SymStr{b: append([]Val(nil), b...)}}
}

func strSlice(v Val, lo, hi int) Val {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return mkStr(s[lo:hi])
	case *SymStr:
		return bytesStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Val) Val {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	x, ok1 := a.P.(string)
	y, ok2 := b.P.(string)
	if ok1 && ok2 {
		return Val{P: x + y}
	}
	xs, ys := strBytes(a), strBytes(b)
	out := make([]Val, 0, len(xs)+len(ys))
	out = append(append(out, xs...), ys...)
	return Val{P: &SymStr{b: out}}
}

// MapObj is an insertion-ordered map.
type MapObj struct {
	t       *TInfo
	entries []mapEntry
	idx     map[string]int
	idxN    map[uint64]int // for integer-like keys
	idxP    map[unsafe.Pointer]int
	live    int
	nsym    int
}

type mapEntry struct {
	k, v Val
	dead bool
	sym  bool
}

func newMap(t *TInfo) *MapObj {
	m := &MapObj{t: t}
	switch t.key.kind {
	case KInt, KBool:
		m.idxN = map[uint64]int{}
	case KPtr:
		m.idxP = map[unsafe.Pointer]int{}
	default:
		m.idx = map[string]int{}
	}
	return m
}

func ptrOf(v Val) unsafe.Pointer {
	switch p := v.P.(type) {
	case nil:
		return nil
	case *Val:
		return unsafe.Pointer(p)
	case *MapObj:
		return unsafe.Pointer(p)
	case *Closure:
		return unsafe.Pointer(p)
	case *SymPtr:
		return unsafe.Pointer(p)
	}
	panic(fmt.Sprintf("ptrOf %T", v.P))
}

// encKey appends the encoding of a fully concrete key; ok is false if any part
// is symbolic.
func encKey(buf []byte, t *TInfo, v Val) ([]byte, bool) {
	switch t.kind {
	case KBool, KInt, KFloat:
		if v.P != nil {
			return buf, false
		}
		return binary.LittleEndian.AppendUint64(buf, v.N), true
	case KString:
		s, ok := strConc(v)
		if !ok {
			return buf, false
		}
		buf = binary.LittleEndian.AppendUint32(buf, uint32(len(s)))
		return append(buf, s...), true
	case KPtr, KChan:
		return binary.LittleEndian.AppendUint64(buf, uint64(uintptr(ptrOf(v)))), true
	case KStruct:
		a := v.P.(*Agg)
		ok := true
		for i, f := range t.fields {
			buf, ok = encKey(buf, f, a.F[i])
			if !ok {
				return buf, false
			}
		}
		return buf, true
	case KArray:
		a := v.P.(*Agg)
		ok := true
		for i := range a.F {
			buf, ok = encKey(buf, t.elem, a.F[i])
			if !ok {
				return buf, false
			}
		}
		return buf, true
	case KIface:
		if v.P == nil {
			return binary.LittleEndian.AppendUint32(buf, ^uint32(0)), true
		}
		f := v.P.(*Iface)
		buf = binary.LittleEndian.AppendUint32(buf, uint32(f.T.id))
		return encKey(buf, f.T, f.V)
	}
	panic(fmt.Sprintf("encKey %v", t))
}

func (m *MapObj) findConc(k Val) (int, bool, bool) { // index, found, concrete key
	if m.idxN != nil {
		if k.P != nil {
			return 0, false, false
		}
		i, ok := m.idxN[k.N]
		return i, ok, true
	}
	if m.idxP != nil {
		i, ok := m.idxP[ptrOf(k)]
		return i, ok, true
	}
	var tmp [128]byte
	b, ok := encKey(tmp[:0], m.t.key, k)
	if !ok {
		return 0, false, false
	}
	i, ok := m.idx[string(b)]
	return i, ok, true
}

func (m *MapObj) setIdx(k Val, i int) {
	switch {
	case m.idxN != nil:
		m.idxN[k.N] = i
	case m.idxP != nil:
		m.idxP[ptrOf(k)] = i
	default:
		b, _ := encKey(nil, m.t.key, k)
		m.idx[string(b)] = i
	}
}

func (m *MapObj) delIdx(k Val) {
	switch {
	case m.idxN != nil:
		delete(m.idxN, k.N)
	case m.idxP != nil:
		delete(m.idxP, ptrOf(k))
	default:
		b, _ := encKey(nil, m.t.key, k)
		delete(m.idx, string(b))
	}
}

type mapIter struct {
	m     *MapObj
	order []int32
	pos   Val // N = position, kept in a cell so that it is rolled back
}

type strIter struct {
	s   Val
	pos Val
}

var _ = ssa.NaiveForm
