package main

import (
	"fmt"
	"go/format"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// intrinsic handles a call natively; ok=false falls through to the real body.
type intrinsic func(st *State, fn *Fn, args []Val) (Val, bool)

var intrinsics = map[string]intrinsic{}

const symPkg = "verif/harness/sym."
const rtPkg = "verif/harness/symrt."

// replacements: standard functions modelled by Go code in symrt.
var replacements = map[string]string{
	"strings.Index": "Index", "strings.LastIndex": "LastIndex", "strings.IndexByte": "IndexByteString",
	"strings.LastIndexByte": "LastIndexByteString", "strings.Count": "CountSub", "strings.Compare": "CompareString",
	"internal/stringslite.Index": "Index", "internal/stringslite.IndexByte": "IndexByteString",
	"internal/bytealg.IndexByteString": "IndexByteString", "internal/bytealg.IndexByte": "IndexByte",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString", "internal/bytealg.LastIndexByte": "LastIndexByte",
	"internal/bytealg.CountString": "CountString", "internal/bytealg.Count": "Count",
	"internal/bytealg.Equal": "Equal", "internal/bytealg.Compare": "Compare", "internal/bytealg.CompareString": "CompareString",
	"internal/bytealg.MakeNoZero": "MakeNoZero", "internal/bytealg.IndexString": "Index", "internal/bytealg.Index": "IndexBytes",
	"bytes.Equal": "Equal", "bytes.Compare": "Compare", "bytes.IndexByte": "IndexByte", "bytes.Index": "IndexBytes", "bytes.LastIndexByte": "LastIndexByte",
	"sort.Slice": "SortSlice", "sort.SliceStable": "SortSlice", "sort.SliceIsSorted": "SliceIsSorted",
	"errors.Is":                "ErrorsIs",
	"errors.As":                "ErrorsAs",
	"verif/harness/sym.Choice": "Choice",
	"fmt.Sprintf":              "Sprintf", "fmt.Errorf": "Errorf", "fmt.Fprintf": "Fprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln",
	"fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln", "fmt.Printf": "Printf", "fmt.Println": "Println", "fmt.Appendf": "Appendf",
}

func noop(st *State, fn *Fn, args []Val) (Val, bool) {
	if fn.resT != nil {
		return zero(fn.resT), true
	}
	return Val{}, true
}

func (st *State) drawVar(w uint8, lo, hi uint64, add uint64) *Expr {
	e := st.addVar(w, lo, hi)
	st.draws = append(st.draws, draw{int32(e.k), add})
	return e
}

func init() {
	I := intrinsics
	S := func(n string, f intrinsic) { I[symPkg+n] = f }
	S("Byte", func(st *State, fn *Fn, a []Val) (Val, bool) {
		return Val{P: st.drawVar(8, 0, 255, 0)}, true
	})
	S("Int", func(st *State, fn *Fn, a []Val) (Val, bool) {
		lo, hi := int64(st.conc(a[0])), int64(st.conc(a[1]))
		if hi < lo {
			panic(pathEnd{"assume", ""})
		}
		if hi-lo > 255 {
			st.unsupported("sym.Int range too wide")
		}
		e := st.drawVar(8, 0, uint64(hi-lo), uint64(lo))
		return exprVal(st.ctx.Bin(OAdd, st.ctx.Ext(e, 64, false), st.ctx.Const(uint64(lo), 64))), true
	})
	S("Bool", func(st *State, fn *Fn, a []Val) (Val, bool) {
		e := st.drawVar(8, 0, 1, 0)
		return exprVal(st.ctx.Cmp(OEq, e, st.ctx.Const(1, 8))), true
	})
	S("Rune", func(st *State, fn *Fn, a []Val) (Val, bool) {
		e := st.drawVar(21, 0, 0x1FFFFF, 0)
		return exprVal(st.ctx.Ext(e, 32, false)), true
	})
	S("Uint64", func(st *State, fn *Fn, a []Val) (Val, bool) {
		return Val{P: st.drawVar(64, 0, ^uint64(0), 0)}, true
	})
	S("Assume", func(st *State, fn *Fn, a []Val) (Val, bool) {
		e := sym(a[0])
		if e == nil {
			if a[0].N == 0 {
				panic(pathEnd{"assume", ""})
			}
			return Val{}, true
		}
		if st.ctx.Eval(e, st.model) != 1 {
			r, m := st.feasible(e)
			if r < 0 {
				st.w.ex.Unknown.Add(1)
			}
			if r != 1 {
				panic(pathEnd{"assume", ""})
			}
			st.model = m
		}
		st.addConstraint(e)
		return Val{}, true
	})
	S("Assert", func(st *State, fn *Fn, a []Val) (Val, bool) {
		ex := st.w.ex
		ex.Asserts.Add(1)
		what, _ := strConc(a[1])
		e := sym(a[0])
		if e == nil {
			if a[0].N == 0 {
				st.candidate("assert", what, st.model)
				panic(pathEnd{"violated", what})
			}
			return Val{}, true
		}
		ex.AssertsSym.Add(1)
		r, m := st.feasible(st.ctx.Not(e))
		if r < 0 {
			ex.Unknown.Add(1)
		}
		if r == 1 {
			st.candidate("assert", what, m)
		}
		if st.ctx.Eval(e, st.model) != 1 {
			r, m := st.feasible(e)
			if r != 1 {
				panic(pathEnd{"violated", what})
			}
			st.model = m
		}
		if r != 0 {
			st.addConstraint(e)
		}
		return Val{}, true
	})
	S("Reach", func(st *State, fn *Fn, a []Val) (Val, bool) {
		t, _ := strConc(a[0])
		st.w.ex.mu.Lock()
		st.w.ex.Reached[t]++
		st.w.ex.mu.Unlock()
		return Val{}, true
	})
	S("Want", func(st *State, fn *Fn, a []Val) (Val, bool) {
		t, _ := strConc(a[0])
		ex := st.w.ex
		ex.mu.Lock()
		_, old := ex.Wanted[t]
		ex.mu.Unlock()
		if !old {
			c := Candidate{Harness: ex.harness, What: "nothing yields " + t, Kind: "exists", Vals: st.vals(st.model), Tier: ex.tier, Notes: st.noteText(st.model)}
			ex.mu.Lock()
			ex.Wanted[t] = c
			ex.mu.Unlock()
		}
		ex.Asserts.Add(1)
		return Val{}, true
	})
	S("Cover", func(st *State, fn *Fn, a []Val) (Val, bool) {
		t, _ := strConc(a[0])
		st.w.ex.mu.Lock()
		st.w.ex.Covered[t] = true
		st.w.ex.mu.Unlock()
		return Val{}, true
	})
	S("Exhausted", func(st *State, fn *Fn, a []Val) (Val, bool) { return mkBool(false), true })
	S("Observe", func(st *State, fn *Fn, a []Val) (Val, bool) {
		t, _ := strConc(a[0])
		st.obs = append(st.obs, obs{t, a[1], false})
		return Val{}, true
	})
	S("ObserveS", func(st *State, fn *Fn, a []Val) (Val, bool) {
		t, _ := strConc(a[0])
		st.obs = append(st.obs, obs{t, a[1], true})
		return Val{}, true
	})
	S("Note", func(st *State, fn *Fn, a []Val) (Val, bool) {
		t, _ := strConc(a[0])
		st.notes = append(st.notes, obs{t, a[1], true})
		return Val{}, true
	})
	S("Tier", func(st *State, fn *Fn, a []Val) (Val, bool) { return mkInt(st.w.ex.tier), true })
	S("Seed", func(st *State, fn *Fn, a []Val) (Val, bool) { return mkInt(1), true })
	S("Symbolic", func(st *State, fn *Fn, a []Val) (Val, bool) { return mkBool(true), true })
	S("Steps", func(st *State, fn *Fn, a []Val) (Val, bool) { return mkInt(int(st.m.steps)), true })
	S("Conc", func(st *State, fn *Fn, a []Val) (Val, bool) { return Val{N: st.conc(a[0])}, true })
	S("MapOrder", func(st *State, fn *Fn, a []Val) (Val, bool) {
		st.m.rot = int(st.conc(a[0]))
		st.m.rev = st.conc(a[1]) != 0
		return Val{}, true
	})
	S("Freeze", func(st *State, fn *Fn, a []Val) (Val, bool) {
		f := &frozenSet{cells: map[*Val]bool{}, maps: map[*MapObj]bool{}}
		if st.m.frz != nil {
			for k := range st.m.frz.cells {
				f.cells[k] = true
			}
			for k := range st.m.frz.maps {
				f.maps[k] = true
			}
		}
		freeze(f, a[0])
		st.m.frz = f
		return Val{}, true
	})
	S("Unfreeze", func(st *State, fn *Fn, a []Val) (Val, bool) {
		n := st.m.frzHits
		st.m.frz, st.m.frzHits = nil, 0
		return mkInt(n), true
	})

	R := func(n string, f intrinsic) { I[rtPkg+n] = f }
	R("LenAny", func(st *State, fn *Fn, a []Val) (Val, bool) {
		return mkInt(len(anySlice(st, a[0]))), true
	})
	R("SwapAny", func(st *State, fn *Fn, a []Val) (Val, bool) {
		s := anySlice(st, a[0])
		i, j := int(st.conc(a[1])), int(st.conc(a[2]))
		x, y := copyVal(s[i]), copyVal(s[j])
		st.store(&s[i], y)
		st.store(&s[j], x)
		return Val{}, true
	})
	R("ElemAny", func(st *State, fn *Fn, a []Val) (Val, bool) {
		f := a[0].P.(*Iface)
		s := anySlice(st, a[0])
		return mkIface(f.T.elem, copyVal(s[st.conc(a[1])])), true
	})
	R("FieldAny", func(st *State, fn *Fn, a []Val) (Val, bool) {
		f := a[0].P.(*Iface)
		i := st.conc(a[1])
		return mkIface(f.T.fields[i], f.V.P.(*Agg).F[i]), true
	})
	R("AssignAny", func(st *State, fn *Fn, a []Val) (Val, bool) {
		e, _ := a[0].P.(*Iface)
		t, _ := a[1].P.(*Iface)
		if t == nil || t.T.kind != KPtr || t.V.P == nil {
			st.throw("errors: target must be a non-nil pointer")
		}
		if e == nil {
			return mkBool(false), true
		}
		if t.T.elem.kind == KIface {
			if !st.implements(e.T, t.T.elem) {
				return mkBool(false), true
			}
			st.store(t.V.P.(*Val), a[0])
			return mkBool(true), true
		}
		if e.T != t.T.elem {
			return mkBool(false), true
		}
		st.store(t.V.P.(*Val), e.V)
		return mkBool(true), true
	})
	R("NumFieldAny", func(st *State, fn *Fn, a []Val) (Val, bool) {
		return mkInt(len(a[0].P.(*Iface).T.fields)), true
	})
	R("KindAny", func(st *State, fn *Fn, a []Val) (Val, bool) {
		f, _ := a[0].P.(*Iface)
		if f == nil {
			return mkInt(0), true
		}
		switch f.T.kind {
		case KBool:
			return mkInt(1), true
		case KInt:
			if f.T.signed {
				return mkInt(2), true
			}
			return mkInt(3), true
		case KString:
			return mkInt(4), true
		case KSlice, KArray:
			return mkInt(5), true
		case KStruct:
			return mkInt(6), true
		case KPtr:
			if f.V.P != nil && f.T.elem != nil && f.T.elem.kind == KStruct {
				return mkInt(7), true
			}
		case KFloat:
			return mkInt(9), true
		}
		return mkInt(8), true
	})
	R("IntAny", func(st *State, fn *Fn, a []Val) (Val, bool) {
		f := a[0].P.(*Iface)
		return st.convert(tInt, f.T, f.V), true
	})
	R("UintAny", func(st *State, fn *Fn, a []Val) (Val, bool) {
		f := a[0].P.(*Iface)
		return st.convert(tInt, f.T, f.V), true
	})
	R("StrAny", func(st *State, fn *Fn, a []Val) (Val, bool) { return a[0].P.(*Iface).V, true })
	R("BoolAny", func(st *State, fn *Fn, a []Val) (Val, bool) { return a[0].P.(*Iface).V, true })
	R("IsByteSlice", func(st *State, fn *Fn, a []Val) (Val, bool) {
		f := a[0].P.(*Iface)
		return mkBool(f.T.elem != nil && f.T.elem.kind == KInt && f.T.elem.w == 8 && !f.T.elem.signed), true
	})
	R("DerefAny", func(st *State, fn *Fn, a []Val) (Val, bool) {
		f := a[0].P.(*Iface)
		return mkIface(f.T.elem, copyVal(*f.V.P.(*Val))), true
	})
	R("TypeName", func(st *State, fn *Fn, a []Val) (Val, bool) {
		f, _ := a[0].P.(*Iface)
		if f == nil {
			return mkStr("<nil>"), true
		}
		return mkStr(types.TypeString(f.T.T, func(p *types.Package) string { return p.Name() })), true
	})

	// strings.Builder
	I["(*strings.Builder).copyCheck"] = noop
	I["(*strings.Builder).String"] = func(st *State, fn *Fn, a []Val) (Val, bool) {
		p, _ := a[0].P.(*Val)
		if p == nil {
			st.throw("invalid memory address or nil pointer dereference")
		}
		for _, f := range p.P.(*Agg).F {
			if s, ok := f.P.(*Slice); ok {
				return bytesStr(s.S), true
			}
		}
		return Val{}, true
	}
	I["internal/abi.NoEscape"] = func(st *State, fn *Fn, a []Val) (Val, bool) { return a[0], true }
	I["internal/stringslite.Clone"] = func(st *State, fn *Fn, a []Val) (Val, bool) { return a[0], true }
	I["strings.Clone"] = func(st *State, fn *Fn, a []Val) (Val, bool) { return a[0], true }

	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "internal/race.Enable", "internal/race.Disable"} {
		I[n] = noop
	}

	// identifiers: unique, otherwise arbitrary
	I["github.com/hashicorp/go-uuid.GenerateUUID"] = func(st *State, fn *Fn, a []Val) (Val, bool) {
		st.m.uuid++
		n := st.m.uuid
		if st.m.rev { // the order of identifiers is arbitrary too
			n = 0xffffffffffff - n
		}
		return Val{P: &Agg{F: []Val{mkStr(fmt.Sprintf("00000000-0000-0000-0000-%012x", n)), {}}}}, true
	}

	// pseudo-randomness: every draw is arbitrary within its contract
	draw := func(st *State) {
		if st.m.rnds == 1 {
			panic(pathEnd{"assume", ""}) // beyond the stated number of draws
		}
		if st.m.rnds > 1 {
			st.m.rnds--
		}
	}
	// a harness may implement the source itself, which is then executed
	foreign := func(st *State, fn *Fn, a []Val) bool {
		p, ok := a[0].P.(*Val)
		if !ok || !strings.Contains(fn.name, ".Rand)") {
			return false
		}
		ag, ok := p.P.(*Agg)
		if !ok {
			return false
		}
		i, ok := ag.F[0].P.(*Iface)
		return ok && !strings.Contains(i.T.String(), "rngSource")
	}
	S("RandLimit", func(st *State, fn *Fn, a []Val) (Val, bool) {
		st.m.rnds = int(st.conc(a[0])) + 1
		return Val{}, true
	})
	rnd := func(w uint8) intrinsic {
		return func(st *State, fn *Fn, a []Val) (Val, bool) {
			if foreign(st, fn, a) {
				return Val{}, false
			}
			draw(st)
			e := st.addVar(8, 0, 255)
			return exprVal(st.ctx.Ext(e, w, false)), true
		}
	}
	I["(*math/rand.rngSource).Int63"] = rnd(64)
	I["(*math/rand.rngSource).Uint64"] = rnd(64)
	I["(*math/rand.rngSource).Seed"] = noop
	bounded := func(name string, w uint8) {
		I[name] = func(st *State, fn *Fn, a []Val) (Val, bool) {
			if foreign(st, fn, a) {
				return Val{}, false
			}
			draw(st)
			n := int64(st.conc(a[1]))
			if w == 32 {
				n = int64(int32(n))
			}
			if n <= 0 {
				st.throw("invalid argument to " + name)
			}
			if n > 256 {
				e := st.addVar(w, 0, uint64(n-1))
				return exprVal(e), true
			}
			e := st.addVar(8, 0, uint64(n-1))
			return exprVal(st.ctx.Ext(e, w, false)), true
		}
	}
	bounded("(*math/rand.Rand).Intn", 64)
	bounded("(*math/rand.Rand).Int63n", 64)
	bounded("(*math/rand.Rand).Int31n", 32)
	I["(*math/rand.Rand).Int63"] = rnd(64)
	I["(*math/rand.Rand).Int"] = rnd(64)
	I["(*math/rand.Rand).Uint64"] = rnd(64)
	I["(*math/rand.Rand).Int31"] = rnd(32)
	I["(*math/rand.Rand).Uint32"] = rnd(32)

	I["go/format.Source"] = func(st *State, fn *Fn, a []Val) (Val, bool) {
		s, ok := concBytes(a[0])
		if !ok {
			st.unsupported("go/format.Source on symbolic text")
		}
		out, err := format.Source(s)
		if err != nil {
			e := Val{P: &Iface{T: st.P.rtErr, V: Val{P: &Agg{F: []Val{mkStr(err.Error())}}}}}
			return Val{P: &Agg{F: []Val{{}, e}}}, true
		}
		return Val{P: &Agg{F: []Val{{P: &Slice{strBytes(mkStr(string(out)))}}, {}}}}, true
	}

	// pure functions: executed natively when every argument is concrete
	N := native
	N("strings.ToLower", strings.ToLower)
	N("strings.ToUpper", strings.ToUpper)
	N("strings.EqualFold", strings.EqualFold)
	N("strings.Contains", strings.Contains)
	N("strings.ContainsRune", strings.ContainsRune)
	N("strings.ContainsAny", strings.ContainsAny)
	N("strings.HasPrefix", strings.HasPrefix)
	N("strings.HasSuffix", strings.HasSuffix)
	N("strings.Index", strings.Index)
	N("strings.IndexByte", strings.IndexByte)
	N("strings.IndexRune", strings.IndexRune)
	N("strings.IndexAny", strings.IndexAny)
	N("strings.LastIndex", strings.LastIndex)
	N("strings.LastIndexByte", strings.LastIndexByte)
	N("strings.TrimSuffix", strings.TrimSuffix)
	N("strings.TrimPrefix", strings.TrimPrefix)
	N("strings.TrimSpace", strings.TrimSpace)
	N("strings.TrimLeft", strings.TrimLeft)
	N("strings.TrimRight", strings.TrimRight)
	N("strings.Trim", strings.Trim)
	N("strings.Split", strings.Split)
	N("strings.Fields", strings.Fields)
	N("strings.Join", strings.Join)
	N("strings.Repeat", strings.Repeat)
	N("strings.Replace", strings.Replace)
	N("strings.ReplaceAll", strings.ReplaceAll)
	N("strings.Count", strings.Count)
	N("strings.Compare", strings.Compare)
	N("strings.Cut", strings.Cut)
	N("strconv.Itoa", strconv.Itoa)
	N("strconv.FormatInt", strconv.FormatInt)
	N("strconv.FormatUint", strconv.FormatUint)
	N("strconv.Quote", strconv.Quote)
	N("strconv.QuoteRune", strconv.QuoteRune)
	N("strconv.QuoteToASCII", strconv.QuoteToASCII)
	N("strconv.ParseUint", strconv.ParseUint)
	N("strconv.ParseInt", strconv.ParseInt)
	N("strconv.Atoi", strconv.Atoi)
	N("unicode/utf8.ValidString", utf8.ValidString)
	N("unicode/utf8.RuneCountInString", utf8.RuneCountInString)
	N("unicode/utf8.DecodeRuneInString", utf8.DecodeRuneInString)
	N("unicode/utf8.DecodeRune", utf8.DecodeRune)
	N("unicode.IsUpper", unicode.IsUpper)
	N("unicode.IsLower", unicode.IsLower)
	N("unicode.IsLetter", unicode.IsLetter)
	N("unicode.IsPrint", unicode.IsPrint)
	N("unicode.IsSpace", unicode.IsSpace)
	N("unicode.ToLower", unicode.ToLower)
	N("unicode.ToUpper", unicode.ToUpper)
	N("unicode.SimpleFold", unicode.SimpleFold)
	N("strconv.IsPrint", strconv.IsPrint)
	N("math/bits.TrailingZeros64", bits.TrailingZeros64)
	N("math/bits.TrailingZeros", bits.TrailingZeros)
	N("math/bits.LeadingZeros", bits.LeadingZeros)
	N("math/bits.LeadingZeros64", bits.LeadingZeros64)
	N("math/bits.Len", bits.Len)
	N("math/bits.Len64", bits.Len64)
	N("math/bits.Add64", bits.Add64)
	N("math/bits.Sub64", bits.Sub64)
	N("math/bits.Mul64", bits.Mul64)
	N("math/bits.Add", bits.Add)
	N("math/bits.Sub", bits.Sub)
	N("math/bits.Mul", bits.Mul)
	N("math.Float64bits", math.Float64bits)
	N("math.Float64frombits", math.Float64frombits)
	N("math.Floor", math.Floor)
	N("math.Log2", math.Log2)
	N("math.Log", math.Log)
	N("math.Pow", math.Pow)
	N("math.Sqrt", math.Sqrt)
	N("math.Ceil", math.Ceil)
}

func mkIface(t *TInfo, v Val) Val {
	if t.kind == KIface {
		return v
	}
	return Val{P: &Iface{t, v}}
}

func anySlice(st *State, v Val) []Val {
	f, _ := v.P.(*Iface)
	if f == nil {
		st.unsupported("slice in nil interface")
	}
	switch f.T.kind {
	case KSlice:
		return st.sliceOf(f.V)
	case KArray:
		return f.V.P.(*Agg).F
	}
	st.unsupported("not a slice: %v", f.T)
	return nil
}

func freeze(f *frozenSet, v Val) {
	switch p := v.P.(type) {
	case *Val:
		if f.cells[p] {
			return
		}
		f.cells[p] = true
		freeze(f, *p)
	case *Agg:
		for i := range p.F {
			c := &p.F[i]
			if !f.cells[c] {
				f.cells[c] = true
				freeze(f, *c)
			}
		}
	case *Slice:
		full := p.S[:cap(p.S)]
		for i := range full {
			c := &full[i]
			if !f.cells[c] {
				f.cells[c] = true
				freeze(f, *c)
			}
		}
	case *MapObj:
		if f.maps[p] {
			return
		}
		f.maps[p] = true
		for i := range p.entries {
			if !p.entries[i].dead {
				freeze(f, p.entries[i].k)
				freeze(f, p.entries[i].v)
			}
		}
	case *Iface:
		freeze(f, p.V)
	case *Closure:
		for _, x := range p.free {
			freeze(f, x)
		}
	}
}

func concBytes(v Val) ([]byte, bool) {
	s, _ := v.P.(*Slice)
	if s == nil {
		return nil, true
	}
	out := make([]byte, len(s.S))
	for i, x := range s.S {
		if x.P != nil {
			return nil, false
		}
		out[i] = byte(x.N)
	}
	return out, true
}

// native registers a Go function executed directly on concrete arguments.
func native(name string, f any) {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	intrinsics[name] = func(st *State, fn *Fn, args []Val) (Val, bool) {
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			t := rt.In(i)
			switch t.Kind() {
			case reflect.String:
				s, ok := strConc(a)
				if !ok {
					return Val{}, false
				}
				in[i] = reflect.ValueOf(s)
			case reflect.Bool:
				if a.P != nil {
					return Val{}, false
				}
				in[i] = reflect.ValueOf(a.N != 0)
			case reflect.Int, reflect.Int64, reflect.Int32:
				if a.P != nil {
					return Val{}, false
				}
				x := reflect.New(t).Elem()
				if t.Kind() == reflect.Int32 {
					x.SetInt(int64(int32(a.N)))
				} else {
					x.SetInt(int64(a.N))
				}
				in[i] = x
			case reflect.Uint8, reflect.Uint, reflect.Uint32, reflect.Uint64:
				if a.P != nil {
					return Val{}, false
				}
				x := reflect.New(t).Elem()
				x.SetUint(a.N)
				in[i] = x
			case reflect.Float64:
				in[i] = reflect.ValueOf(math.Float64frombits(a.N))
			case reflect.Slice:
				switch t.Elem().Kind() {
				case reflect.Uint8:
					b, ok := concBytes(a)
					if !ok {
						return Val{}, false
					}
					in[i] = reflect.ValueOf(b)
				case reflect.String:
					var ss []string
					if s, ok := a.P.(*Slice); ok {
						for _, x := range s.S {
							y, ok := strConc(x)
							if !ok {
								return Val{}, false
							}
							ss = append(ss, y)
						}
					}
					in[i] = reflect.ValueOf(ss)
				default:
					return Val{}, false
				}
			default:
				return Val{}, false
			}
		}
		var out []reflect.Value
		ok := func() (ok bool) {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			out = rv.Call(in)
			return true
		}()
		if !ok {
			return Val{}, false
		}
		res := make([]Val, len(out))
		for i, o := range out {
			switch o.Kind() {
			case reflect.String:
				res[i] = mkStr(o.String())
			case reflect.Bool:
				res[i] = mkBool(o.Bool())
			case reflect.Int, reflect.Int64:
				res[i] = Val{N: uint64(o.Int())}
			case reflect.Int32:
				res[i] = Val{N: uint64(uint32(o.Int()))}
			case reflect.Uint8, reflect.Uint, reflect.Uint32, reflect.Uint64:
				res[i] = Val{N: o.Uint()}
			case reflect.Float64:
				res[i] = Val{N: math.Float64bits(o.Float())}
			case reflect.Interface: // error
				if !o.IsNil() {
					return Val{}, false
				}
			case reflect.Slice:
				if o.IsNil() {
					continue
				}
				s := make([]Val, o.Len())
				for j := range s {
					s[j] = mkStr(o.Index(j).String())
				}
				res[i] = Val{P: &Slice{s}}
			default:
				return Val{}, false
			}
		}
		if len(res) == 1 {
			return res[0], true
		}
		return Val{P: &Agg{F: res}}, true
	}
}
