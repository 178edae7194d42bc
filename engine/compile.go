package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type iop uint8

const (
	iAlloc iop = iota
	iBin
	iUn
	iLoad
	iStore
	iCall
	iDefer
	iMove
	iConvert
	iExtract
	iField
	iFieldAddr
	iIndex
	iIndexAddr
	iLookup
	iMapUpdate
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iArrayPtr
	iNext
	iRange
	iReturn
	iRunDefers
	iPanic
	iSlice
	iTypeAssert
	iIf
	iJump
	iSliceToArrPtr
	iUnsupported
)

type opKind uint8

const (
	oNone opKind = iota
	oReg
	oConst
	oGlobal
	oFree
)

type opd struct {
	k opKind
	i int32
}

type instr struct {
	op   iop
	tok  token.Token
	dst  int32
	a    opd
	b    opd
	c    opd
	d    opd
	t    *TInfo // operand or result type, by opcode
	t2   *TInfo
	n    int
	ok   bool // comma-ok
	args []opd
	fn   *Fn         // static callee
	meth *types.Func // invoke
	bi   string      // builtin
	mrg  *merge
	src  ssa.Instruction
}

type edge struct {
	to   int
	pred int // index among the target's predecessors
}

type phi struct {
	dst  int32
	in   []opd
	t    *TInfo
	comm string
}

type block struct {
	phis  []phi
	ins   []instr
	succs []edge
	idx   int
	pure  bool
	back  bool // has an incoming back edge
	npred int
}

// Fn is a compiled function.
type Fn struct {
	f        *ssa.Function
	name     string // intrinsic key
	once     sync.Once
	nregs    int
	nparams  int
	consts   []Val
	blocks   []*block
	recover  int
	hasBody  bool
	intr     intrinsic
	resT     *TInfo // result type (tuple when several)
	nres     int
	order    []int // topological order for pure functions
	external bool
	isPure   bool
	repl     *Fn
	interp   bool // in an interpreted (encoded) package
	pkg      string
	coverB   []uint32 // block coverage (atomic-ish)
}

type merge struct {
	region []int // topological order of merged blocks
	exits  []int // exit blocks
}

// Program is shared between workers.
type Program struct {
	prog     *ssa.Program
	mu       sync.Mutex
	fns      map[*ssa.Function]*Fn
	globals  map[*ssa.Global]int
	globalL  []*ssa.Global
	replFn   map[string]*ssa.Function
	initPkgs map[string]bool
	ssaMu    sync.Mutex // guards prog
	dyn      map[string]*dynPkg
	byPath   map[string]*types.Package
	pureMu   sync.Mutex
	pure     map[*ssa.Function]bool
	rtErr    *TInfo // runtime error type used for engine-raised panics
	rtErrI   *TInfo
}

func (P *Program) fn(f *ssa.Function) *Fn {
	P.mu.Lock()
	if x, ok := P.fns[f]; ok {
		P.mu.Unlock()
		return x
	}
	x := &Fn{f: f}
	P.fns[f] = x
	P.mu.Unlock()
	return x
}

func (P *Program) global(g *ssa.Global) int {
	P.mu.Lock()
	defer P.mu.Unlock()
	if i, ok := P.globals[g]; ok {
		return i
	}
	i := len(P.globalL)
	P.globals[g] = i
	P.globalL = append(P.globalL, g)
	return i
}

func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (P *Program) prepare(x *Fn) {
	x.once.Do(func() { P.compile(x) })
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func (P *Program) compile(x *Fn) {
	f := x.f
	x.name = fnKey(f)
	x.pkg = fnPkgPath(f)
	sig := f.Signature
	x.nres = sig.Results().Len()
	switch x.nres {
	case 0:
	case 1:
		x.resT = tinfo(sig.Results().At(0).Type())
	default:
		x.resT = tinfo(sig.Results())
	}
	x.intr = intrinsics[x.name]
	if f.Name() == "init" && f.Synthetic != "" && f.Pkg != nil && f.Signature.Recv() == nil {
		if path := f.Pkg.Pkg.Path(); !P.initPkgs[path] && !strings.HasPrefix(path, "verif/gen/") {
			x.intr = func(st *State, fn *Fn, args []Val) (Val, bool) { return Val{}, true }
			x.external = true
			return
		}
	}
	if r, ok := P.replFn[x.name]; ok && r != f {
		x.repl = P.fn(r)
	}
	P.ssaMu.Lock()
	if f.Pkg != nil {
		f.Pkg.Build()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	P.ssaMu.Unlock()
	if len(f.Blocks) == 0 {
		x.external = true
		return
	}
	x.hasBody = true
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range f.Params {
		regs[p] = n
		n++
	}
	x.nparams = int(n)
	free := map[ssa.Value]int32{}
	for i, v := range f.FreeVars {
		free[v] = int32(i)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	x.nregs = int(n)
	op := func(v ssa.Value) opd {
		if v == nil {
			return opd{}
		}
		if r, ok := regs[v]; ok {
			return opd{oReg, r}
		}
		if r, ok := free[v]; ok {
			return opd{oFree, r}
		}
		switch v := v.(type) {
		case *ssa.Const:
			x.consts = append(x.consts, constVal(v))
			return opd{oConst, int32(len(x.consts) - 1)}
		case *ssa.Global:
			return opd{oGlobal, int32(P.global(v))}
		case *ssa.Function:
			x.consts = append(x.consts, Val{P: &Closure{fn: P.fn(v)}})
			return opd{oConst, int32(len(x.consts) - 1)}
		case *ssa.Builtin:
			x.consts = append(x.consts, Val{P: &Closure{bi: v.Name()}})
			return opd{oConst, int32(len(x.consts) - 1)}
		}
		panic(fmt.Sprintf("operand %T", v))
	}
	for bi, b := range f.Blocks {
		nb := &block{idx: bi, npred: len(b.Preds)}
		occ := map[*ssa.BasicBlock]int{}
		for _, s := range b.Succs {
			k := occ[s]
			occ[s]++
			pi := -1
			for i, p := range s.Preds {
				if p == b {
					if k == 0 {
						pi = i
						break
					}
					k--
				}
			}
			nb.succs = append(nb.succs, edge{s.Index, pi})
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				p := phi{dst: regs[ph], t: tinfo(ph.Type()), comm: ph.Comment}
				for _, e := range ph.Edges {
					p.in = append(p.in, op(e))
				}
				nb.phis = append(nb.phis, p)
				continue
			}
			ci := P.instr(x, in, op)
			if ci == nil {
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			} else {
				ci.dst = -1
			}
			ci.src = in
			nb.ins = append(nb.ins, *ci)
		}
		x.blocks = append(x.blocks, nb)
	}
	x.recover = -1
	if f.Recover != nil {
		x.recover = f.Recover.Index
	}
	x.coverB = make([]uint32, len(x.blocks))
	P.markBackEdges(x)
	x.isPure = P.pureFn(x)
	if x.isPure {
		x.order = topoOrder(x)
	}
	for _, b := range x.blocks {
		b.pure = P.pureBlock(x, b)
	}
	for _, b := range x.blocks {
		if len(b.ins) > 0 && b.ins[len(b.ins)-1].op == iIf {
			b.ins[len(b.ins)-1].mrg = findMerge(x, b)
		}
	}
}

func constVal(c *ssa.Const) Val {
	t := tinfo(c.Type())
	if c.Value == nil {
		return zero(t)
	}
	switch t.kind {
	case KBool:
		return mkBool(constant.BoolVal(c.Value))
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{N: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{N: u & mask(t.w)}
	case KFloat:
		fl, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return Val{N: math.Float64bits(fl)}
	case KString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case KIface:
		return Val{}
	}
	return Val{}
}

func (P *Program) instr(x *Fn, in ssa.Instruction, op func(ssa.Value) opd) *instr {
	switch v := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		return &instr{op: iAlloc, t: tinfo(v.Type().Underlying().(*types.Pointer).Elem())}
	case *ssa.BinOp:
		return &instr{op: iBin, tok: v.Op, a: op(v.X), b: op(v.Y), t: tinfo(v.X.Type()), t2: tinfo(v.Y.Type())}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return &instr{op: iLoad, a: op(v.X), t: tinfo(v.Type())}
		}
		if v.Op == token.ARROW {
			return &instr{op: iUnsupported, bi: "channel receive"}
		}
		return &instr{op: iUn, tok: v.Op, a: op(v.X), t: tinfo(v.X.Type())}
	case *ssa.Store:
		return &instr{op: iStore, a: op(v.Addr), b: op(v.Val), t: tinfo(v.Val.Type())}
	case *ssa.Call:
		return P.callInstr(iCall, &v.Call, op)
	case *ssa.Defer:
		return P.callInstr(iDefer, &v.Call, op)
	case *ssa.Go:
		return &instr{op: iUnsupported, bi: "go statement"}
	case *ssa.ChangeInterface:
		return &instr{op: iMove, a: op(v.X)}
	case *ssa.ChangeType:
		return &instr{op: iMove, a: op(v.X)}
	case *ssa.Convert:
		return &instr{op: iConvert, a: op(v.X), t: tinfo(v.Type()), t2: tinfo(v.X.Type())}
	case *ssa.MultiConvert:
		return &instr{op: iConvert, a: op(v.X), t: tinfo(v.Type()), t2: tinfo(v.X.Type())}
	case *ssa.SliceToArrayPointer:
		return &instr{op: iArrayPtr, a: op(v.X), t: tinfo(v.Type())}
	case *ssa.Extract:
		return &instr{op: iExtract, a: op(v.Tuple), n: v.Index}
	case *ssa.Field:
		return &instr{op: iField, a: op(v.X), n: v.Field}
	case *ssa.FieldAddr:
		return &instr{op: iFieldAddr, a: op(v.X), n: v.Field}
	case *ssa.Index:
		return &instr{op: iIndex, a: op(v.X), b: op(v.Index), t: tinfo(v.X.Type()), t2: tinfo(v.Index.Type())}
	case *ssa.IndexAddr:
		return &instr{op: iIndexAddr, a: op(v.X), b: op(v.Index), t: tinfo(v.X.Type()), t2: tinfo(v.Index.Type())}
	case *ssa.Lookup:
		return &instr{op: iLookup, a: op(v.X), b: op(v.Index), t: tinfo(v.X.Type()), t2: tinfo(v.Index.Type()), ok: v.CommaOk}
	case *ssa.MapUpdate:
		return &instr{op: iMapUpdate, a: op(v.Map), b: op(v.Key), c: op(v.Value)}
	case *ssa.MakeClosure:
		ci := &instr{op: iMakeClosure, fn: P.fn(v.Fn.(*ssa.Function))}
		for _, b := range v.Bindings {
			ci.args = append(ci.args, op(b))
		}
		return ci
	case *ssa.MakeInterface:
		return &instr{op: iMakeInterface, a: op(v.X), t: tinfo(v.X.Type())}
	case *ssa.MakeMap:
		return &instr{op: iMakeMap, t: tinfo(v.Type())}
	case *ssa.MakeSlice:
		return &instr{op: iMakeSlice, a: op(v.Len), b: op(v.Cap), t: tinfo(v.Type())}
	case *ssa.MakeChan:
		return &instr{op: iUnsupported, bi: "make(chan)"}
	case *ssa.Next:
		return &instr{op: iNext, a: op(v.Iter), ok: v.IsString}
	case *ssa.Range:
		return &instr{op: iRange, a: op(v.X), t: tinfo(v.X.Type())}
	case *ssa.Return:
		ci := &instr{op: iReturn}
		for _, r := range v.Results {
			ci.args = append(ci.args, op(r))
		}
		return ci
	case *ssa.RunDefers:
		return &instr{op: iRunDefers}
	case *ssa.Panic:
		return &instr{op: iPanic, a: op(v.X)}
	case *ssa.Slice:
		return &instr{op: iSlice, a: op(v.X), b: op(v.Low), c: op(v.High), d: op(v.Max), t: tinfo(v.X.Type())}
	case *ssa.TypeAssert:
		return &instr{op: iTypeAssert, a: op(v.X), t: tinfo(v.AssertedType), ok: v.CommaOk}
	case *ssa.If:
		return &instr{op: iIf, a: op(v.Cond)}
	case *ssa.Jump:
		return &instr{op: iJump}
	case *ssa.Select, *ssa.Send:
		return &instr{op: iUnsupported, bi: "channel operation"}
	}
	return &instr{op: iUnsupported, bi: fmt.Sprintf("%T", in)}
}

func (P *Program) callInstr(o iop, c *ssa.CallCommon, op func(ssa.Value) opd) *instr {
	ci := &instr{op: o}
	if c.IsInvoke() {
		ci.meth = c.Method
		ci.a = op(c.Value)
	} else {
		switch f := c.Value.(type) {
		case *ssa.Function:
			ci.fn = P.fn(f)
		case *ssa.Builtin:
			ci.bi = f.Name()
			ci.t = tinfo(f.Type().(*types.Signature))
			if len(c.Args) > 0 {
				ci.t2 = tinfo(c.Args[0].Type())
			}
		default:
			ci.a = op(c.Value)
		}
	}
	if v := c.Signature().Results(); v.Len() == 1 && ci.bi != "" {
		ci.t = tinfo(v.At(0).Type())
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, op(a))
	}
	return ci
}

func (P *Program) markBackEdges(x *Fn) {
	state := make([]int, len(x.blocks))
	var dfs func(i int)
	dfs = func(i int) {
		state[i] = 1
		for _, e := range x.blocks[i].succs {
			if state[e.to] == 1 {
				x.blocks[e.to].back = true
			} else if state[e.to] == 0 {
				dfs(e.to)
			}
		}
		state[i] = 2
	}
	for i := range x.blocks {
		if state[i] == 0 {
			dfs(i)
		}
	}
}

func scalar(t *TInfo) bool { return t.kind == KBool || t.kind == KInt }

// mergeable types may become symbolic through if-conversion: booleans and
// integers of at most 32 bits. Wider integers (lengths, positions) are left to
// path splitting so that they stay concrete.
func mergeable(t *TInfo) bool { return t.kind == KBool || (t.kind == KInt && t.w <= 32) }

// pureInstr: total, effect-free and scalar, hence safe to speculate.
func (P *Program) pureInstr(x *Fn, in *instr) bool {
	switch in.op {
	case iBin:
		if !scalar(in.t) || !scalar(in.t2) {
			return false
		}
		switch in.tok {
		case token.QUO, token.REM:
			return in.b.k == oConst && x.consts[in.b.i].N != 0
		case token.SHL, token.SHR:
			return !in.t2.signed || in.b.k == oConst
		}
		return true
	case iUn:
		return scalar(in.t)
	case iConvert:
		return in.t.kind == KInt && in.t2.kind == KInt
	case iMove:
		return true
	case iIf, iJump:
		return true
	case iCall:
		if in.fn == nil || in.bi != "" || in.meth != nil {
			return false
		}
		return P.pureFn(in.fn)
	}
	return false
}

func (P *Program) pureBlock(x *Fn, b *block) bool {
	if b.back {
		return false
	}
	for _, p := range b.phis {
		if !scalar(p.t) {
			return false
		}
	}
	for i := range b.ins {
		if !P.pureInstr(x, &b.ins[i]) {
			return false
		}
	}
	return true
}

// pureFn: an acyclic scalar function without effects, evaluated as one term.
// Decided on the SSA form alone.
func (P *Program) pureFn(x *Fn) bool {
	P.pureMu.Lock()
	defer P.pureMu.Unlock()
	return P.pureSSA(x.f)
}

func (P *Program) pureSSA(f *ssa.Function) bool {
	if k, ok := P.pure[f]; ok {
		return k
	}
	P.pure[f] = false // recursion: impure
	ok := P.computePure(f)
	P.pure[f] = ok
	return ok
}

func (P *Program) computePure(f *ssa.Function) bool {
	if len(f.FreeVars) > 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	key := fnKey(f)
	if intrinsics[key] != nil || P.replFn[key] != nil {
		return false
	}
	if f.Pkg != nil {
		f.Pkg.Build()
	}
	if len(f.Blocks) == 0 || len(f.Blocks) > 24 {
		return false
	}
	if !mergeable(tinfo(f.Signature.Results().At(0).Type())) {
		return false
	}
	for _, p := range f.Params {
		if !scalar(tinfo(p.Type())) {
			return false
		}
	}
	isConstNZ := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && constant.Sign(c.Value) != 0
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.BinOp:
				if !scalar(tinfo(v.X.Type())) || !scalar(tinfo(v.Y.Type())) {
					return false
				}
				switch v.Op {
				case token.QUO, token.REM:
					if !isConstNZ(v.Y) {
						return false
					}
				case token.SHL, token.SHR:
					if _, c := v.Y.(*ssa.Const); !c && tinfo(v.Y.Type()).signed {
						return false
					}
				}
			case *ssa.UnOp:
				if v.Op == token.MUL || v.Op == token.ARROW || !scalar(tinfo(v.X.Type())) {
					return false
				}
			case *ssa.Convert:
				if tinfo(v.Type()).kind != KInt || tinfo(v.X.Type()).kind != KInt {
					return false
				}
			case *ssa.Phi:
				if !scalar(tinfo(v.Type())) {
					return false
				}
			case *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
			case *ssa.Call:
				c, ok := v.Call.Value.(*ssa.Function)
				if !ok || v.Call.IsInvoke() || !P.pureSSA(c) {
					return false
				}
			default:
				return false
			}
		}
	}
	// acyclic?
	state := make([]int, len(f.Blocks))
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		state[b.Index] = 1
		for _, s := range b.Succs {
			if state[s.Index] == 1 || state[s.Index] == 0 && !dfs(s) {
				return false
			}
		}
		state[b.Index] = 2
		return true
	}
	return dfs(f.Blocks[0])
}

func topoOrder(x *Fn) []int {
	seen := make([]bool, len(x.blocks))
	var post, out []int
	var dfs func(i int)
	dfs = func(i int) {
		seen[i] = true
		for _, e := range x.blocks[i].succs {
			if !seen[e.to] {
				dfs(e.to)
			}
		}
		post = append(post, i)
	}
	dfs(0)
	for i := len(post) - 1; i >= 0; i-- {
		out = append(out, post[i])
	}
	return out
}

// findMerge looks for a region of pure blocks after an If that can be evaluated
// under guards, leaving one exit (full if-conversion) or two exits (folding of
// && and || chains).
func findMerge(x *Fn, b *block) *merge {
	in := map[int]bool{}
	var region []int
	var best *merge
	preds := make([][]int, len(x.blocks))
	for _, bb := range x.blocks {
		for _, e := range bb.succs {
			preds[e.to] = append(preds[e.to], bb.idx)
		}
	}
	frontier := func() []int {
		var out []int
		seen := map[int]bool{}
		add := func(bb *block) {
			for _, e := range bb.succs {
				if !in[e.to] && !seen[e.to] {
					seen[e.to] = true
					out = append(out, e.to)
				}
			}
		}
		add(b)
		for _, r := range region {
			add(x.blocks[r])
		}
		return out
	}
	okExit := func(ex int) bool {
		eb := x.blocks[ex]
		if ex == b.idx {
			return false
		}
		// edges from the region (or b) into ex
		var es []int
		from := append([]int{b.idx}, region...)
		for _, f := range from {
			for _, e := range x.blocks[f].succs {
				if e.to == ex {
					es = append(es, e.pred)
				}
			}
		}
		if len(es) <= 1 {
			return true
		}
		for _, p := range eb.phis {
			same := true
			for _, e := range es[1:] {
				if !sameOpd(x, p.in[e], p.in[es[0]]) {
					same = false
				}
			}
			if !same && !mergeable(p.t) {
				return false
			}
		}
		return true
	}
	for len(region) < 16 {
		fr := frontier()
		good := len(fr) <= 2
		for _, e := range fr {
			if !okExit(e) {
				good = false
			}
		}
		if good && len(region) > 0 || good && len(fr) == 1 {
			m := &merge{region: append([]int(nil), region...), exits: fr}
			if best == nil || len(m.exits) <= len(best.exits) {
				best = m
			}
			if len(fr) == 1 {
				return best
			}
		}
		// extend by a pure block all of whose predecessors are inside
		ext := -1
		for _, e := range fr {
			eb := x.blocks[e]
			if !eb.pure || eb.back || e == b.idx || len(eb.succs) == 0 {
				continue
			}
			all := true
			for _, p := range preds[e] {
				if p != b.idx && !in[p] {
					all = false
				}
			}
			if all {
				ext = e
				break
			}
		}
		if ext < 0 {
			break
		}
		in[ext] = true
		region = append(region, ext)
	}
	return best
}

func sameOpd(x *Fn, a, b opd) bool {
	if a == b {
		return true
	}
	if a.k == oConst && b.k == oConst {
		u, v := x.consts[a.i], x.consts[b.i]
		if u.N != v.N {
			return false
		}
		if u.P == nil && v.P == nil {
			return true
		}
		s, ok1 := u.P.(string)
		t, ok2 := v.P.(string)
		return ok1 && ok2 && s == t
	}
	return false
}
