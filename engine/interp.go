package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   *Fn
	free []Val
	args []Val
	bi   string
}

// Frame is one activation.
type Frame struct {
	fn        *Fn
	regs      []Val
	free      []Val
	blk       *block
	pc        int
	dst       int32
	defers    []deferred
	frozen    bool
	unwinding bool // running deferred calls because of a panic
	recovered bool
	running   bool // a deferred call of RunDefers is active
	panicVal  Val
	byPanic   bool // this activation is a deferred call run while panicking
}

type cellUndo struct {
	p   *Val
	old Val
}

type mapUndo struct {
	m    *MapObj
	kind uint8 // 0 insert, 1 delete, 2 set
	i    int
	old  Val
}

type domUndo struct {
	v   int32
	dom [4]uint64
	uc  *Expr
}

type draw struct {
	v   int32
	add uint64
}

type obs struct {
	tag string
	v   Val
	str bool
}

type frozenSet struct {
	cells map[*Val]bool
	maps  map[*MapObj]bool
}

// misc is the part of the state that is copied at a choice point.
type misc struct {
	rot      int
	rev      bool
	uuid     uint64
	rnds     int // pseudo-random draws left to explore, plus one (0: unlimited)
	frz      *frozenSet
	frzHits  int
	frzWhere string
	steps    int64
	reached  int // length of reach log
}

type choice struct {
	stack    []*Frame
	nCell    int
	nMap     int
	nDom     int
	nMulti   int
	nVars    int
	nDraws   int
	nObs     int
	nNotes   int
	nCands   int
	decs     int
	alt      *Expr
	altModel []uint64
	m        misc
}

type pathEnd struct {
	kind string // done, assume, panic, unsupported, steps, stop
	msg  string
}

type goPanic struct{ v Val }

// State is one worker's execution state.
type State struct {
	P       *Program
	ctx     *Ctx
	sol     *solver
	globals []*Val
	stack   []*Frame
	cellLog []cellUndo
	mapLog  []mapUndo
	logging bool

	dom    [][4]uint64
	uc     []*Expr // conjunction of unary constraints per small variable
	ent    []int   // number of multi-variable constraints per variable
	domLog []domUndo
	multi  []*Expr
	pool   map[*Fn]*[]*Frame // activations to reuse
	model  []uint64
	draws  []draw
	obs    []obs
	notes  []obs
	reach  []string
	decs   int
	cands  []uint64
	prefix *workItem
	chs    []choice
	m      misc

	instrLog    int // cell log position at the start of the current instruction
	instrMapLog int
	instrStack  int

	certSeen map[certKey]bool
	certPend []cert

	w        *Worker
	tabCache map[*Val][]uint64
	methC    map[methKey]*Fn
	implC    map[[2]*TInfo]bool
	maxSteps int64
	candNext uint64
	total    int64
}

type methKey struct {
	t *TInfo
	m *types.Func
}

func (st *State) unsupported(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	panic(pathEnd{"unsupported", msg + st.where()})
}

func (st *State) where() string {
	s := ""
	for i := len(st.stack) - 1; i >= 0 && i > len(st.stack)-6; i-- {
		f := st.stack[i]
		s += " < " + f.fn.name
		if f.pc < len(f.blk.ins) && f.blk.ins[f.pc].src != nil {
			p := f.fn.f.Prog.Fset.Position(f.blk.ins[f.pc].src.Pos())
			if p.Line > 0 {
				s += fmt.Sprintf(":%d", p.Line)
			}
		}
	}
	return s
}

// throw raises a Go run-time panic.
func (st *State) throw(msg string) {
	v := Val{P: &Iface{T: st.P.rtErr, V: Val{P: &Agg{F: []Val{mkStr(msg)}}}}}
	panic(goPanic{v})
}

func (st *State) top() *Frame {
	n := len(st.stack) - 1
	f := st.stack[n]
	if f.frozen {
		g := *f
		g.frozen = false
		g.regs = append([]Val(nil), f.regs...)
		st.stack[n] = &g
		return &g
	}
	return f
}

func (st *State) mutFrame(i int) *Frame {
	f := st.stack[i]
	if f.frozen {
		g := *f
		g.frozen = false
		g.regs = append([]Val(nil), f.regs...)
		st.stack[i] = &g
		return &g
	}
	return f
}

func (st *State) get(fr *Frame, o opd) Val {
	switch o.k {
	case oReg:
		return fr.regs[o.i]
	case oConst:
		return fr.fn.consts[o.i]
	case oFree:
		return fr.free[o.i]
	case oGlobal:
		return Val{P: st.globalCell(int(o.i))}
	}
	return Val{}
}

func (st *State) globalCell(i int) *Val {
	for len(st.globals) <= i {
		st.globals = append(st.globals, nil)
	}
	if st.globals[i] == nil {
		st.P.mu.Lock()
		g := st.P.globalL[i]
		st.P.mu.Unlock()
		c := new(Val)
		*c = zero(tinfo(g.Type().Underlying().(*types.Pointer).Elem()))
		st.globals[i] = c
	}
	return st.globals[i]
}

func (st *State) set(fr *Frame, dst int32, v Val) {
	if dst >= 0 {
		fr.regs[dst] = v
	}
}

// store writes v through p, copying aggregates in place.
func (st *State) store(p *Val, v Val) {
	if src, ok := v.P.(*Agg); ok {
		if dst, ok := p.P.(*Agg); ok && len(dst.F) == len(src.F) {
			for i := range src.F {
				st.store(&dst.F[i], src.F[i])
			}
			return
		}
		v = copyVal(v)
	}
	if st.m.frz != nil && st.m.frz.cells[p] {
		st.m.frzHits++
		if st.m.frzWhere == "" {
			st.m.frzWhere = st.where()
		}
	}
	if st.logging {
		st.cellLog = append(st.cellLog, cellUndo{p, *p})
	}
	*p = v
}

func (st *State) bool(v Val) bool {
	if e := sym(v); e != nil {
		return st.decide(e)
	}
	return v.N != 0
}

// int64 returns a concrete integer, case-splitting when symbolic.
func (st *State) conc(v Val) uint64 {
	if e := sym(v); e != nil {
		return st.concretize(e)
	}
	return v.N
}

func (st *State) concInt(v Val, t *TInfo) int {
	n := st.conc(v)
	if t != nil && t.signed {
		return int(sext(n, t.w))
	}
	return int(n)
}

func (st *State) expr(v Val, w uint8) *Expr {
	if e := sym(v); e != nil {
		return e
	}
	if w == 0 {
		return st.ctx.Bool(v.N != 0)
	}
	return st.ctx.Const(v.N, w)
}

func (st *State) jump(fr *Frame, e edge) {
	b := fr.fn.blocks[e.to]
	if n := len(b.phis); n == 1 {
		fr.regs[b.phis[0].dst] = st.get(fr, b.phis[0].in[e.pred])
	} else if n > 0 {
		var tmp [8]Val
		t := tmp[:0]
		for i := range b.phis {
			t = append(t, st.get(fr, b.phis[i].in[e.pred]))
		}
		for i := range b.phis {
			fr.regs[b.phis[i].dst] = t[i]
		}
	}
	fr.blk = b
	fr.pc = 0
	fr.fn.coverB[b.idx] = 1
}

// run executes until the path ends. It returns how it ended.
func (st *State) run() (end pathEnd) {
	for {
		e, again := st.runProtected()
		if !again {
			return e
		}
	}
}

func (st *State) runProtected() (end pathEnd, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end, again = x, false
			case goPanic:
				// turn into an interpreted panic; the faulting instruction is
				// abandoned
				func() {
					defer func() {
						if r := recover(); r != nil {
							if pe, ok := r.(pathEnd); ok {
								end, again = pe, false
								return
							}
							panic(r)
						}
					}()
					again = true
					if fin := st.startPanic(x.v); fin {
						end, again = pathEnd{"panic", st.panicText(x.v)}, false
					}
				}()
			default:
				if st.w != nil && st.w.debug {
					panic(r)
				}
				end, again = pathEnd{"unsupported", fmt.Sprintf("engine: %v%s", r, st.where())}, false
			}
		}
	}()
	st.loop()
	return pathEnd{"done", ""}, false
}

func (st *State) panicText(v Val) string {
	f, ok := v.P.(*Iface)
	if !ok {
		return "nil"
	}
	switch f.T.kind {
	case KString:
		s, _ := strConc(f.V)
		return s
	case KStruct:
		if f.T == st.P.rtErr {
			s, _ := strConc(f.V.P.(*Agg).F[0])
			return "runtime error: " + s
		}
	}
	return f.T.String()
}

// startPanic begins unwinding with value v; it returns true when no frame
// recovers, i.e. the path ends.
func (st *State) startPanic(v Val) bool {
	for len(st.stack) > 0 {
		i := len(st.stack) - 1
		fr := st.mutFrame(i)
		if fr.byPanic || fr.running {
			// a panic inside a deferred call replaces the current one
		}
		fr.unwinding = true
		fr.recovered = false
		fr.panicVal = v
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
			if st.callDeferred(d, true) {
				return false // frame pushed, continue the loop
			}
			// builtin or intrinsic finished at once
			continue
		}
		st.stack = st.stack[:i]
	}
	return true
}

// afterDeferred is called when a deferred call returns into fr while unwinding.
func (st *State) afterDeferred(fr *Frame) {
	if fr.recovered {
		fr.unwinding = false
		fr.recovered = false
		// run remaining defers normally, then the recover block
		fr.running = true
		st.finishRecover(fr)
		return
	}
	if st.startPanic(fr.panicVal) {
		panic(pathEnd{"panic", st.panicText(fr.panicVal)})
	}
}

func (st *State) finishRecover(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
		if st.callDeferred(d, false) {
			return
		}
	}
	fr.running = false
	if fr.fn.recover >= 0 {
		fr.blk = fr.fn.blocks[fr.fn.recover]
		fr.pc = 0
		return
	}
	// no recover block: return zero values
	var v Val
	if fr.fn.resT != nil {
		v = zero(fr.fn.resT)
	}
	st.doReturn(fr, v)
}

// callDeferred pushes the deferred call; false when it completed immediately.
func (st *State) callDeferred(d deferred, byPanic bool) bool {
	if d.bi != "" {
		st.builtin(d.bi, d.args, nil, nil)
		return false
	}
	n := len(st.stack)
	st.call(d.fn, d.args, d.free, -1)
	if len(st.stack) > n {
		st.stack[len(st.stack)-1].byPanic = byPanic
		return true
	}
	return false
}

func (st *State) doReturn(fr *Frame, v Val) {
	n := len(st.stack) - 1
	st.stack = st.stack[:n]
	if n == 0 {
		return
	}
	c := st.top()
	if c.unwinding {
		st.afterDeferred(c)
		return
	}
	if c.running {
		if c.blk.ins[c.pc].op == iRunDefers {
			// deferred call finished; RunDefers re-executes
			return
		}
		st.finishRecover(c)
		return
	}
	if fr.dst >= 0 {
		c.regs[fr.dst] = v
	}
	c.pc++
	st.recycle(fr)
}

// call pushes an activation, or completes at once for intrinsics. The caller's
// pc is advanced when the call completes.
func (st *State) call(fn *Fn, args []Val, free []Val, dst int32) {
	st.P.prepare(fn)
	if fn.intr != nil {
		n := len(st.stack)
		v, ok := fn.intr(st, fn, args)
		if ok {
			if len(st.stack) != n {
				return
			}
			st.complete(v, dst)
			return
		}
	}
	if fn.repl != nil {
		fn = fn.repl
		st.P.prepare(fn)
	}
	if fn.isPure {
		for i := range args {
			if args[i].P != nil {
				st.complete(st.evalPure(fn, args), dst)
				return
			}
		}
	}
	if !fn.hasBody {
		st.unsupported("call of %s (no body)", fn.name)
	}
	if len(st.stack) > 20000 {
		panic(pathEnd{"steps", "stack depth exceeded" + st.where()})
	}
	fr := st.newFrame(fn, free, dst)
	copy(fr.regs, args)
	fn.coverB[0] = 1
	st.stack = append(st.stack, fr)
}

// newFrame takes an activation of fn from the pool. Registers are not cleared:
// in SSA form every use is dominated by its definition.
func (st *State) newFrame(fn *Fn, free []Val, dst int32) *Frame {
	if p := st.pool[fn]; p != nil && len(*p) > 0 {
		n := len(*p) - 1
		fr := (*p)[n]
		*p = (*p)[:n]
		*fr = Frame{fn: fn, regs: fr.regs, free: free, dst: dst, blk: fn.blocks[0]}
		return fr
	}
	return &Frame{fn: fn, regs: make([]Val, fn.nregs), free: free, dst: dst, blk: fn.blocks[0]}
}

// recycle returns a finished activation that no choice point refers to.
func (st *State) recycle(fr *Frame) {
	if fr.frozen {
		return
	}
	p := st.pool[fr.fn]
	if p == nil {
		p = new([]*Frame)
		st.pool[fr.fn] = p
	}
	if len(*p) < 64 {
		*p = append(*p, fr)
	}
}

func (st *State) complete(v Val, dst int32) {
	if len(st.stack) == 0 {
		return
	}
	c := st.top()
	if c.unwinding || c.running {
		return // deferred intrinsic
	}
	if dst >= 0 {
		c.regs[dst] = v
	}
	c.pc++
}

func (st *State) loop() {
	for len(st.stack) > 0 {
		fr := st.top()
		in := &fr.blk.ins[fr.pc]
		st.m.steps++
		if st.m.steps > st.maxSteps {
			panic(pathEnd{"steps", "step limit" + st.where()})
		}
		if st.m.steps&0xffff == 0 && st.w != nil {
			if ex := st.w.ex; ex.stopped.Load() || time.Now().After(ex.deadline) {
				panic(pathEnd{"stop", ""})
			}
		}
		st.instrLog = len(st.cellLog)
		st.instrMapLog = len(st.mapLog)
		switch in.op {
		case iAlloc:
			c := new(Val)
			*c = zero(in.t)
			fr.regs[in.dst] = Val{P: c}
		case iBin:
			a, b := st.get(fr, in.a), st.get(fr, in.b)
			if in.t.kind == KInt && a.P == nil && b.P == nil {
				fr.regs[in.dst] = st.intBin(in.tok, in.t, a.N, b.N, in.t2)
			} else {
				fr.regs[in.dst] = st.binop(in.tok, in.t, a, b, in.t2)
			}
		case iUn:
			fr.regs[in.dst] = st.unop(in.tok, in.t, st.get(fr, in.a))
		case iLoad:
			p := st.get(fr, in.a)
			switch q := p.P.(type) {
			case *Val:
				v := *q
				if _, ok := v.P.(*Agg); ok {
					v = copyVal(v)
				}
				fr.regs[in.dst] = v
			case *SymPtr:
				fr.regs[in.dst] = st.loadSym(q, in.t)
			case nil:
				st.throw("invalid memory address or nil pointer dereference")
			default:
				st.unsupported("load through %T", p.P)
			}
		case iStore:
			p := st.get(fr, in.a)
			switch q := p.P.(type) {
			case *Val:
				st.store(q, st.get(fr, in.b))
			case *SymPtr:
				i := st.concretize(q.idx)
				st.store(&q.s[i], st.get(fr, in.b))
			case nil:
				st.throw("invalid memory address or nil pointer dereference")
			default:
				st.unsupported("store through %T", p.P)
			}
		case iMove:
			fr.regs[in.dst] = st.get(fr, in.a)
		case iConvert:
			fr.regs[in.dst] = st.convert(in.t, in.t2, st.get(fr, in.a))
		case iExtract:
			fr.regs[in.dst] = st.get(fr, in.a).P.(*Agg).F[in.n]
		case iField:
			fr.regs[in.dst] = st.get(fr, in.a).P.(*Agg).F[in.n]
		case iFieldAddr:
			p := st.get(fr, in.a)
			switch q := p.P.(type) {
			case *Val:
				fr.regs[in.dst] = Val{P: &q.P.(*Agg).F[in.n]}
			case *SymPtr:
				i := st.concretize(q.idx)
				fr.regs[in.dst] = Val{P: &q.s[i].P.(*Agg).F[in.n]}
			case nil:
				st.throw("invalid memory address or nil pointer dereference")
			default:
				st.unsupported("field of %T", p.P)
			}
		case iIndex:
			fr.regs[in.dst] = st.index(in, st.get(fr, in.a), st.get(fr, in.b))
		case iIndexAddr:
			fr.regs[in.dst] = st.indexAddr(in, st.get(fr, in.a), st.get(fr, in.b))
		case iLookup:
			m := st.get(fr, in.a)
			k := st.get(fr, in.b)
			if in.t.kind == KString {
				fr.regs[in.dst] = st.index(in, m, k)
			} else {
				fr.regs[in.dst] = st.lookup(in, m, k)
			}
		case iMapUpdate:
			m, _ := st.get(fr, in.a).P.(*MapObj)
			if m == nil {
				st.throw("assignment to entry in nil map")
			}
			st.mapSet(m, st.get(fr, in.b), st.get(fr, in.c))
		case iMakeClosure:
			c := &Closure{fn: in.fn}
			for _, a := range in.args {
				c.free = append(c.free, st.get(fr, a))
			}
			fr.regs[in.dst] = Val{P: c}
		case iMakeInterface:
			fr.regs[in.dst] = Val{P: &Iface{in.t, st.get(fr, in.a)}}
		case iMakeMap:
			fr.regs[in.dst] = Val{P: newMap(in.t)}
		case iArrayPtr:
			s := st.sliceOf(st.get(fr, in.a))
			n := in.t.elem.n
			if len(s) < n {
				st.throw("cannot convert slice to array or pointer to array: too short")
			}
			if s == nil {
				fr.regs[in.dst] = Val{}
			} else {
				fr.regs[in.dst] = Val{P: &Val{P: &Agg{F: s[:n:n]}}}
			}
		case iMakeSlice:
			n := st.concInt(st.get(fr, in.a), tInt)
			c := st.concInt(st.get(fr, in.b), tInt)
			if n < 0 || n > c {
				st.throw("makeslice: len out of range")
			}
			if c > 1<<22 {
				st.unsupported("make of %d elements", c)
			}
			fr.regs[in.dst] = Val{P: &Slice{makeCells(in.t.elem, n, c)}}
		case iRange:
			fr.regs[in.dst] = st.rangeIter(in.t, st.get(fr, in.a))
		case iNext:
			fr.regs[in.dst] = st.next(st.get(fr, in.a))
		case iSlice:
			fr.regs[in.dst] = st.slice(fr, in)
		case iTypeAssert:
			fr.regs[in.dst] = st.typeAssert(in, st.get(fr, in.a))
		case iIf:
			v := st.get(fr, in.a)
			if e := sym(v); e != nil {
				if in.mrg != nil {
					st.mergeIf(fr, in, e)
				} else if st.decide(e) {
					st.jump(fr, fr.blk.succs[0])
				} else {
					st.jump(fr, fr.blk.succs[1])
				}
			} else if v.N != 0 {
				st.jump(fr, fr.blk.succs[0])
			} else {
				st.jump(fr, fr.blk.succs[1])
			}
			continue
		case iJump:
			st.jump(fr, fr.blk.succs[0])
			continue
		case iReturn:
			var v Val
			switch len(in.args) {
			case 0:
			case 1:
				v = st.get(fr, in.args[0])
			default:
				a := &Agg{F: make([]Val, len(in.args))}
				for i, o := range in.args {
					a.F[i] = st.get(fr, o)
				}
				v = Val{P: a}
			}
			st.doReturn(fr, v)
			continue
		case iRunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[: n-1 : n-1]
				fr.running = true
				st.callDeferred(d, false)
				continue
			}
			fr.running = false
		case iPanic:
			v := st.get(fr, in.a)
			if v.P == nil {
				st.throw("panic called with nil argument")
			}
			panic(goPanic{v})
		case iCall:
			st.doCall(fr, in)
			continue
		case iDefer:
			d := deferred{bi: in.bi}
			if in.bi == "" {
				d.fn, d.free, d.args = st.callee(fr, in)
			} else {
				for _, a := range in.args {
					d.args = append(d.args, st.get(fr, a))
				}
			}
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		default:
			st.unsupported("%s", in.bi)
		}
		fr.pc++
	}
}

var tInt, tString, tAny *TInfo

func makeCells(elem *TInfo, n, c int) []Val {
	s := make([]Val, c)
	if elem.kind == KStruct || elem.kind == KArray {
		for i := range s {
			s[i] = zero(elem)
		}
	}
	return s[:n]
}

func (st *State) callee(fr *Frame, in *instr) (*Fn, []Val, []Val) {
	var args []Val
	if in.meth != nil {
		f, _ := st.get(fr, in.a).P.(*Iface)
		if f == nil {
			st.throw("invalid memory address or nil pointer dereference")
		}
		fn := st.method(f.T, in.meth)
		args = make([]Val, 0, len(in.args)+1)
		args = append(args, f.V)
		for _, a := range in.args {
			args = append(args, st.get(fr, a))
		}
		return fn, nil, args
	}
	args = make([]Val, len(in.args))
	for i, a := range in.args {
		args[i] = st.get(fr, a)
	}
	if in.fn != nil {
		return in.fn, nil, args
	}
	c, _ := st.get(fr, in.a).P.(*Closure)
	if c == nil {
		st.throw("invalid memory address or nil pointer dereference")
	}
	if c.bi != "" {
		st.unsupported("call of builtin value %s", c.bi)
	}
	return c.fn, c.free, args
}

func (st *State) method(t *TInfo, m *types.Func) *Fn {
	k := methKey{t, m}
	if f, ok := st.methC[k]; ok {
		return f
	}
	f := st.P.lookupMethod(t.T, m)
	if f == nil {
		st.unsupported("method %s of %s", m.Name(), t)
	}
	x := st.P.fn(f)
	st.methC[k] = x
	return x
}

func (st *State) doCall(fr *Frame, in *instr) {
	if in.bi != "" {
		args := make([]Val, len(in.args))
		for i, a := range in.args {
			args[i] = st.get(fr, a)
		}
		v := st.builtin(in.bi, args, in.t2, in.t)
		c := st.top()
		if in.dst >= 0 {
			c.regs[in.dst] = v
		}
		c.pc++
		return
	}
	// The common case: a plain function, entered without building an argument list.
	var fn *Fn
	var free []Val
	var recv Val
	off := 0
	switch {
	case in.meth != nil:
		if f, _ := st.get(fr, in.a).P.(*Iface); f != nil {
			fn, recv, off = st.method(f.T, in.meth), f.V, 1
		}
	case in.fn != nil:
		fn = in.fn
	default:
		if c, _ := st.get(fr, in.a).P.(*Closure); c != nil && c.bi == "" {
			fn, free = c.fn, c.free
		}
	}
	if fn != nil {
		st.P.prepare(fn)
		if fn.intr == nil && fn.repl == nil && !fn.isPure && fn.hasBody && len(st.stack) <= 20000 {
			nf := st.newFrame(fn, free, in.dst)
			if off == 1 {
				nf.regs[0] = recv
			}
			for i, a := range in.args {
				nf.regs[i+off] = st.get(fr, a)
			}
			fn.coverB[0] = 1
			st.stack = append(st.stack, nf)
			return
		}
	}
	fn, free, args := st.callee(fr, in)
	st.call(fn, args, free, in.dst)
}

func (st *State) implements(t *TInfo, it *TInfo) bool {
	k := [2]*TInfo{t, it}
	if v, ok := st.implC[k]; ok {
		return v
	}
	v := types.Implements(t.T, it.T.Underlying().(*types.Interface))
	st.implC[k] = v
	return v
}

func (st *State) typeAssert(in *instr, v Val) Val {
	f, _ := v.P.(*Iface)
	ok := false
	var res Val
	if f != nil {
		if in.t.kind == KIface {
			if st.implements(f.T, in.t) {
				ok, res = true, v
			}
		} else if f.T == in.t {
			ok, res = true, f.V
		}
	}
	if in.ok {
		if !ok {
			res = zero(in.t)
		}
		return Val{P: &Agg{F: []Val{res, mkBool(ok)}}}
	}
	if !ok {
		st.throw("interface conversion: not " + in.t.String())
	}
	return res
}

func (st *State) index(in *instr, x, i Val) Val {
	switch in.t.kind {
	case KString:
		n := strLen(x)
		if e := sym(i); e != nil {
			st.boundsSym(e, in.t2, n)
			return st.selectVals(strBytes(x), e, 8, false)
		}
		k := int(sext(i.N, in.t2.w))
		if !in.t2.signed {
			k = int(i.N)
		}
		if k < 0 || k >= n {
			st.throw(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return strAt(x, k)
	case KArray:
		a := x.P.(*Agg)
		if e := sym(i); e != nil {
			st.boundsSym(e, in.t2, len(a.F))
			if scalar(in.t.elem) {
				return st.selectVals(a.F, e, in.t.elem.w, in.t.elem.kind == KBool)
			}
			return a.F[st.concretize(e)]
		}
		k := int(sext(i.N, in.t2.w))
		if !in.t2.signed {
			k = int(i.N)
		}
		if k < 0 || k >= len(a.F) {
			st.throw("index out of range")
		}
		return a.F[k]
	}
	st.unsupported("index of %v", in.t)
	return Val{}
}

func (st *State) boundsSym(e *Expr, t *TInfo, n int) {
	c := st.ctx
	var ok *Expr
	if t.signed {
		ok = c.And(c.Cmp(OSle, c.Const(0, e.w), e), c.Cmp(OSlt, e, c.Const(uint64(n), e.w)))
	} else if e.w < 32 && uint64(n) > mask(e.w) {
		return
	} else {
		ok = c.Cmp(OUlt, e, c.Const(uint64(n), e.w))
	}
	if !st.bool(exprVal(ok)) {
		st.throw(fmt.Sprintf("index out of range with length %d", n))
	}
}

// selectVals builds s[e] for scalar elements, e known in range.
func (st *State) selectVals(s []Val, e *Expr, w uint8, isBool bool) Val {
	if len(s) == 0 {
		st.unsupported("select from empty")
	}
	if tab := st.table(s); tab != nil && len(s) <= 256 && !isBool {
		ix := e
		if ix.w > 8 {
			ix = st.ctx.Ext(e, 8, false)
		}
		return exprVal(st.ctx.Table(tab, ix, w))
	}
	if len(s) > 64 {
		return s[st.concretize(e)]
	}
	r := st.expr(s[len(s)-1], w)
	for i := len(s) - 2; i >= 0; i-- {
		r = st.ctx.Ite(st.ctx.Cmp(OEq, e, st.ctx.Const(uint64(i), e.w)), st.expr(s[i], w), r)
	}
	return exprVal(r)
}

// table returns the (cached) contents of a concrete scalar slice.
func (st *State) table(s []Val) []uint64 {
	for i := range s {
		if s[i].P != nil {
			return nil
		}
	}
	if t, ok := st.tabCache[&s[0]]; ok && len(t) == len(s) {
		same := true
		for i := range s {
			if t[i] != s[i].N {
				same = false
				break
			}
		}
		if same {
			return t
		}
	}
	t := make([]uint64, len(s))
	for i := range s {
		t[i] = s[i].N
	}
	st.tabCache[&s[0]] = t
	return t
}

func (st *State) loadSym(p *SymPtr, t *TInfo) Val {
	if scalar(t) {
		return st.selectVals(p.s, p.idx, t.w, t.kind == KBool)
	}
	i := st.concretize(p.idx)
	return copyVal(p.s[i])
}

func (st *State) indexAddr(in *instr, x, i Val) Val {
	var s []Val
	switch q := x.P.(type) {
	case *Slice:
		s = q.S
	case *Val: // pointer to array
		s = q.P.(*Agg).F
	case nil:
		if in.t.kind == KPtr {
			st.throw("invalid memory address or nil pointer dereference")
		}
	case *SymPtr:
		s = q.s[st.concretize(q.idx)].P.(*Agg).F
	default:
		st.unsupported("indexAddr %T", x.P)
	}
	if e := sym(i); e != nil {
		st.boundsSym(e, in.t2, len(s))
		return Val{P: &SymPtr{s, e}}
	}
	k := int(i.N)
	if in.t2.signed {
		k = int(sext(i.N, in.t2.w))
	}
	if k < 0 || k >= len(s) {
		st.throw(fmt.Sprintf("index out of range [%d] with length %d", k, len(s)))
	}
	return Val{P: &s[k]}
}

func (st *State) slice(fr *Frame, in *instr) Val {
	x := st.get(fr, in.a)
	lo, hi, max := 0, -1, -1
	if in.b.k != oNone {
		lo = st.concInt(st.get(fr, in.b), tInt)
	}
	if in.c.k != oNone {
		hi = st.concInt(st.get(fr, in.c), tInt)
	}
	if in.d.k != oNone {
		max = st.concInt(st.get(fr, in.d), tInt)
	}
	if in.t.kind == KString {
		n := strLen(x)
		if in.c.k == oNone {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			st.throw("slice bounds out of range")
		}
		return strSlice(x, lo, hi)
	}
	var s []Val
	isNil := false
	switch q := x.P.(type) {
	case *Slice:
		s = q.S
	case *Val:
		s = q.P.(*Agg).F
	case nil:
		if in.t.kind == KPtr {
			st.throw("invalid memory address or nil pointer dereference")
		}
		isNil = true
	}
	if in.c.k == oNone {
		hi = len(s)
	}
	if in.d.k == oNone {
		max = cap(s)
	}
	if lo < 0 || hi < lo || max < hi || max > cap(s) {
		st.throw("slice bounds out of range")
	}
	if isNil {
		return Val{}
	}
	return Val{P: &Slice{s[lo:hi:max]}}
}

func (st *State) rangeIter(t *TInfo, x Val) Val {
	if t.kind == KString {
		return Val{P: &strIter{s: x}}
	}
	m, _ := x.P.(*MapObj)
	it := &mapIter{m: m}
	if m != nil {
		for i := range m.entries {
			if !m.entries[i].dead {
				it.order = append(it.order, int32(i))
			}
		}
		n := len(it.order)
		if n > 1 {
			if r := st.m.rot % n; r > 0 {
				o := append([]int32(nil), it.order[r:]...)
				it.order = append(o, it.order[:r]...)
			}
			if st.m.rev {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			}
		}
	}
	return Val{P: it}
}

func (st *State) next(v Val) Val {
	switch it := v.P.(type) {
	case *mapIter:
		pos := int(it.pos.N)
		for pos < len(it.order) {
			e := &it.m.entries[it.order[pos]]
			pos++
			if e.dead {
				continue
			}
			st.logSet(&it.pos, Val{N: uint64(pos)})
			return Val{P: &Agg{F: []Val{mkBool(true), e.k, copyVal(e.v)}}}
		}
		st.logSet(&it.pos, Val{N: uint64(pos)})
		return Val{P: &Agg{F: []Val{mkBool(false), {}, {}}}}
	case *strIter:
		pos := int(it.pos.N)
		if pos >= strLen(it.s) {
			return Val{P: &Agg{F: []Val{mkBool(false), {}, {}}}}
		}
		var r Val
		var sz int
		if s, ok := strConc(it.s); ok {
			ru, n := utf8.DecodeRuneInString(s[pos:])
			r, sz = Val{N: uint64(uint32(ru))}, n
		} else {
			r, sz = st.decodeSym(strBytes(it.s)[pos:])
		}
		st.logSet(&it.pos, Val{N: uint64(pos + sz)})
		return Val{P: &Agg{F: []Val{mkBool(true), mkInt(pos), r}}}
	}
	st.unsupported("next of %T", v.P)
	return Val{}
}

func (st *State) logSet(p *Val, v Val) {
	if st.logging {
		st.cellLog = append(st.cellLog, cellUndo{p, *p})
	}
	*p = v
}

// decodeSym mirrors utf8.DecodeRune on octets that may be symbolic.
func (st *State) decodeSym(b []Val) (Val, int) {
	c := st.ctx
	if len(b) == 0 {
		return Val{N: utf8.RuneError}, 0
	}
	bad := Val{N: utf8.RuneError}
	in := func(v Val, lo, hi uint64) bool {
		e := st.expr(v, 8)
		return st.bool(exprVal(c.And(c.Cmp(OUle, c.Const(lo, 8), e), c.Cmp(OUle, e, c.Const(hi, 8)))))
	}
	b0 := b[0]
	if in(b0, 0, 0x7f) {
		return exprVal(c.Ext(st.expr(b0, 8), 32, false)), 1
	}
	low := func(v Val, m uint64) *Expr {
		return c.Bin(OAnd, c.Ext(st.expr(v, 8), 32, false), c.Const(m, 32))
	}
	shl := func(e *Expr, n uint64) *Expr { return c.Bin(OShl, e, c.Const(n, 32)) }
	if in(b0, 0xC2, 0xDF) {
		if len(b) < 2 || !in(b[1], 0x80, 0xBF) {
			return bad, 1
		}
		return exprVal(c.Bin(OOr, shl(low(b0, 0x1f), 6), low(b[1], 0x3f))), 2
	}
	if in(b0, 0xE0, 0xEF) {
		if len(b) < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(b0, 0xE0, 0xE0) {
			lo = 0xA0
		} else if in(b0, 0xED, 0xED) {
			hi = 0x9F
		}
		if !in(b[1], lo, hi) || len(b) < 3 || !in(b[2], 0x80, 0xBF) {
			return bad, 1
		}
		return exprVal(c.Bin(OOr, c.Bin(OOr, shl(low(b0, 0xf), 12), shl(low(b[1], 0x3f), 6)), low(b[2], 0x3f))), 3
	}
	if in(b0, 0xF0, 0xF4) {
		if len(b) < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(b0, 0xF0, 0xF0) {
			lo = 0x90
		} else if in(b0, 0xF4, 0xF4) {
			hi = 0x8F
		}
		if !in(b[1], lo, hi) || len(b) < 3 || !in(b[2], 0x80, 0xBF) || len(b) < 4 || !in(b[3], 0x80, 0xBF) {
			return bad, 1
		}
		return exprVal(c.Bin(OOr, c.Bin(OOr, shl(low(b0, 7), 18), shl(low(b[1], 0x3f), 12)), c.Bin(OOr, shl(low(b[2], 0x3f), 6), low(b[3], 0x3f)))), 4
	}
	return bad, 1
}

// encodeSym mirrors the UTF-8 encoding of a rune given as a w-bit value.
func (st *State) encodeSym(r Val, w uint8, signed bool) []Val {
	c := st.ctx
	if r.P == nil {
		ru := rune(utf8.RuneError)
		n := sext(r.N, w)
		if !signed {
			n = int64(r.N)
		}
		if n >= 0 && n <= utf8.MaxRune {
			ru = rune(n)
		}
		s := string(ru)
		return strBytes(mkStr(s))
	}
	e := c.Ext(sym(r), 64, signed)
	lt := func(k uint64) bool { return st.bool(exprVal(c.Cmp(OUlt, e, c.Const(k, 64)))) }
	by := func(sh uint64, m, or uint64) Val {
		x := c.Bin(OLShr, e, c.Const(sh, 64))
		x = c.Bin(OOr, c.Bin(OAnd, x, c.Const(m, 64)), c.Const(or, 64))
		return exprVal(c.Ext(x, 8, false))
	}
	if lt(0x80) {
		return []Val{exprVal(c.Ext(e, 8, false))}
	}
	if lt(0x800) {
		return []Val{by(6, 0x1f, 0xC0), by(0, 0x3f, 0x80)}
	}
	if !lt(0x110000) || (!lt(0xD800) && lt(0xE000)) {
		return strBytes(mkStr("\uFFFD"))
	}
	if lt(0x10000) {
		return []Val{by(12, 0xf, 0xE0), by(6, 0x3f, 0x80), by(0, 0x3f, 0x80)}
	}
	return []Val{by(18, 7, 0xF0), by(12, 0x3f, 0x80), by(6, 0x3f, 0x80), by(0, 0x3f, 0x80)}
}

func (st *State) convert(to, from *TInfo, v Val) Val {
	switch {
	case to.kind == KInt && from.kind == KInt:
		if e := sym(v); e != nil {
			return exprVal(st.ctx.Ext(e, to.w, from.signed))
		}
		if from.signed {
			return Val{N: uint64(sext(v.N, from.w)) & mask(to.w)}
		}
		return Val{N: v.N & mask(to.w)}
	case to.kind == KString && from.kind == KInt:
		return bytesStr(st.encodeSym(v, from.w, from.signed))
	case to.kind == KString && from.kind == KSlice:
		var s []Val
		if q, ok := v.P.(*Slice); ok {
			s = q.S
		}
		if from.elem.w == 8 {
			return bytesStr(s)
		}
		var out []Val
		for _, r := range s {
			out = append(out, st.encodeSym(r, 32, true)...)
		}
		return bytesStr(out)
	case to.kind == KSlice && from.kind == KString:
		if to.elem.w == 8 {
			b := strBytes(v)
			if _, ok := v.P.(*SymStr); ok {
				b = append([]Val(nil), b...)
			}
			if b == nil {
				b = []Val{}
			}
			return Val{P: &Slice{b}}
		}
		out := []Val{}
		b := strBytes(v)
		for len(b) > 0 {
			r, n := st.decodeSym(b)
			out = append(out, r)
			b = b[n:]
		}
		return Val{P: &Slice{out}}
	case to.kind == KString && from.kind == KString:
		return v
	case to.kind == KFloat && from.kind == KInt:
		n := st.conc(v)
		var f float64
		if from.signed {
			f = float64(sext(n, from.w))
		} else {
			f = float64(n)
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return Val{N: math.Float64bits(f)}
	case to.kind == KInt && from.kind == KFloat:
		f := math.Float64frombits(v.N)
		if to.signed {
			return Val{N: uint64(int64(f)) & mask(to.w)}
		}
		return Val{N: uint64(f) & mask(to.w)}
	case to.kind == KFloat && from.kind == KFloat:
		if to.w == 32 {
			return Val{N: math.Float64bits(float64(float32(math.Float64frombits(v.N))))}
		}
		return v
	case to.kind == from.kind:
		return v
	case to.kind == KPtr || from.kind == KPtr:
		return v
	}
	st.unsupported("convert %v to %v", from, to)
	return Val{}
}

func (st *State) unop(tok token.Token, t *TInfo, a Val) Val {
	switch tok {
	case token.NOT:
		if e := sym(a); e != nil {
			return exprVal(st.ctx.Not(e))
		}
		return mkBool(a.N == 0)
	case token.SUB:
		if t.kind == KFloat {
			return Val{N: math.Float64bits(-math.Float64frombits(a.N))}
		}
		if e := sym(a); e != nil {
			return exprVal(st.ctx.Bin(OSub, st.ctx.Const(0, t.w), e))
		}
		return Val{N: -a.N & mask(t.w)}
	case token.XOR:
		if e := sym(a); e != nil {
			return exprVal(st.ctx.Bin(OXor, e, st.ctx.Const(mask(t.w), t.w)))
		}
		return Val{N: ^a.N & mask(t.w)}
	}
	st.unsupported("unary %v", tok)
	return Val{}
}

func (st *State) intBin(tok token.Token, t *TInfo, x, y uint64, t2 *TInfo) Val {
	m := mask(t.w)
	switch tok {
	case token.ADD:
		return Val{N: (x + y) & m}
	case token.SUB:
		return Val{N: (x - y) & m}
	case token.MUL:
		return Val{N: (x * y) & m}
	case token.QUO, token.REM:
		if y == 0 {
			st.throw("integer divide by zero")
		}
		op := OUDiv
		switch {
		case tok == token.QUO && t.signed:
			op = OSDiv
		case tok == token.REM && t.signed:
			op = OSRem
		case tok == token.REM:
			op = OURem
		}
		return Val{N: evalOp(op, t.w, t.w, x, y)}
	case token.AND:
		return Val{N: x & y}
	case token.OR:
		return Val{N: x | y}
	case token.XOR:
		return Val{N: x ^ y}
	case token.AND_NOT:
		return Val{N: x &^ y}
	case token.SHL, token.SHR:
		if t2.signed && sext(y, t2.w) < 0 {
			st.throw("negative shift amount")
		}
		op := OShl
		if tok == token.SHR {
			op = OLShr
			if t.signed {
				op = OAShr
			}
		}
		return Val{N: evalOp(op, t.w, t.w, x, y)}
	case token.EQL:
		return mkBool(x == y)
	case token.NEQ:
		return mkBool(x != y)
	}
	if t.signed {
		a, b := sext(x, t.w), sext(y, t.w)
		switch tok {
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	}
	switch tok {
	case token.LSS:
		return mkBool(x < y)
	case token.LEQ:
		return mkBool(x <= y)
	case token.GTR:
		return mkBool(x > y)
	case token.GEQ:
		return mkBool(x >= y)
	}
	st.unsupported("int op %v", tok)
	return Val{}
}

func (st *State) binop(tok token.Token, t *TInfo, a, b Val, t2 *TInfo) Val {
	c := st.ctx
	switch tok {
	case token.EQL:
		return exprVal(st.eq(t, a, b))
	case token.NEQ:
		return exprVal(c.Not(st.eq(t, a, b)))
	}
	switch t.kind {
	case KInt:
		x := st.expr(a, t.w)
		switch tok {
		case token.SHL, token.SHR:
			if t2.signed {
				if e := sym(b); e != nil {
					if st.decide(c.Cmp(OSlt, e, c.Const(0, e.w))) {
						st.throw("negative shift amount")
					}
				} else if sext(b.N, t2.w) < 0 {
					st.throw("negative shift amount")
				}
			}
			y := st.expr(b, t2.w)
			// bring the amount to the operand width, saturating
			if y.w > t.w {
				big := c.Cmp(OUle, c.Const(uint64(t.w), y.w), y)
				y = c.Ite(big, c.Const(uint64(t.w), t.w), c.Ext(y, t.w, false))
			} else {
				y = c.Ext(y, t.w, false)
			}
			op := OShl
			if tok == token.SHR {
				op = OLShr
				if t.signed {
					op = OAShr
				}
			}
			return exprVal(c.Bin(op, x, y))
		}
		y := st.expr(b, t.w)
		switch tok {
		case token.ADD:
			return exprVal(c.Bin(OAdd, x, y))
		case token.SUB:
			return exprVal(c.Bin(OSub, x, y))
		case token.MUL:
			return exprVal(c.Bin(OMul, x, y))
		case token.QUO, token.REM:
			if y.op == OConst {
				if y.k == 0 {
					st.throw("integer divide by zero")
				}
			} else if st.decide(c.Cmp(OEq, y, c.Const(0, y.w))) {
				st.throw("integer divide by zero")
			}
			op := OUDiv
			switch {
			case tok == token.QUO && t.signed:
				op = OSDiv
			case tok == token.REM && t.signed:
				op = OSRem
			case tok == token.REM:
				op = OURem
			}
			return exprVal(c.Bin(op, x, y))
		case token.AND:
			return exprVal(c.Bin(OAnd, x, y))
		case token.OR:
			return exprVal(c.Bin(OOr, x, y))
		case token.XOR:
			return exprVal(c.Bin(OXor, x, y))
		case token.AND_NOT:
			return exprVal(c.Bin(OAnd, x, c.Bin(OXor, y, c.Const(mask(t.w), t.w))))
		}
		lt, le := OUlt, OUle
		if t.signed {
			lt, le = OSlt, OSle
		}
		switch tok {
		case token.LSS:
			return exprVal(c.Cmp(lt, x, y))
		case token.LEQ:
			return exprVal(c.Cmp(le, x, y))
		case token.GTR:
			return exprVal(c.Cmp(lt, y, x))
		case token.GEQ:
			return exprVal(c.Cmp(le, y, x))
		}
	case KBool:
		x, y := st.expr(a, 0), st.expr(b, 0)
		switch tok {
		case token.AND, token.LAND:
			return exprVal(c.And(x, y))
		case token.OR, token.LOR:
			return exprVal(c.Or(x, y))
		}
	case KFloat:
		x, y := math.Float64frombits(a.N), math.Float64frombits(b.N)
		var r float64
		switch tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return mkBool(x < y)
		case token.LEQ:
			return mkBool(x <= y)
		case token.GTR:
			return mkBool(x > y)
		case token.GEQ:
			return mkBool(x >= y)
		}
		if t.w == 32 {
			r = float64(float32(r))
		}
		return Val{N: math.Float64bits(r)}
	case KString:
		switch tok {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return exprVal(st.strLess(a, b))
		case token.GTR:
			return exprVal(st.strLess(b, a))
		case token.LEQ:
			return exprVal(c.Not(st.strLess(b, a)))
		case token.GEQ:
			return exprVal(c.Not(st.strLess(a, b)))
		}
	}
	st.unsupported("binary %v on %v", tok, t)
	return Val{}
}

func (st *State) strLess(a, b Val) *Expr {
	c := st.ctx
	x, ok1 := strConc(a)
	y, ok2 := strConc(b)
	if ok1 && ok2 {
		return c.Bool(x < y)
	}
	xs, ys := strBytes(a), strBytes(b)
	n := min(len(xs), len(ys))
	r := c.Bool(len(xs) < len(ys))
	for i := n - 1; i >= 0; i-- {
		p, q := st.expr(xs[i], 8), st.expr(ys[i], 8)
		r = c.Ite(c.Cmp(OEq, p, q), r, c.Cmp(OUlt, p, q))
	}
	return r
}

func (st *State) strEq(a, b Val) *Expr {
	c := st.ctx
	if strLen(a) != strLen(b) {
		return c.False
	}
	x, ok1 := strConc(a)
	y, ok2 := strConc(b)
	if ok1 && ok2 {
		return c.Bool(x == y)
	}
	xs, ys := strBytes(a), strBytes(b)
	r := c.True
	for i := range xs {
		if xs[i].P == nil && ys[i].P == nil {
			if xs[i].N != ys[i].N {
				return c.False
			}
			continue
		}
		r = c.And(r, c.Cmp(OEq, st.expr(xs[i], 8), st.expr(ys[i], 8)))
		if r == c.False {
			return r
		}
	}
	return r
}

// eq is Go equality at type t, as a boolean term.
func (st *State) eq(t *TInfo, a, b Val) *Expr {
	c := st.ctx
	switch t.kind {
	case KBool:
		return c.Cmp(OEq, st.expr(a, 0), st.expr(b, 0))
	case KInt:
		if a.P == nil && b.P == nil {
			return c.Bool(a.N == b.N)
		}
		return c.Cmp(OEq, st.expr(a, t.w), st.expr(b, t.w))
	case KFloat:
		return c.Bool(math.Float64frombits(a.N) == math.Float64frombits(b.N))
	case KString:
		return st.strEq(a, b)
	case KPtr, KChan:
		if p, ok := a.P.(*SymPtr); ok {
			a = Val{P: &p.s[st.concretize(p.idx)]}
		}
		if p, ok := b.P.(*SymPtr); ok {
			b = Val{P: &p.s[st.concretize(p.idx)]}
		}
		return c.Bool(ptrOf(a) == ptrOf(b))
	case KSlice, KMap, KFunc:
		return c.Bool((a.P == nil) == (b.P == nil) && (a.P == nil || a.P == b.P))
	case KStruct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := c.True
		for i, f := range t.fields {
			r = c.And(r, st.eq(f, x.F[i], y.F[i]))
			if r == c.False {
				return r
			}
		}
		return r
	case KArray:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := c.True
		for i := range x.F {
			r = c.And(r, st.eq(t.elem, x.F[i], y.F[i]))
		}
		return r
	case KIface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if x.T != y.T {
			return c.False
		}
		switch x.T.kind {
		case KSlice, KMap, KFunc:
			st.throw("comparing uncomparable type " + x.T.String())
		}
		return st.eq(x.T, x.V, y.V)
	}
	st.unsupported("equality on %v", t)
	return nil
}

// ---- maps ----

// find returns the entry index of k or -1, case-splitting on symbolic keys.
func (st *State) mapFind(m *MapObj, k Val) int {
	i, ok, conc := m.findConc(k)
	if conc && m.nsym == 0 {
		if ok {
			return i
		}
		return -1
	}
	if conc && ok {
		return i
	}
	for j := range m.entries {
		e := &m.entries[j]
		if e.dead || (conc && !e.sym) {
			continue
		}
		q := st.eq(m.t.key, e.k, k)
		if q == st.ctx.False {
			continue
		}
		if q == st.ctx.True || st.decide(q) {
			return j
		}
	}
	return -1
}

func (st *State) lookup(in *instr, mv, k Val) Val {
	m, _ := mv.P.(*MapObj)
	i := -1
	if m != nil {
		i = st.mapFind(m, k)
	}
	var v Val
	if i >= 0 {
		v = copyVal(m.entries[i].v)
	} else {
		v = zero(in.t.elem)
	}
	if in.ok {
		return Val{P: &Agg{F: []Val{v, mkBool(i >= 0)}}}
	}
	return v
}

func (st *State) frzMap(m *MapObj) {
	if st.m.frz != nil && st.m.frz.maps[m] {
		st.m.frzHits++
		if st.m.frzWhere == "" {
			st.m.frzWhere = st.where()
		}
	}
}

func (st *State) mapSet(m *MapObj, k, v Val) {
	i := st.mapFind(m, k)
	st.frzMap(m)
	if i >= 0 {
		if st.logging {
			st.mapLog = append(st.mapLog, mapUndo{m, 2, i, m.entries[i].v})
		}
		m.entries[i].v = v
		return
	}
	_, _, conc := m.findConc(k)
	m.entries = append(m.entries, mapEntry{k: k, v: v, sym: !conc})
	if conc {
		m.setIdx(k, len(m.entries)-1)
	} else {
		m.nsym++
	}
	m.live++
	if st.logging {
		st.mapLog = append(st.mapLog, mapUndo{m, 0, len(m.entries) - 1, Val{}})
	}
}

func (st *State) mapDelete(m *MapObj, k Val) {
	if m == nil {
		return
	}
	i := st.mapFind(m, k)
	if i < 0 {
		return
	}
	st.frzMap(m)
	e := &m.entries[i]
	e.dead = true
	m.live--
	if e.sym {
		m.nsym--
	} else {
		m.delIdx(e.k)
	}
	if st.logging {
		st.mapLog = append(st.mapLog, mapUndo{m, 1, i, Val{}})
	}
}

func (st *State) rollback(nCell, nMap int) {
	for i := len(st.cellLog) - 1; i >= nCell; i-- {
		u := &st.cellLog[i]
		*u.p = u.old
		u.p, u.old = nil, Val{}
	}
	st.cellLog = st.cellLog[:nCell]
	for i := len(st.mapLog) - 1; i >= nMap; i-- {
		u := st.mapLog[i]
		m := u.m
		switch u.kind {
		case 0:
			e := &m.entries[u.i]
			if e.sym {
				m.nsym--
			} else {
				m.delIdx(e.k)
			}
			m.live--
			m.entries = m.entries[:u.i]
		case 1:
			e := &m.entries[u.i]
			e.dead = false
			m.live++
			if e.sym {
				m.nsym++
			} else {
				m.setIdx(e.k, u.i)
			}
		case 2:
			m.entries[u.i].v = u.old
		}
		st.mapLog[i] = mapUndo{}
	}
	st.mapLog = st.mapLog[:nMap]
}

// ---- builtins ----

func (st *State) sliceOf(v Val) []Val {
	switch q := v.P.(type) {
	case nil:
		return nil
	case *Slice:
		return q.S
	}
	st.unsupported("slice value %T", v.P)
	return nil
}

func (st *State) appendVals(s []Val, add []Val, elem *TInfo) Val {
	if len(add) == 0 && s == nil {
		return Val{}
	}
	n := len(s)
	if n+len(add) <= cap(s) {
		r := s[:n+len(add)]
		for i, v := range add {
			st.store(&r[n+i], v)
		}
		return Val{P: &Slice{r}}
	}
	c := 2 * cap(s)
	if c < n+len(add) {
		c = n + len(add)
	}
	if c < 4 {
		c = 4
	}
	r := make([]Val, n+len(add), c)
	agg := elem != nil && (elem.kind == KStruct || elem.kind == KArray)
	if agg {
		for i, v := range s {
			r[i] = copyVal(v)
		}
		for i, v := range add {
			r[n+i] = copyVal(v)
		}
		full := r[:c]
		for i := len(r); i < c; i++ {
			full[i] = zero(elem)
		}
	} else {
		copy(r, s)
		copy(r[n:], add)
	}
	return Val{P: &Slice{r}}
}

func (st *State) builtin(name string, args []Val, t, rt *TInfo) Val {
	switch name {
	case "len":
		switch t.kind {
		case KString:
			return mkInt(strLen(args[0]))
		case KSlice:
			return mkInt(len(st.sliceOf(args[0])))
		case KMap:
			m, _ := args[0].P.(*MapObj)
			if m == nil {
				return mkInt(0)
			}
			return mkInt(m.live)
		case KArray:
			return mkInt(t.n)
		case KPtr:
			return mkInt(t.elem.n)
		}
	case "cap":
		switch t.kind {
		case KSlice:
			return mkInt(cap(st.sliceOf(args[0])))
		case KArray:
			return mkInt(t.n)
		}
	case "append":
		s := st.sliceOf(args[0])
		if len(args) == 1 {
			return args[0]
		}
		var add []Val
		switch q := args[1].P.(type) {
		case nil:
		case *Slice:
			add = q.S
		case string, *SymStr:
			add = strBytes(args[1])
		}
		if len(add) == 0 {
			return args[0]
		}
		// the source may alias the destination
		if n := len(s); n+len(add) <= cap(s) {
			add = append([]Val(nil), add...)
		}
		return st.appendVals(s, add, t.elem)
	case "copy":
		d := st.sliceOf(args[0])
		var s []Val
		switch q := args[1].P.(type) {
		case nil:
		case *Slice:
			s = q.S
		default:
			s = strBytes(args[1])
		}
		n := min(len(d), len(s))
		tmp := make([]Val, n)
		for i := range tmp {
			tmp[i] = copyVal(s[i])
		}
		for i := range tmp {
			st.store(&d[i], tmp[i])
		}
		return mkInt(n)
	case "delete":
		m, _ := args[0].P.(*MapObj)
		st.mapDelete(m, args[1])
		return Val{}
	case "clear":
		if t.kind == KMap {
			m, _ := args[0].P.(*MapObj)
			if m != nil {
				for i := range m.entries {
					if !m.entries[i].dead {
						st.mapDelete(m, m.entries[i].k)
					}
				}
			}
			return Val{}
		}
		if t.kind == KSlice {
			for i := range st.sliceOf(args[0]) {
				st.store(&st.sliceOf(args[0])[i], zero(t.elem))
			}
			return Val{}
		}
	case "min", "max":
		if t.kind == KInt {
			r := args[0]
			for _, x := range args[1:] {
				if r.P == nil && x.P == nil {
					less := r.N < x.N
					if t.signed {
						less = sext(r.N, t.w) < sext(x.N, t.w)
					}
					if less != (name == "min") {
						r = x
					}
					continue
				}
				op := OUlt
				if t.signed {
					op = OSlt
				}
				a, b := st.expr(r, t.w), st.expr(x, t.w)
				lt := st.ctx.Cmp(op, a, b)
				if name == "max" {
					a, b = b, a
				}
				r = exprVal(st.ctx.Ite(lt, a, b))
			}
			return r
		}
		if t.kind == KFloat {
			r := math.Float64frombits(args[0].N)
			for _, x := range args[1:] {
				if name == "min" {
					r = min(r, math.Float64frombits(x.N))
				} else {
					r = max(r, math.Float64frombits(x.N))
				}
			}
			return Val{N: math.Float64bits(r)}
		}
	case "recover":
		fr := st.stack[len(st.stack)-1]
		if fr.byPanic && len(st.stack) >= 2 {
			p := st.mutFrame(len(st.stack) - 2)
			if p.unwinding && !p.recovered {
				p.recovered = true
				return p.panicVal
			}
		}
		return Val{}
	case "print", "println":
		return Val{}
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			st.throw("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s := st.sliceOf(args[0])
		if cap(s) == 0 {
			return Val{}
		}
		return Val{P: &SymPtr{s: s, idx: nil}}
	case "StringData":
		return Val{P: &SymPtr{s: strBytes(args[0])}}
	case "String":
		n := st.concInt(args[1], tInt)
		if n == 0 {
			return Val{}
		}
		if p, ok := args[0].P.(*SymPtr); ok && p.idx == nil {
			return bytesStr(p.s[:n])
		}
	case "Slice":
		n := st.concInt(args[1], tInt)
		if p, ok := args[0].P.(*SymPtr); ok && p.idx == nil {
			return Val{P: &Slice{p.s[:n]}}
		}
	}
	st.unsupported("builtin %s on %v", name, t)
	return Val{}
}

// ---- if-conversion ----

// evalPure evaluates an acyclic scalar function as one term.
func (st *State) evalPure(fn *Fn, args []Val) Val {
	st.P.prepare(fn)
	c := st.ctx
	regs := make([]Val, fn.nregs)
	copy(regs, args)
	fr := &Frame{fn: fn, regs: regs}
	guards := make([]*Expr, len(fn.blocks))
	guards[0] = c.True
	type inEdge struct {
		pred int
		g    *Expr
	}
	ins := make([][]inEdge, len(fn.blocks))
	var res *Expr
	w := fn.resT.w
	type ret struct {
		g *Expr
		v *Expr
	}
	var rets []ret
	for _, bi := range fn.order {
		b := fn.blocks[bi]
		if bi != 0 {
			g := c.False
			for _, e := range ins[bi] {
				g = c.Or(g, e.g)
			}
			guards[bi] = g
			if g == c.False {
				continue
			}
			vals := make([]Val, len(b.phis))
			for pi := range b.phis {
				p := &b.phis[pi]
				var r *Expr
				for _, e := range ins[bi] {
					v := st.expr(st.get(fr, p.in[e.pred]), p.t.w)
					if r == nil {
						r = v
					} else {
						r = c.Ite(e.g, v, r)
					}
				}
				vals[pi] = exprVal(r)
			}
			for pi := range b.phis {
				regs[b.phis[pi].dst] = vals[pi]
			}
		}
		fn.coverB[bi] = 1
		g := guards[bi]
		for ii := range b.ins {
			in := &b.ins[ii]
			st.m.steps++
			switch in.op {
			case iReturn:
				rets = append(rets, ret{g, st.expr(st.get(fr, in.args[0]), w)})
			case iJump:
				e := b.succs[0]
				ins[e.to] = append(ins[e.to], inEdge{e.pred, g})
			case iIf:
				cond := st.expr(st.get(fr, in.a), 0)
				t, f := c.And(g, cond), c.And(g, c.Not(cond))
				if t != c.False {
					e := b.succs[0]
					ins[e.to] = append(ins[e.to], inEdge{e.pred, t})
				}
				if f != c.False {
					e := b.succs[1]
					ins[e.to] = append(ins[e.to], inEdge{e.pred, f})
				}
			default:
				regs[in.dst] = st.pureInstr(fr, in)
			}
		}
	}
	for _, r := range rets {
		if res == nil {
			res = r.v
		} else {
			res = c.Ite(r.g, r.v, res)
		}
	}
	return exprVal(res)
}

func (st *State) pureInstr(fr *Frame, in *instr) Val {
	switch in.op {
	case iBin:
		a, b := st.get(fr, in.a), st.get(fr, in.b)
		if in.t.kind == KInt && a.P == nil && b.P == nil {
			return st.intBin(in.tok, in.t, a.N, b.N, in.t2)
		}
		return st.binop(in.tok, in.t, a, b, in.t2)
	case iUn:
		return st.unop(in.tok, in.t, st.get(fr, in.a))
	case iMove:
		return st.get(fr, in.a)
	case iConvert:
		return st.convert(in.t, in.t2, st.get(fr, in.a))
	case iCall:
		args := make([]Val, len(in.args))
		for i, a := range in.args {
			args[i] = st.get(fr, a)
		}
		return st.evalPure(in.fn, args)
	}
	panic("pureInstr")
}

func (st *State) mergeIf(fr *Frame, in *instr, cond *Expr) {
	c := st.ctx
	fn := fr.fn
	m := in.mrg
	type ge struct {
		pred int
		g    *Expr
	}
	ins := map[int][]ge{}
	add := func(e edge, g *Expr) {
		if g != c.False {
			ins[e.to] = append(ins[e.to], ge{e.pred, g})
		}
	}
	add(fr.blk.succs[0], cond)
	add(fr.blk.succs[1], c.Not(cond))
	phis := func(b *block, es []ge) {
		vals := make([]Val, len(b.phis))
		for pi := range b.phis {
			p := &b.phis[pi]
			first := st.get(fr, p.in[es[0].pred])
			if len(es) == 1 || !scalar(p.t) {
				vals[pi] = first
				continue
			}
			same := true
			for _, e := range es[1:] {
				if v := st.get(fr, p.in[e.pred]); v != first {
					same = false
				}
			}
			if same {
				vals[pi] = first
				continue
			}
			r := st.expr(first, p.t.w)
			for _, e := range es[1:] {
				r = c.Ite(e.g, st.expr(st.get(fr, p.in[e.pred]), p.t.w), r)
			}
			vals[pi] = exprVal(r)
		}
		for pi := range b.phis {
			fr.regs[b.phis[pi].dst] = vals[pi]
		}
	}
	for _, bi := range m.region {
		b := fn.blocks[bi]
		es := ins[bi]
		if len(es) == 0 {
			continue
		}
		g := c.False
		for _, e := range es {
			g = c.Or(g, e.g)
		}
		phis(b, es)
		fn.coverB[bi] = 1
		for ii := range b.ins {
			x := &b.ins[ii]
			st.m.steps++
			switch x.op {
			case iJump:
				add(b.succs[0], g)
			case iIf:
				cd := st.expr(st.get(fr, x.a), 0)
				add(b.succs[0], c.And(g, cd))
				add(b.succs[1], c.And(g, c.Not(cd)))
			default:
				fr.regs[x.dst] = st.pureInstr(fr, x)
			}
		}
	}
	var live []int
	for _, e := range m.exits {
		if len(ins[e]) > 0 {
			live = append(live, e)
		}
	}
	ex := live[0]
	if len(live) == 2 {
		g := c.False
		for _, e := range ins[ex] {
			g = c.Or(g, e.g)
		}
		if !st.decide(g) {
			ex = live[1]
		}
	}
	b := fn.blocks[ex]
	phis(b, ins[ex])
	fr.blk = b
	fr.pc = 0
	fn.coverB[ex] = 1
}

var _ = ssa.NaiveForm
