package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// workItem is a part of the execution tree: the first `decs` decisions are fixed
// by the model (and the recorded candidates of value splits).
type workItem struct {
	decs  int
	cands []uint64
	model []uint64
}

// Candidate is a potential violation found by the solver.
type Candidate struct {
	Harness string   `json:"harness"`
	What    string   `json:"what"`
	Kind    string   `json:"kind"` // assert, panic, hang
	Vals    []uint64 `json:"vals"`
	Tier    int      `json:"tier"`
	Notes   []string `json:"notes,omitempty"`
}

// Sample is a completed path, used to validate the encoding natively.
type Sample struct {
	Harness string   `json:"harness"`
	Vals    []uint64 `json:"vals"`
	Obs     []string `json:"obs"`
	Tier    int      `json:"tier"`
	Notes   []string `json:"notes,omitempty"`
}

// Explorer runs one harness to exhaustion.
type Explorer struct {
	P        *Program
	harness  string
	entry    *Fn
	tier     int
	deadline time.Time
	maxSteps int64
	solverMs int
	nw       int
	debug    bool

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*workItem
	busy    int
	idle    atomic.Int32
	stopped atomic.Bool
	timeout atomic.Bool

	Paths      atomic.Int64
	Done       atomic.Int64
	Assumed    atomic.Int64
	Branches   atomic.Int64
	Asserts    atomic.Int64
	AssertsSym atomic.Int64
	Steps      atomic.Int64
	Unsup      map[string]int
	StepLim    int
	Unknown    atomic.Int64
	Reached    map[string]int
	Wanted     map[string]Candidate // existential obligations
	Covered    map[string]bool      // those some path satisfies
	Cands      []Candidate
	candSeen   map[string]int
	Samples    []Sample
	sampleN    int64
	MaxVars    int
	Wall       float64
	maxCand    int
}

// Worker is one exploring goroutine.
type Worker struct {
	ex    *Explorer
	st    *State
	debug bool
}

func newState(P *Program, solverMs int) *State {
	ctx := newCtx()
	st := &State{P: P, ctx: ctx, sol: newSolver(ctx, solverMs), certSeen: map[certKey]bool{}, tabCache: map[*Val][]uint64{}, methC: map[methKey]*Fn{}, implC: map[[2]*TInfo]bool{}, pool: map[*Fn]*[]*Frame{}}
	return st
}

// initPackages runs package initialisation concretely.
func (st *State) initPackages(inits []*Fn) error {
	st.maxSteps = 1 << 40
	for _, f := range inits {
		st.stack = nil
		st.call(f, nil, nil, -1)
		if e := st.run(); e.kind != "done" {
			return fmt.Errorf("init of %s: %s %s", f.f, e.kind, e.msg)
		}
	}
	st.m = misc{}
	st.logging = true
	return nil
}

// ---- decisions ----

func (st *State) addVar(w uint8, lo, hi uint64) *Expr {
	e := st.ctx.NewVar(w, lo, hi)
	i := int(e.k)
	if i < len(st.dom) {
		st.dom = st.dom[:i]
		st.uc = st.uc[:i]
		st.ent = st.ent[:i]
	}
	var d [4]uint64
	if w <= 8 {
		for v := lo; v <= hi; v++ {
			d[v>>6] |= 1 << (v & 63)
		}
	}
	st.dom = append(st.dom, d)
	st.uc = append(st.uc, nil)
	st.ent = append(st.ent, 0)
	if i >= len(st.model) {
		st.model = append(st.model, lo)
	} else if st.model[i] < lo || st.model[i] > hi {
		st.model[i] = lo
	}
	return e
}

func (st *State) small(v int32) bool { return st.ctx.vars[v].w <= 8 }

// addConstraint extends the path condition.
func (st *State) addConstraint(c *Expr) {
	if len(c.vars) == 1 && st.small(c.vars[0]) {
		v := c.vars[0]
		st.domLog = append(st.domLog, domUndo{v, st.dom[v], st.uc[v]})
		s := st.ctx.unarySet(c)
		for i := range s {
			st.dom[v][i] &= s[i]
		}
		if st.uc[v] == nil {
			st.uc[v] = c
		} else {
			st.uc[v] = st.ctx.And(st.uc[v], c)
		}
		return
	}
	st.multi = append(st.multi, c)
	for _, v := range c.vars {
		st.ent[v]++
	}
}

// feasible decides whether the path condition allows c; on success it returns a
// model of both.
func (st *State) feasible(c *Expr) (int, []uint64) {
	if c.op == OConst {
		if c.k == 1 {
			return 1, st.model
		}
		return 0, nil
	}
	if len(c.vars) == 1 && st.small(c.vars[0]) && st.ent[c.vars[0]] == 0 {
		v := c.vars[0]
		s := *st.ctx.unarySet(c)
		for i := range s {
			s[i] &= st.dom[v][i]
		}
		stats.Domain.Add(1)
		if setEmpty(s) {
			st.certify(v, c)
			return 0, nil
		}
		m := append([]uint64(nil), st.model...)
		m[v] = setFirst(s)
		return 1, m
	}
	// cone of influence
	in := map[int32]bool{}
	var vs []int32
	push := func(x []int32) {
		for _, v := range x {
			if !in[v] {
				in[v] = true
				vs = append(vs, v)
			}
		}
	}
	push(c.vars)
	used := make([]bool, len(st.multi))
	cs := []*Expr{c}
	for ch := true; ch; {
		ch = false
		for i, m := range st.multi {
			if used[i] {
				continue
			}
			for _, v := range m.vars {
				if in[v] {
					used[i] = true
					cs = append(cs, m)
					push(m.vars)
					ch = true
					break
				}
			}
		}
	}
	for _, v := range vs {
		if st.uc[v] != nil {
			cs = append(cs, st.uc[v])
		}
	}
	r := st.sol.check(cs)
	switch r.res {
	case 1:
		m := append([]uint64(nil), st.model...)
		for v, x := range r.vals {
			m[v] = x
		}
		return 1, m
	case 0:
		return 0, nil
	}
	return -1, nil
}

// certify queues a domain-based infeasibility for confirmation by the solver. The
// certificate is self-contained: it includes the declared range of the variable.
func (st *State) certify(v int32, c *Expr) {
	x := st.ctx
	k := certKey{c.id, -1, v, x.vars[v].lo, x.vars[v].hi}
	e := st.uc[v]
	if e != nil {
		k.e = e.id
	}
	if st.certSeen[k] {
		return
	}
	st.certSeen[k] = true
	if e != nil {
		c = x.And(e, c)
	}
	vi := x.vars[v]
	ve := x.varE[v]
	if vi.lo != 0 {
		c = x.And(c, x.Cmp(OUle, x.Const(vi.lo, vi.w), ve))
	}
	if vi.hi != mask(vi.w) {
		c = x.And(c, x.Cmp(OUle, ve, x.Const(vi.hi, vi.w)))
	}
	st.certPend = append(st.certPend, cert{ve, c})
	if len(st.certPend) >= 256 {
		st.flushCerts()
	}
}

type certKey struct {
	c, e, v int32
	lo, hi  uint64
}

type cert struct {
	v *Expr
	c *Expr
}

func (st *State) flushCerts() {
	if len(st.certPend) == 0 {
		return
	}
	n := len(st.certPend)
	byVar := map[*Expr]*Expr{}
	var order []*Expr
	for _, ct := range st.certPend {
		if _, ok := byVar[ct.v]; !ok {
			byVar[ct.v] = st.ctx.False
			order = append(order, ct.v)
		}
		byVar[ct.v] = st.ctx.Or(byVar[ct.v], ct.c)
	}
	st.certPend = st.certPend[:0]
	for _, v := range order {
		d := byVar[v]
		if d == st.ctx.False {
			continue
		}
		r := st.sol.queryRaw(d, v)
		stats.Certs.Add(1)
		if r.res == 1 {
			panic(pathEnd{"unsupported", "solver contradicts octet domain: " + smt(d)})
		}
		if r.res < 0 {
			st.w.ex.Unknown.Add(1)
		}
	}
	stats.Certified.Add(int64(n))
}

// decide picks a side of a symbolic condition and queues the other one when it
// is feasible as well.
func (st *State) decide(e *Expr) bool {
	if e.op == OConst {
		return e.k == 1
	}
	side := st.ctx.Eval(e, st.model) == 1
	take, other := e, st.ctx.Not(e)
	if !side {
		take, other = other, take
	}
	r, m := st.feasible(other)
	if r == 0 {
		return side
	}
	if r < 0 {
		st.w.ex.Unknown.Add(1)
		return side // the other side is left unexplored; reported as reduced bound
	}
	st.decs++
	st.w.ex.Branches.Add(1)
	if st.prefix != nil && st.decs <= st.prefix.decs {
		st.cands = append(st.cands[:st.decs-1], st.prefix.cands[st.decs-1])
		st.addConstraint(take)
		return side
	}
	st.cands = append(st.cands[:st.decs-1], st.candNext)
	ch := choice{
		nCell: st.instrLog, nMap: st.instrMapLog, nDom: len(st.domLog), nMulti: len(st.multi),
		nVars: len(st.ctx.vars), nDraws: len(st.draws), nObs: len(st.obs), nNotes: len(st.notes),
		decs: st.decs, alt: other, altModel: m, m: st.m,
	}
	ch.m.steps--
	n := len(st.stack)
	ch.stack = make([]*Frame, n)
	copy(ch.stack, st.stack)
	for i := 0; i < n-1; i++ {
		ch.stack[i].frozen = true
	}
	if n > 0 {
		t := *st.stack[n-1]
		t.regs = append([]Val(nil), t.regs...)
		t.frozen = true
		ch.stack[n-1] = &t
	}
	ch.nCands = len(st.cands)
	st.chs = append(st.chs, ch)
	st.addConstraint(take)
	return side
}

// concretize case-splits on the value of e.
func (st *State) concretize(e *Expr) uint64 {
	if e.op == OConst {
		return e.k
	}
	for {
		v := st.ctx.Eval(e, st.model)
		ne := st.ctx.Not(st.ctx.Cmp(OEq, e, st.ctx.Const(v, e.w)))
		r, _ := st.feasible(ne)
		if r == 0 {
			return v
		}
		if r < 0 {
			st.w.ex.Unknown.Add(1)
			return v
		}
		if st.prefix != nil && st.decs < st.prefix.decs {
			v = st.prefix.cands[st.decs]
		}
		st.candNext = v
		eq := st.decide(st.ctx.Cmp(OEq, e, st.ctx.Const(v, e.w)))
		st.candNext = 0
		if eq {
			return v
		}
	}
}

// backtrack restores the most recent choice point on its other side.
func (st *State) backtrack() bool {
	if len(st.chs) == 0 {
		return false
	}
	n := len(st.chs) - 1
	ch := st.chs[n]
	st.chs[n] = choice{}
	st.chs = st.chs[:n]
	st.rollback(ch.nCell, ch.nMap)
	for i := len(st.domLog) - 1; i >= ch.nDom; i-- {
		u := st.domLog[i]
		if int(u.v) < len(st.dom) {
			st.dom[u.v], st.uc[u.v] = u.dom, u.uc
		}
	}
	st.domLog = st.domLog[:ch.nDom]
	for i := len(st.multi) - 1; i >= ch.nMulti; i-- {
		for _, v := range st.multi[i].vars {
			st.ent[v]--
		}
	}
	st.multi = st.multi[:ch.nMulti]
	st.ctx.vars = st.ctx.vars[:ch.nVars]
	st.dom, st.uc, st.ent = st.dom[:ch.nVars], st.uc[:ch.nVars], st.ent[:ch.nVars]
	st.draws = st.draws[:ch.nDraws]
	st.obs = st.obs[:ch.nObs]
	st.notes = st.notes[:ch.nNotes]
	st.decs = ch.decs
	st.cands = st.cands[:ch.nCands]
	st.stack = ch.stack
	if k := len(st.stack); k > 0 {
		st.stack[k-1].frozen = false // the snapshot of the top frame is this choice's own
	}
	st.m = ch.m
	st.model = append(st.model[:0], ch.altModel[:ch.nVars]...)
	st.addConstraint(ch.alt)
	return true
}

// donate hands the shallowest open choice point to another worker.
func (st *State) donate() *workItem {
	if len(st.chs) == 0 {
		return nil
	}
	ch := &st.chs[0]
	it := &workItem{decs: ch.decs, cands: append([]uint64(nil), st.cands[:ch.decs]...), model: append([]uint64(nil), ch.altModel...)}
	copy(st.chs, st.chs[1:])
	st.chs[len(st.chs)-1] = choice{}
	st.chs = st.chs[:len(st.chs)-1]
	return it
}

func (st *State) reset() {
	st.rollback(0, 0)
	st.stack = nil
	st.ctx.vars = st.ctx.vars[:0]
	st.dom, st.uc, st.ent = st.dom[:0], st.uc[:0], st.ent[:0]
	st.domLog, st.multi = st.domLog[:0], st.multi[:0]
	st.draws, st.obs, st.notes, st.model = st.draws[:0], st.obs[:0], st.notes[:0], nil
	st.decs, st.cands = 0, st.cands[:0]
	st.chs = st.chs[:0]
	st.m = misc{}
}

// values of the drawn inputs under a model.
func (st *State) vals(m []uint64) []uint64 {
	out := make([]uint64, len(st.draws))
	for i, d := range st.draws {
		if d.v < 0 {
			out[i] = d.add
		} else {
			out[i] = m[d.v] + d.add
		}
	}
	return out
}

func (st *State) obsText(m []uint64, os []obs) []string {
	var out []string
	for _, o := range os {
		if o.str {
			b := strBytes(o.v)
			buf := make([]byte, len(b))
			for i, x := range b {
				if e := sym(x); e != nil {
					buf[i] = byte(st.ctx.Eval(e, m))
				} else {
					buf[i] = byte(x.N)
				}
			}
			out = append(out, fmt.Sprintf("%s=%x", o.tag, buf))
			continue
		}
		n := o.v.N
		if e := sym(o.v); e != nil {
			n = st.ctx.Eval(e, m)
		}
		out = append(out, fmt.Sprintf("%s=%d", o.tag, int64(n)))
	}
	return out
}

func (st *State) noteText(m []uint64) []string {
	var out []string
	for _, o := range st.notes {
		b := strBytes(o.v)
		buf := make([]byte, len(b))
		for i, x := range b {
			if e := sym(x); e != nil {
				buf[i] = byte(st.ctx.Eval(e, m))
			} else {
				buf[i] = byte(x.N)
			}
		}
		out = append(out, fmt.Sprintf("%s: %q", o.tag, buf))
	}
	return out
}

func (st *State) candidate(kind, what string, m []uint64) {
	ex := st.w.ex
	c := Candidate{Harness: ex.harness, What: what, Kind: kind, Vals: st.vals(m), Tier: ex.tier, Notes: st.noteText(m)}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if ex.candSeen[what] < 4 {
		ex.candSeen[what]++
		ex.Cands = append(ex.Cands, c)
		if ex.debug {
			fmt.Fprintf(os.Stderr, "candidate %s %q vals=%v notes=%v\n", kind, what, c.Vals, c.Notes)
		}
	}
	if len(ex.Cands) >= ex.maxCand {
		ex.stopped.Store(true)
		ex.cond.Broadcast()
	}
}

// ---- the exploration ----

func (ex *Explorer) Run(mk func() (*State, error)) error {
	t0 := time.Now()
	ex.cond = sync.NewCond(&ex.mu)
	ex.Unsup = map[string]int{}
	ex.Reached = map[string]int{}
	ex.Wanted = map[string]Candidate{}
	ex.Covered = map[string]bool{}
	ex.candSeen = map[string]int{}
	ex.queue = []*workItem{{}}
	var wg sync.WaitGroup
	errs := make([]error, ex.nw)
	for i := 0; i < ex.nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = ex.worker(mk)
		}(i)
	}
	wg.Wait()
	ex.Wall = time.Since(t0).Seconds()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func (ex *Explorer) take() *workItem {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped.Load() {
			return nil
		}
		if n := len(ex.queue); n > 0 {
			it := ex.queue[0]
			ex.queue = ex.queue[1:]
			ex.busy++
			return it
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return nil
		}
		ex.idle.Add(1)
		ex.cond.Wait()
		ex.idle.Add(-1)
	}
}

func (ex *Explorer) finish() {
	ex.mu.Lock()
	ex.busy--
	if ex.stopped.Load() || ex.busy == 0 && len(ex.queue) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) worker(mk func() (*State, error)) error {
	var w *Worker
	for {
		it := ex.take()
		if it == nil {
			break
		}
		if w == nil {
			st, err := mk()
			if err != nil {
				ex.stopped.Store(true)
				ex.mu.Lock()
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return err
			}
			w = &Worker{ex: ex, st: st, debug: ex.debug}
			st.w = w
			st.maxSteps = ex.maxSteps
		}
		w.explore(it)
		ex.finish()
	}
	if w != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					ex.mu.Lock()
					ex.Unsup[fmt.Sprint(r)]++
					ex.mu.Unlock()
				}
			}()
			w.st.flushCerts()
		}()
		w.st.sol.stop()
	}
	return nil
}

func (w *Worker) explore(it *workItem) {
	ex, st := w.ex, w.st
	st.reset()
	st.prefix = it
	st.model = append([]uint64(nil), it.model...)
	st.call(ex.entry, nil, nil, -1)
	steps0 := int64(0)
	for {
		end := st.run()
		ex.Paths.Add(1)
		ex.Steps.Add(st.m.steps - steps0)
		w.pathDone(end)
		// share work
		if ex.idle.Load() > 0 && len(st.chs) > 1 {
			if d := st.donate(); d != nil {
				ex.mu.Lock()
				ex.queue = append(ex.queue, d)
				ex.cond.Signal()
				ex.mu.Unlock()
			}
		}
		if ex.stopped.Load() {
			return
		}
		if time.Now().After(ex.deadline) {
			ex.timeout.Store(true)
			ex.stopped.Store(true)
			ex.mu.Lock()
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		st.prefix = nil
		if !st.backtrack() {
			return
		}
		steps0 = st.m.steps
	}
}

func (w *Worker) pathDone(end pathEnd) {
	ex, st := w.ex, w.st
	switch end.kind {
	case "done":
		ex.Done.Add(1)
		ex.mu.Lock()
		if len(st.draws) > ex.MaxVars {
			ex.MaxVars = len(st.draws)
		}
		ex.sampleN++
		n := ex.sampleN
		keep := len(ex.Samples) < 150
		slot := -1
		if !keep {
			// deterministic thinning
			if h := (uint64(n) * 0x9E3779B97F4A7C15) >> 33; h%uint64(n) < 150 {
				slot = int(h % 150)
			}
		}
		if keep || slot >= 0 {
			s := Sample{Harness: ex.harness, Vals: st.vals(st.model), Obs: st.obsText(st.model, st.obs), Tier: ex.tier, Notes: st.noteText(st.model)}
			if keep {
				ex.Samples = append(ex.Samples, s)
			} else {
				ex.Samples[slot] = s
			}
		}
		ex.mu.Unlock()
	case "assume":
		ex.Assumed.Add(1)
	case "violated", "stop":
	case "panic":
		st.candidate("panic", "panic: "+end.msg, st.model)
	case "steps":
		ex.mu.Lock()
		ex.StepLim++
		ex.mu.Unlock()
		st.candidate("hang", "no termination within the step bound", st.model)
	default:
		ex.mu.Lock()
		ex.Unsup[end.msg]++
		ex.mu.Unlock()
	}
}
