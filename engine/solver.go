package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Stats are process-wide counters, all measured.
type Stats struct {
	Queries   atomic.Int64 // z3 check-sat calls
	Sat       atomic.Int64
	Unsat     atomic.Int64
	Unknown   atomic.Int64
	SolverNS  atomic.Int64
	CacheHits atomic.Int64
	Domain    atomic.Int64 // branch feasibilities settled by exact octet domains
	Certified atomic.Int64 // of the infeasible ones, confirmed by z3 in batches
	Certs     atomic.Int64
}

var stats Stats

type solver struct {
	ctx      *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	cache    map[string]*qres
	timeout  int
}

type qres struct {
	res   int // 1 sat, 0 unsat, -1 unknown
	vals  map[int32]uint64
	exprs []*Expr
}

var z3Bin = "z3"

func newSolver(ctx *Ctx, timeoutMs int) *solver {
	return &solver{ctx: ctx, cache: map[string]*qres{}, timeout: timeoutMs}
}

func (s *solver) start() error {
	s.cmd = exec.Command(z3Bin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.declared = map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
	return nil
}

func (s *solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *solver) declare(vars []int32) {
	for _, v := range vars {
		vi := s.ctx.vars[v]
		n := fmt.Sprintf("v%d_%d", v, vi.w)
		if !s.declared[n] {
			s.declared[n] = true
			fmt.Fprintf(s.in, "(declare-const %s (_ BitVec %d))\n", n, vi.w)
		}
	}
}

// check decides the conjunction of cs. The range of every variable that occurs
// is asserted along with it.
func (s *solver) check(cs []*Expr) *qres {
	ids := make([]int, len(cs))
	for i, e := range cs {
		ids[i] = int(e.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&kb, "%d,", i)
	}
	var vars []int32
	for _, e := range cs {
		vars = mergeVars(vars, e.vars)
	}
	for _, v := range vars {
		vi := s.ctx.vars[v]
		fmt.Fprintf(&kb, ";%d:%d:%d", v, vi.lo, vi.hi)
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		stats.CacheHits.Add(1)
		return r
	}
	r := s.query(cs, vars)
	s.cache[key] = r
	return r
}

// queryRaw decides a formula over one variable without any declared range.
func (s *solver) queryRaw(c *Expr, v *Expr) *qres {
	saved := s.ctx.vars
	vs := make([]VarInfo, v.k+1)
	copy(vs, saved)
	vs[v.k] = VarInfo{v.w, 0, mask(v.w)}
	s.ctx.vars = vs
	r := s.query([]*Expr{c}, []int32{int32(v.k)})
	s.ctx.vars = saved
	return r
}

func (s *solver) query(cs []*Expr, vars []int32) *qres {
	for attempt := 0; attempt < 2; attempt++ {
		if s.cmd == nil {
			if err := s.start(); err != nil {
				fmt.Fprintln(os.Stderr, "solver:", err)
				stats.Unknown.Add(1)
				return &qres{res: -1}
			}
		}
		r, err := s.tryQuery(cs, vars)
		if err == nil {
			return r
		}
		fmt.Fprintln(os.Stderr, "solver error:", err)
		s.stop()
	}
	stats.Unknown.Add(1)
	return &qres{res: -1}
}

func (s *solver) tryQuery(cs []*Expr, vars []int32) (*qres, error) {
	t0 := time.Now()
	s.declare(vars)
	s.in.WriteString("(push)\n")
	for _, v := range vars {
		vi := s.ctx.vars[v]
		if vi.lo != 0 {
			fmt.Fprintf(s.in, "(assert (bvuge v%d_%d (_ bv%d %d)))\n", v, vi.w, vi.lo, vi.w)
		}
		if vi.hi != mask(vi.w) {
			fmt.Fprintf(s.in, "(assert (bvule v%d_%d (_ bv%d %d)))\n", v, vi.w, vi.hi, vi.w)
		}
	}
	for _, e := range cs {
		s.in.WriteString("(assert ")
		s.in.WriteString(smt(e))
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return nil, err
	}
	stats.Queries.Add(1)
	r := &qres{}
	switch line {
	case "sat":
		r.res = 1
		r.vals = map[int32]uint64{}
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(s.in, "v%d_%d ", v, s.ctx.vars[v].w)
			}
			s.in.WriteString("))\n")
			if err := s.in.Flush(); err != nil {
				return nil, err
			}
			txt, err := s.readSexp()
			if err != nil {
				return nil, err
			}
			if err := parseValues(txt, r.vals); err != nil {
				return nil, err
			}
		}
		stats.Sat.Add(1)
	case "unsat":
		r.res = 0
		stats.Unsat.Add(1)
	case "unknown", "timeout":
		r.res = -1
		stats.Unknown.Add(1)
	default:
		return nil, fmt.Errorf("unexpected answer %q", line)
	}
	s.in.WriteString("(pop)\n")
	stats.SolverNS.Add(int64(time.Since(t0)))
	return r, nil
}

func (s *solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			return "", fmt.Errorf("%s", l)
		}
		return l, nil
	}
}

func (s *solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	t := sb.String()
	if strings.Contains(t, "(error") {
		return "", fmt.Errorf("%s", t)
	}
	return t, nil
}

func parseValues(t string, out map[int32]uint64) error {
	t = strings.NewReplacer("(", " ", ")", " ").Replace(t)
	f := strings.Fields(t)
	for i := 0; i+1 < len(f); i += 2 {
		var v int32
		var w int
		if _, err := fmt.Sscanf(f[i], "v%d_%d", &v, &w); err != nil {
			return fmt.Errorf("value %q", f[i])
		}
		var x uint64
		switch {
		case strings.HasPrefix(f[i+1], "#x"):
			fmt.Sscanf(f[i+1][2:], "%x", &x)
		case strings.HasPrefix(f[i+1], "#b"):
			fmt.Sscanf(f[i+1][2:], "%b", &x)
		default:
			return fmt.Errorf("value %q", f[i+1])
		}
		out[v] = x
	}
	return nil
}

func (s *Stats) snapshot() map[string]any {
	return map[string]any{"queries": s.Queries.Load(), "sat": s.Sat.Load(), "unsat": s.Unsat.Load(), "unknown": s.Unknown.Load(),
		"solver_s": float64(s.SolverNS.Load()) / 1e9, "cache_hits": s.CacheHits.Load(), "domain": s.Domain.Load(),
		"certified": s.Certified.Load(), "cert_queries": s.Certs.Load()}
}
