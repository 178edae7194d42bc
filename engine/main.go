// Command engine decides properties of go-abnf by symbolic execution of its SSA
// form, with an SMT solver (z3) settling path feasibility and assertions.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type hconf struct {
	Bounds   string   `json:"bounds"`            // quick bounds
	Thorough string   `json:"thorough"`          // thorough bounds ("" = same)
	Outside  string   `json:"outside"`           // what lies outside
	Reach    []string `json:"reach"`             // witnesses against vacuity
	Steps    int64    `json:"steps"`             // step bound per path (0 = default)
	Secs     int      `json:"secs"`              // quick time budget (0 = default)
	Hang     bool     `json:"hang"`              // the step bound is itself a property (termination)
	Skip     bool     `json:"skip"`              // not run by check
	OnlyT    bool     `json:"thorough_only"`     // only in the thorough tier
	Models   []string `json:"models,omitempty"`  // stated modelling assumptions
	Retries  int      `json:"retries,omitempty"` // native attempts (seeds, map orders)
	Samples  int      `json:"samples,omitempty"` // native runs are slow: validate only this many paths
}

type conf struct {
	Harnesses map[string]hconf  `json:"harnesses"`
	Level     map[string]string `json:"level"`
}

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func main() {
	debug.SetGCPercent(1200)
	debug.SetMemoryLimit(16 << 30)
	if exe, err := os.Executable(); err == nil {
		_ = exe
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: engine check ID [quick|thorough] | explore HARNESS [secs] [tier] | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check(os.Args[2], tier))
	case "explore":
		secs, tier := 60, 0
		if len(os.Args) > 3 {
			secs, _ = strconv.Atoi(os.Args[3])
		}
		if len(os.Args) > 4 && os.Args[4] != "0" {
			tier = 1
		}
		os.Exit(exploreCmd(os.Args[2], secs, tier))
	case "replay":
		os.Exit(replayCmd(os.Args[2]))
	}
	os.Exit(2)
}

func readConf() (*conf, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "harnesses.json"))
	if err != nil {
		return nil, err
	}
	c := &conf{}
	if err := json.Unmarshal(b, c); err != nil {
		return nil, err
	}
	return c, nil
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func (P *Program) explore(name string, ents map[string]*Fn, inits []*Fn, tier int, deadline time.Time, steps int64, maxCand int, dbg bool) (*Explorer, error) {
	if steps == 0 {
		steps = 40e6
	}
	ex := &Explorer{P: P, harness: name, entry: ents[name], tier: tier, deadline: deadline, maxSteps: steps, solverMs: 20000, nw: workers(), debug: dbg, maxCand: maxCand}
	err := ex.Run(func() (*State, error) {
		st := newState(P, 20000)
		return st, st.initPackages(inits)
	})
	return ex, err
}

func loadAll() (*Program, map[string]*Fn, []*Fn, error) {
	P, e, in, err := load(verifDir, repoDir)
	if err != nil {
		return nil, nil, nil, err
	}
	ents := map[string]*Fn{}
	for n, f := range e {
		ents[n] = P.fn(f)
	}
	var inits []*Fn
	for _, f := range in {
		inits = append(inits, P.fn(f))
	}
	return P, ents, inits, nil
}

func exploreCmd(name string, secs, tier int) int {
	P, ents, inits, err := loadAll()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if ents[name] == nil {
		fmt.Println("no such harness")
		return 2
	}
	bin, berr := buildReplay()
	if bin != "" {
		defer os.RemoveAll(filepath.Dir(bin))
	}
	c, _ := readConf()
	var hc hconf
	if c != nil {
		hc = c.Harnesses[name]
	}
	ex, err := P.explore(name, ents, inits, tier, time.Now().Add(time.Duration(secs)*time.Second), hc.Steps, 12, true)
	fmt.Printf("err=%v paths=%d done=%d assumed=%d branches=%d asserts=%d(sym %d) steps=%d wall=%.1f timeout=%v unknown=%d steplim=%d maxvars=%d\n", err, ex.Paths.Load(), ex.Done.Load(), ex.Assumed.Load(), ex.Branches.Load(), ex.Asserts.Load(), ex.AssertsSym.Load(), ex.Steps.Load(), ex.Wall, ex.timeout.Load(), ex.Unknown.Load(), ex.StepLim, ex.MaxVars)
	fmt.Printf("solver: %+v\n", stats.snapshot())
	for k, v := range ex.Unsup {
		fmt.Println("UNSUPPORTED", v, k)
	}
	fmt.Println("reached", ex.Reached)
	if len(ex.Wanted) > 0 {
		n := 0
		for t, c := range ex.Wanted {
			if !ex.Covered[t] {
				if n++; n < 20 {
					fmt.Printf("uncovered %q\n", t)
				}
				if n < 3 {
					ex.Cands = append(ex.Cands, c)
				}
			}
		}
		fmt.Println("wanted", len(ex.Wanted), "uncovered", n)
	}
	if berr != nil {
		fmt.Println(berr)
		return 2
	}
	ok, bad, fails := validate(bin, ex.Samples, hc.Samples)
	fmt.Println("samples validated", ok, "mismatch", len(bad), "native failures", len(fails))
	for i, b := range bad {
		if i < 3 {
			fmt.Println("  MISMATCH", b)
		}
	}
	for i, f := range fails {
		if i < 3 {
			fmt.Println("  NATIVE FAIL", f.What, f.Vals)
		}
	}
	for _, cd := range ex.Cands {
		r := replayOne(bin, cd, hc)
		fmt.Printf("CAND %s %q reproduced=%v (%s) vals=%v\n   notes=%v\n", cd.Kind, cd.What, r.Reproduced, r.Detail, cd.Vals, cd.Notes)
	}
	return 0
}

func goEnv() []string {
	return append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

// buildReplay compiles the harnesses natively against /repo's working tree.
func buildReplay() (string, error) {
	dir, err := os.MkdirTemp("", "vreplay")
	if err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-o", bin, "./cmd/replay")
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return bin, fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

type replayReq struct {
	Harness string   `json:"harness"`
	Vals    []uint64 `json:"vals"`
	Tier    int      `json:"tier"`
	Tries   int      `json:"tries"`
	Secs    int      `json:"secs"`
}

type replayRes struct {
	Failures []string `json:"failures"`
	Panic    string   `json:"panic"`
	Assumed  bool     `json:"assumed"`
	Obs      []string `json:"obs"`
	Notes    []string `json:"notes"`
	Seed     int64    `json:"seed"`
	Tried    int      `json:"tried"`
}

type verdict struct {
	Reproduced bool
	Detail     string
	Seed       int64
}

func runReplay(bin string, reqs []replayReq, timeout time.Duration) ([]replayRes, bool, string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	tmp, err := os.MkdirTemp("", "vreplay")
	if err != nil {
		return nil, false, err.Error()
	}
	defer os.RemoveAll(tmp)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "TMPDIR="+tmp)
	in, _ := json.Marshal(reqs)
	cmd.Stdin = bytes.NewReader(in)
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	err = cmd.Run()
	var res []replayRes
	dec := json.NewDecoder(&out)
	for {
		var r replayRes
		if dec.Decode(&r) != nil {
			break
		}
		res = append(res, r)
	}
	msg := ""
	if err != nil {
		msg = eb.String()
		if len(msg) > 600 {
			msg = msg[:600]
		}
	}
	return res, ctx.Err() != nil, msg
}

func replayOne(bin string, c Candidate, hc hconf) verdict {
	tries := hc.Retries
	if tries == 0 {
		tries = 1
	}
	secs := 15
	if tries > 1 {
		secs = 40
	}
	if hc.Samples > 0 {
		secs = 100
	}
	res, timedOut, msg := runReplay(bin, []replayReq{{c.Harness, c.Vals, c.Tier, tries, secs - 5}}, time.Duration(secs)*time.Second)
	if timedOut && len(res) == 0 {
		return verdict{true, fmt.Sprintf("no termination within %d s on the native build", secs), 0}
	}
	if len(res) == 0 {
		return verdict{true, "native build aborted: " + firstLine(msg), 0}
	}
	r := res[0]
	if r.Panic != "" {
		return verdict{true, "panic: " + firstLine(r.Panic), r.Seed}
	}
	if len(r.Failures) > 0 {
		return verdict{true, strings.Join(uniq(r.Failures), "; "), r.Seed}
	}
	return verdict{false, fmt.Sprintf("held natively (assumed=%v tries=%d)", r.Assumed, r.Tried), 0}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func uniq(s []string) []string {
	var out []string
	m := map[string]bool{}
	for _, x := range s {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	return out
}

// validate runs sampled paths natively and compares what they observe.
func validate(bin string, ss []Sample, limit int) (ok int, bad []string, fails []Candidate) {
	if len(ss) == 0 {
		return
	}
	if limit > 0 && len(ss) > limit {
		var some []Sample
		for i := range limit {
			some = append(some, ss[i*len(ss)/limit])
		}
		ss = some
	}
	var reqs []replayReq
	for _, s := range ss {
		reqs = append(reqs, replayReq{s.Harness, s.Vals, s.Tier, 1, 10})
	}
	res, timedOut, msg := runReplay(bin, reqs, 120*time.Second)
	for i, r := range res {
		s := ss[i]
		switch {
		case r.Panic != "" || len(r.Failures) > 0:
			what := "panic: " + firstLine(r.Panic)
			kind := "panic"
			if r.Panic == "" {
				what, kind = r.Failures[0], "assert"
			}
			fails = append(fails, Candidate{Harness: s.Harness, What: what, Kind: kind, Vals: s.Vals, Tier: s.Tier, Notes: s.Notes})
		case r.Assumed || strings.Join(r.Obs, "|") != strings.Join(s.Obs, "|"):
			bad = append(bad, fmt.Sprintf("%s vals=%v engine=%v native=%v assumed=%v notes=%v", s.Harness, s.Vals, s.Obs, r.Obs, r.Assumed, s.Notes))
		default:
			ok++
		}
	}
	if len(res) < len(ss) {
		s := ss[len(res)]
		what := "native build aborted: " + firstLine(msg)
		if timedOut {
			what = "no termination on the native build"
		}
		fails = append(fails, Candidate{Harness: s.Harness, What: what, Kind: "hang", Vals: s.Vals, Tier: s.Tier, Notes: s.Notes})
	}
	return
}

type hreport struct {
	Harness     string         `json:"harness"`
	Bounds      string         `json:"bounds"`
	Outside     string         `json:"outside,omitempty"`
	Complete    bool           `json:"complete"`
	Paths       int64          `json:"paths"`
	Pruned      int64          `json:"paths_outside_assumptions"`
	Branches    int64          `json:"symbolic_branches"`
	Asserts     int64          `json:"assertions_checked"`
	AssertsSym  int64          `json:"assertions_settled_by_solver"`
	Steps       int64          `json:"ssa_steps"`
	MaxVars     int            `json:"max_symbolic_inputs"`
	Unknown     int64          `json:"solver_unknown"`
	StepLimited int            `json:"paths_at_step_bound"`
	Unsup       map[string]int `json:"unsupported,omitempty"`
	Reached     map[string]int `json:"witnesses"`
	Validated   int            `json:"paths_validated_natively"`
	Mismatch    int            `json:"native_mismatches"`
	WallS       float64        `json:"wall_s"`
}

func check(id, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cf, err := readConf()
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	type built struct {
		bin string
		err error
	}
	bc := make(chan built, 1)
	go func() {
		b, e := buildReplay()
		bc <- built{b, e}
	}()
	P, ents, inits, err := loadAll()
	if err != nil {
		fmt.Println("ERROR loading the code:", err)
		return 2
	}
	var names []string
	for n := range ents {
		if strings.HasPrefix(n, "H_"+id+"_") {
			hc, ok := cf.Harnesses[n]
			if !ok {
				fmt.Println("ERROR harness without configuration:", n)
				return 2
			}
			if hc.Skip || (hc.OnlyT && tier != "thorough") {
				continue
			}
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Println("ERROR no harness for", id)
		return 2
	}
	b := <-bc
	if b.bin != "" {
		defer os.RemoveAll(filepath.Dir(b.bin))
	}
	if b.err != nil {
		fmt.Println("ERROR", b.err)
		return 2
	}
	tn := 0
	total := 420 * time.Second
	if tier == "thorough" {
		tn = 1
		total = 100 * time.Minute
	}
	end := t0.Add(total)
	var reps []hreport
	var samples []any
	viol, vac := 0, 0
	mism, okN := 0, 0
	reduced := false
	for i, n := range names {
		if viol > 0 {
			break // already decided
		}
		hc := cf.Harnesses[n]
		left := time.Until(end)
		share := left / time.Duration(len(names)-i)
		if share*2 < left {
			share *= 2
		}
		if hc.Secs > 0 && tn == 0 && time.Duration(hc.Secs)*time.Second < left {
			share = time.Duration(hc.Secs) * time.Second
		}
		ex, err := P.explore(n, ents, inits, tn, time.Now().Add(share), hc.Steps, 12, os.Getenv("ENGINE_DEBUG") != "")
		if err != nil {
			fmt.Println("ERROR", n, err)
			return 2
		}
		ok, bad, fails := validate(b.bin, ex.Samples, hc.Samples)
		okN += ok
		mism += len(bad)
		for j, m := range bad {
			if j < 3 {
				fmt.Println("WARNING encoding differs from the native run:", m)
			}
		}
		complete := !ex.timeout.Load() && !ex.stopped.Load() && ex.Unknown.Load() == 0 && ex.StepLim == 0 && len(ex.Unsup) == 0
		if complete {
			// every path was explored: what none covers does not exist
			var open []string
			for t := range ex.Wanted {
				if !ex.Covered[t] {
					open = append(open, t)
				}
			}
			sort.Strings(open)
			for i, t := range open {
				if i < 4 {
					ex.Cands = append(ex.Cands, ex.Wanted[t])
				}
			}
		}
		nv := 0
		seen := map[string]int{}
		for _, c := range append(ex.Cands, fails...) {
			if nv >= 4 || seen[c.What] >= 3 {
				continue
			}
			seen[c.What]++
			v := replayOne(b.bin, c, hc)
			if !v.Reproduced {
				fmt.Printf("note: %s: candidate %q did not reproduce natively (%s) vals=%v notes=%v\n", n, c.What, v.Detail, c.Vals, c.Notes)
				reduced = true
				continue
			}
			nv++
			p := filepath.Join(verifDir, "evidence", "replay", fmt.Sprintf("%s-%d.json", id, viol))
			os.MkdirAll(filepath.Dir(p), 0o755)
			viol++
			out, _ := json.MarshalIndent(map[string]any{"property": id, "harness": c.Harness, "vals": c.Vals, "tier": c.Tier, "what": c.What, "kind": c.Kind, "notes": c.Notes, "native": v.Detail, "seed": v.Seed, "retries": hc.Retries}, "", " ")
			os.WriteFile(p, out, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n  native: %s\n  %s\n", id, p, c.Harness, c.What, v.Detail, strings.Join(c.Notes, "\n  "))
		}
		if !complete {
			reduced = true
		}
		if nv == 0 && complete {
			for _, r := range hc.Reach {
				if ex.Reached[r] == 0 {
					fmt.Printf("ERROR %s is vacuous: witness %q not reached\n", n, r)
					vac++
				}
			}
			if ex.Asserts.Load() == 0 {
				fmt.Printf("ERROR %s checked no assertion\n", n)
				vac++
			}
		}
		bounds := hc.Bounds
		if tn == 1 && hc.Thorough != "" {
			bounds = hc.Thorough
		}
		reps = append(reps, hreport{n, bounds, hc.Outside, complete, ex.Done.Load(), ex.Assumed.Load(), ex.Branches.Load(), ex.Asserts.Load(), ex.AssertsSym.Load(), ex.Steps.Load(), ex.MaxVars, ex.Unknown.Load(), ex.StepLim, ex.Unsup, ex.Reached, ok, len(bad), ex.Wall})
		for j, s := range ex.Samples {
			if j%50 == 0 && len(samples) < 24 {
				samples = append(samples, map[string]any{"harness": s.Harness, "inputs": s.Vals, "notes": s.Notes, "observed": s.Obs})
			}
		}
		st := "complete"
		if !complete {
			st = fmt.Sprintf("INCOMPLETE(timeout=%v unknown=%d steps=%d unsupported=%v stopped=%v)", ex.timeout.Load(), ex.Unknown.Load(), ex.StepLim, ex.Unsup, ex.stopped.Load())
		}
		fmt.Printf("%s: %s paths=%d branches=%d asserts=%d validated=%d %.1fs\n", n, st, ex.Done.Load(), ex.Branches.Load(), ex.Asserts.Load(), ok, ex.Wall)
	}
	var paths, branches, asserts, steps int64
	var models []string
	for _, r := range reps {
		paths += r.Paths
		branches += r.Branches
		asserts += r.Asserts
		steps += r.Steps
		models = append(models, cf.Harnesses[r.Harness].Models...)
	}
	fns, blk, cov := P.coverage()
	level := cf.Level[id]
	if level == "" {
		level = "model_checking"
	}
	sn := stats.snapshot()
	z3v := "z3"
	if o, err := exec.Command("z3", "--version").Output(); err == nil {
		z3v = strings.TrimSpace(string(o))
	}
	coverage := map[string]any{
		"states": paths, "transitions": branches, "traces_validated_against_impl": okN, "samples": samples,
		"exhaustive":                          !reduced && viol == 0,
		"assertions_checked":                  asserts,
		"ssa_steps":                           steps,
		"harnesses":                           reps,
		"functions_encoded":                   fns,
		"functions_encoded_count":             len(fns),
		"basic_blocks_in_those":               blk,
		"basic_blocks_executed":               cov,
		"solver":                              z3v,
		"solver_queries":                      sn["queries"],
		"solver_sat":                          sn["sat"],
		"solver_unsat":                        sn["unsat"],
		"solver_unknown":                      sn["unknown"],
		"solver_cache_hits":                   sn["cache_hits"],
		"solver_time_s":                       sn["solver_s"],
		"octet_domain_decisions":              sn["domain"],
		"infeasibilities_certified_by_solver": sn["certified"],
		"explanation":                         "states = completed symbolic execution paths (each stands for all inputs satisfying its path condition); transitions = symbolic branch decisions; bounds are given per harness",
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": level, "coverage": coverage, "violations": viol,
		"wall_s": time.Since(t0).Seconds(),
		"assumptions": append([]string{
			"the engine's interpretation of go/ssa and its Go models of fmt, sort.Slice and string search match the Go tool chain (validated on sampled paths by native execution of the same harness)",
			"map iteration follows insertion order unless a harness varies it",
		}, uniq(models)...),
	}
	out, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), out, 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	for _, l := range knownFindings(id) {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d solver queries (%.1fs), %.1fs total\n", id, tier, len(names), paths, sn["queries"], sn["solver_s"], time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	if vac > 0 {
		return 2
	}
	if mism*10 > okN+mism {
		fmt.Println("ERROR the encoding disagrees with native runs")
		return 2
	}
	return 0
}

// knownFindings lists the recorded, unrepaired findings of a property.
func knownFindings(id string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "finding: "))
		}
	}
	return out
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property string
		Harness  string
		Vals     []uint64
		Tier     int
		What     string
		Retries  int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	bin, err := buildReplay()
	if bin != "" {
		defer os.RemoveAll(filepath.Dir(bin))
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	v := replayOne(bin, Candidate{Harness: r.Harness, Vals: r.Vals, Tier: r.Tier}, hconf{Retries: r.Retries})
	fmt.Printf("%s: reproduced=%v: %s\n", r.Harness, v.Reproduced, v.Detail)
	if v.Reproduced {
		return 1
	}
	return 0
}
