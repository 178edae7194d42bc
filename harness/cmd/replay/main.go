// Command replay runs harnesses natively, on values found by the solver.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"verif/harness/props"
	"verif/harness/sym"
)

type req struct {
	Harness string   `json:"harness"`
	Vals    []uint64 `json:"vals"`
	Tier    int      `json:"tier"`
	Tries   int      `json:"tries"`
	Secs    int      `json:"secs"`
}

type res struct {
	Failures []string `json:"failures"`
	Panic    string   `json:"panic"`
	Assumed  bool     `json:"assumed"`
	Obs      []string `json:"obs"`
	Notes    []string `json:"notes"`
	Seed     int64    `json:"seed"`
	Tried    int      `json:"tried"`
}

func once(f func()) (r res) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(sym.AssumeFailed); ok {
				r.Assumed = true
			} else {
				r.Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}
		r.Failures, r.Obs, r.Notes = sym.Cur.Failures, sym.Cur.Obs, sym.Cur.Notes
	}()
	f()
	return
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) > 1 {
		random(os.Args[1:])
		return
	}
	var reqs []req
	if err := json.NewDecoder(os.Stdin).Decode(&reqs); err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, q := range reqs {
		f := props.Registry[q.Harness]
		if f == nil {
			enc.Encode(res{Panic: "unknown harness " + q.Harness})
			continue
		}
		var r res
		t0 := time.Now()
		for i := 0; i < max(1, q.Tries); i++ {
			sym.Cur = &sym.Run{Vals: q.Vals, TierV: q.Tier, SeedV: int64(i), Reached: map[string]int{}}
			r = once(f)
			r.Seed, r.Tried = int64(i), i+1
			if r.Panic != "" || len(r.Failures) > 0 {
				break
			}
			if i%16 == 0 && time.Since(t0) > time.Duration(q.Secs)*time.Second {
				break
			}
		}
		enc.Encode(r)
	}
}

// random runs a harness on random values: a development aid, not a check.
func random(args []string) {
	f := props.Registry[args[0]]
	n, _ := strconv.Atoi(args[1])
	tier := 0
	if len(args) > 2 {
		tier, _ = strconv.Atoi(args[2])
	}
	start := 0
	if len(args) > 3 {
		start, _ = strconv.Atoi(args[3])
	}
	shown := map[string]int{}
	total, assumed := 0, 0
	reached := map[string]int{}
	for i := start; i < start+n; i++ {
		sym.Cur = &sym.Run{Rnd: rand.New(rand.NewSource(int64(i))), TierV: tier, SeedV: int64(i), Reached: reached}
		r := once(f)
		if r.Assumed {
			assumed++
		}
		if r.Panic != "" {
			r.Failures = append(r.Failures, "PANIC "+r.Panic[:min(len(r.Panic), 900)])
		}
		for _, x := range r.Failures {
			k := x[:min(len(x), 60)]
			shown[k]++
			total++
			if shown[k] <= 3 {
				fmt.Println("FAIL", x, "\n   vals", sym.Cur.Drawn, "\n   notes", r.Notes)
			}
		}
	}
	fmt.Println("runs", n, "failures", total, "assumed", assumed, "reached", reached)
	for k, v := range shown {
		fmt.Println("  ", v, k)
	}
}
