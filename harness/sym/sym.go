// Package sym is the interface between a harness and whatever runs it.
//
// A harness is an ordinary Go function. Run by the symbolic engine, every
// function of this package is intercepted: the drawing functions return fresh
// symbolic values, Assume and Assert talk to the solver. Run natively, the
// drawing functions read a recorded list of values (a solver model), or random
// ones, so the very same harness replays a counterexample on the real build.
package sym

import (
	"fmt"
	"math/rand"
)

// Run is the native state of one execution.
type Run struct {
	Vals     []uint64 // values to be drawn, in order
	Rnd      *rand.Rand
	pos      int
	Drawn    []uint64
	Failures []string
	Obs      []string
	Reached  map[string]int
	TierV    int
	SeedV    int64
	Short    bool // ran out of recorded values
	Notes    []string
}

// Cur is the current native run.
var Cur = &Run{Reached: map[string]int{}}

// AssumeFailed is panicked natively when an assumption does not hold.
type AssumeFailed struct{}

func (r *Run) next(lo, hi int64) uint64 {
	var v uint64
	if r.Rnd != nil {
		v = uint64(lo + r.Rnd.Int63n(hi-lo+1))
	} else if r.pos < len(r.Vals) {
		v = r.Vals[r.pos]
	} else {
		r.Short = true
		v = uint64(lo)
	}
	r.pos++
	r.Drawn = append(r.Drawn, v)
	return v
}

// Byte draws an arbitrary octet.
func Byte() byte { return byte(Cur.next(0, 255)) }

// Int draws an arbitrary integer in [lo,hi] (hi-lo < 256).
func Int(lo, hi int) int { return int(int64(Cur.next(int64(lo), int64(hi)))) }

// Bool draws an arbitrary boolean.
func Bool() bool { return Cur.next(0, 1) != 0 }

// Choice draws an integer in [0,n) on which the engine case-splits at once.
func Choice(n int) int { return int(Cur.next(0, int64(n)-1)) }

// Rune draws an arbitrary 21-bit non-negative rune value (0..0x1FFFFF).
func Rune() rune { return rune(Cur.next(0, 0x1FFFFF)) }

// Uint64 draws an arbitrary 64-bit word.
func Uint64() uint64 { return Cur.next(0, 1<<62) }

// Assume restricts the inputs considered.
func Assume(ok bool) {
	if !ok {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(ok bool, what string) {
	if !ok {
		Cur.Failures = append(Cur.Failures, what)
	}
}

// Reach marks a point that must be reachable for the harness not to be vacuous.
func Reach(tag string) { Cur.Reached[tag]++ }

// Observe records a value that must be the same in the engine and natively.
func Observe(tag string, v int) { Cur.Obs = append(Cur.Obs, fmt.Sprintf("%s=%d", tag, v)) }

// ObserveS is Observe for strings.
func ObserveS(tag string, v string) { Cur.Obs = append(Cur.Obs, fmt.Sprintf("%s=%x", tag, v)) }

// Note attaches a human-readable description to the run.
func Note(tag, v string) { Cur.Notes = append(Cur.Notes, tag+": "+v) }

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return Cur.TierV }

// Seed is the seed handed to a pseudo-random generator; the engine models every
// draw as an arbitrary value, natively several seeds are tried.
func Seed() int64 { return Cur.SeedV }

// Symbolic tells whether the engine is running the harness.
func Symbolic() bool { return false }

// MapOrder selects how map iteration is ordered by the engine from here on:
// rotate by rot positions, reversed or not. Natively Go's own order applies.
func MapOrder(rot int, rev bool) {}

// Freeze makes the engine report every later write to memory reachable from v.
func Freeze(v any) {}

// Unfreeze ends Freeze and returns the number of writes seen.
func Unfreeze() int { return 0 }

// Conc forces a case split on v and returns it concretely.
func Conc(v int) int { return v }

// EncodedSteps returns the number of interpreted steps so far (0 natively).
func Steps() int { return 0 }

// RandLimit cuts the exploration at n further pseudo-random draws.
func RandLimit(n int) {}

// Want states that some value of what is drawn later must reach Cover(tag):
// once every path is explored, a tag that none covered is a violation.
func Want(tag string) {}

// Cover marks the tag as reached.
func Cover(tag string) {}

// Exhausted tells, natively, that a replay has run out of recorded values: what
// is to be shown is that no value at all covers the tags wanted so far.
func Exhausted() bool { return Cur.Short }
