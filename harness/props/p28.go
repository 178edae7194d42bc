package props

import (
	"math/rand"

	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P28_flat"] = H_P28_flat
	Registry["H_P28_dag"] = H_P28_dag
	Registry["H_P28_chars"] = H_P28_chars
	Registry["H_P28_core"] = H_P28_core
	Registry["H_P28_range"] = H_P28_range
	Registry["H_P28_wide"] = H_P28_wide
	Registry["H_P28_count"] = H_P28_count
	Registry["H_P28_stable"] = H_P28_stable
	Registry["H_P28_rand"] = H_P28_rand
	Registry["H_P28_aseq"] = H_P28_aseq
	Registry["H_P28_apair"] = H_P28_apair
	Registry["H_P28_adag"] = H_P28_adag
	Registry["H_P28_achars"] = H_P28_achars
	Registry["H_P28_acore"] = H_P28_acore
	Registry["H_P28_arange"] = H_P28_arange
	Registry["H_P28_acount"] = H_P28_acount
	Registry["H_P28_arand"] = H_P28_arand
}

// P28: every short text of the language is produced from some tape. The texts
// are enumerated and judged by the reference; for each the exploration has to
// find a tape (sym.Want, sym.Cover): if all tapes are explored and none yields
// it, it cannot be generated.

// texts lists the texts of the rule of up to max letters.
func texts(g *abnf.Grammar, root, letters string, max int) []string {
	out := []string{}
	if newRef(g, nil).valid(root) {
		out = append(out, "")
	}
	level := []string{""}
	for i := 0; i < max; i++ {
		next := []string{}
		for _, w := range level {
			for j := 0; j < len(letters); j++ {
				next = append(next, w+letters[j:j+1])
			}
		}
		for _, w := range next {
			if newRef(g, []byte(w)).valid(root) {
				out = append(out, w)
			}
		}
		level = next
	}
	return out
}

// produces states that run yields each of the texts for some tape of n octets.
// Natively, where the solver found none, few octets are tried in every order.
func produces(id string, ws []string, n int, few []byte, run func([]byte) []byte) {
	for _, w := range ws {
		sym.Want(id + " " + w)
	}
	tape := octets(n)
	if sym.Exhausted() {
		found := map[string]bool{}
		idx := make([]int, n)
		left, seed := 400000, uint64(1)
		for {
			for i := range tape {
				tape[i] = few[idx[i]]
			}
			found[string(run(tape))] = true
			if n > 10 { // too many for every order
				if left--; left == 0 {
					break
				}
				for i := range idx {
					seed = seed*6364136223846793005 + 1442695040888963407
					idx[i] = int(seed>>40) % len(few)
				}
				continue
			}
			i := n - 1
			for i >= 0 && idx[i] == len(few)-1 {
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
			idx[i]++
		}
		for _, w := range ws {
			sym.Assert(found[w], "no tape yields a text of the rule")
		}
		return
	}
	sym.Note("tape", string(tape))
	out := string(run(tape))
	for _, w := range ws {
		if out == w {
			sym.Cover(id + " " + w)
			sym.Reach("covered")
		}
	}
}

var smallOctets = []byte{0, 1, 2, 3, 4}

// tens are octets that make up any small number.
func tens() []byte {
	out := []byte{}
	for i := 0; i < 48; i++ {
		out = append(out, byte(i))
	}
	return out
}

func allOctets() []byte {
	out := []byte{}
	for i := 0; i < 256; i++ {
		out = append(out, byte(i))
	}
	return out
}

var edgeOctets = []byte{0x00, 0x01, 0x07, 0x08, 0x0F, 0x10, 0xD7, 0xD8, 0xDF, 0xE0, 0xF7, 0xF8, 0xFE, 0xFF, 0x7F, 0x80}

// yields checks the transition graph generator.
func yields(g *abnf.Grammar, root, letters string, max, n int, few []byte, opts ...abnf.TGOption) {
	tg := graphOf(g, root, opts...)
	if tg == nil {
		return
	}
	gos := []abnf.GenOption{abnf.WithMaxLength(max + 1), abnf.WithMaxReps(3)}
	gen := newGen(g, root, tg, gos...)
	if gen == nil {
		return
	}
	produces(text(g)+" "+root, texts(g, root, letters, max), n, few, gen.Generate)
}

func H_P28_flat() {
	g, root := gf_flat()
	yields(g, root, "ab", 2+sym.Tier(), 7, smallOctets[:4])
}

func H_P28_dag() {
	g, root := gf_dag()
	yields(g, root, "abcde", 2, 8, smallOctets[:4])
}

// quoted: a few strings with letters and others.
func quoted() *abnf.Grammar {
	s := []string{"", "a", "Z", "@", "[", "a1", "bA", "é"}[sym.Choice(8)]
	return grammar(rule("r", conc(one(abnf.ElemCharVal{Sensitive: sym.Choice(2) == 1, Values: []rune(s)}))))
}

func H_P28_chars() {
	yields(quoted(), "r", "aAzZ@`[{1bB\xc3\xa9\x89", 2, 3, smallOctets, tgOpts()...)
}

// single lists the texts of one octet, or of one character around the edges.
func single(g *abnf.Grammar, root string, edge bool) []string {
	var out []string
	for c := 0; c < 256; c++ {
		if edge && c%16 > 0 && c%16 < 15 {
			continue
		}
		w := string(rune(c))
		if newRef(g, []byte(w)).valid(root) {
			out = append(out, w)
		}
	}
	for _, e := range edges {
		for d := int64(-1); d <= 1; d++ {
			if v := int64(e) + d; v > 255 && scalar(v) {
				w := string(rune(v))
				if newRef(g, []byte(w)).valid(root) {
					out = append(out, w)
				}
			}
		}
	}
	return out
}

func H_P28_core() {
	g, root := gf_core()
	ws := single(g, root, false)
	tg := graphOf(g, root)
	if tg == nil {
		return
	}
	if gen := newGen(g, root, tg, abnf.WithMaxLength(2), abnf.WithMaxReps(1)); gen != nil {
		produces(text(g)+" "+root, ws, 2, allOctets(), gen.Generate)
	}
}

func H_P28_range() {
	g, root := gf_range()
	tg := graphOf(g, root)
	if tg == nil {
		return
	}
	if gen := newGen(g, root, tg); gen != nil {
		produces(text(g), single(g, root, true), 3, edgeOctets, gen.Generate)
	}
}

// H_P28_wide: ranges of as many values as one, two or three octets tell apart,
// and about as many; their first and last values, by either generator.
func H_P28_wide() {
	lo := []int64{0, 0x30, 0xE000}[sym.Choice(3)]
	size := []int64{2, 3, 16, 255, 256, 257, 258, 511, 512, 4096, 65535, 65536, 65537, 65538, 65792, 65793, 131072, 0x10000 * 4}[sym.Choice(18)]
	at := func(i int64) rune {
		if v := lo + i; v < 0xD800 || lo >= 0xD800 {
			return rune(v)
		}
		return rune(lo + i + 0x800)
	}
	g := grammar(rule("r", conc(one(hexRange(numeralOf(lo, "x"), numeralOf(int64(at(size-1)), "x"))))))
	var ws []string
	for _, i := range []int64{0, 1, size / 2, size - 2, size - 1} {
		ws = append(ws, string(at(i)))
	}
	run, which := func([]byte) []byte { return nil }, "graph "
	if sym.Choice(2) == 1 {
		ag := newAST(g, "r", 4, 8, 1)
		if ag == nil {
			return
		}
		run, which = ag.Generate, "AST "
	} else {
		tg := graphOf(g, "r")
		if tg == nil {
			return
		}
		gen := newGen(g, "r", tg)
		if gen == nil {
			return
		}
		run = gen.Generate
	}
	few := []byte{0, 1, 2, 3, 4, 7, 8, 15, 16, 126, 127, 128, 129, 253, 254, 255}
	if size < 65536 {
		few = append(few, tens()...)
	}
	produces(which+text(g), ws, 4, few, run)
}

func H_P28_count() {
	yields(counted(2), "r", "abc0", 3, 9, smallOctets[:4])
}

// H_P28_stable: with decisions addressed by number.
func H_P28_stable() {
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{schars("a"), chars("b")}, reps: [][2]int{{0, -1}, {1, 2}, {0, 1}}}
	g := x.noself().grammar([3]int{2, 1, 1})
	tg := graphOf(g, "r")
	if tg == nil {
		return
	}
	gen := newGen(g, "r", tg, abnf.WithMaxLength(3), abnf.WithMaxReps(3), abnf.WithStableAddressing())
	if gen == nil {
		return
	}
	produces(text(g), texts(g, "r", "abB", 2), 7, smallOctets[:4], func(t []byte) []byte {
		long := make([]byte, 4*len(t))
		for i := range t {
			long[4*i+3] = t[i]
		}
		return gen.Generate(long)
	})
}

// H_P28_rand: the same driven by pseudo-random numbers.
func H_P28_rand() {
	g, root := gf_flat()
	tg := graphOf(g, root)
	if tg == nil {
		return
	}
	gen := newGen(g, root, tg, abnf.WithMaxLength(3), abnf.WithMaxReps(3))
	if gen == nil {
		return
	}
	produces(text(g), texts(g, root, "ab", 2), 7, smallOctets[:4], func(t []byte) []byte {
		return gen.GenerateRand(rand.New(&octetRand{t, 0}))
	})
}

// octetRand hands out the octets of a tape, then zeroes.
type octetRand struct {
	tape []byte
	pos  int
}

func (r *octetRand) Int63() int64 {
	b := byte(0)
	if r.pos < len(r.tape) {
		b = r.tape[r.pos]
	}
	r.pos++
	return int64(b) << 32
}

func (r *octetRand) Seed(int64) {}

// expands checks the AST generator.
func expands(g *abnf.Grammar, root, letters string, max, depth, n int) {
	ag := newAST(g, root, depth, max+1, max)
	if ag == nil {
		return
	}
	produces(text(g)+" "+root, texts(g, root, letters, max), n, smallOctets[:4], ag.Generate)
}

func H_P28_aseq() {
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{schars("a"), schars("b"), chars("")}, reps: [][2]int{{0, -1}, {1, 2}, {2, -1}, {0, 1}}}
	g := x.grammar([3]int{2, 1, 1})
	expands(g, "r", "ab", 2, 4, 8)
}

func H_P28_apair() {
	g, root := gf_pair()
	expands(g, root, "a", 2, 4, 8)
}

func H_P28_adag() {
	g, root := gf_dag()
	expands(g, root, "abcde", 2, 4, 18)
}

func H_P28_achars() {
	expands(quoted(), "r", "aAzZ@`[{1bB\xc3\xa9\x89", 2, 4, 3)
}

func H_P28_acore() {
	g, root := gf_core()
	if ag := newAST(g, root, 4, 2, 1); ag != nil {
		produces(text(g)+" "+root, single(g, root, false), 3, append(tens(), 9, 32), ag.Generate)
	}
}

func H_P28_arange() {
	g, root := gf_range()
	if ag := newAST(g, root, 4, 8, 1); ag != nil {
		produces(text(g), single(g, root, true), 3, edgeOctets, ag.Generate)
	}
}

func H_P28_acount() {
	expands(counted(2), "r", "abc0", 3, 4, 8)
}

func H_P28_arand() {
	x := &gen{names: []string{"r"}, leaves: []abnf.ElemItf{schars("a"), schars("b")}, reps: [][2]int{{0, -1}, {1, 2}, {0, 1}}}
	g := x.grammar([3]int{2, 1, 1})
	ag := newAST(g, "r", 4, 3, 2)
	if ag == nil {
		return
	}
	produces(text(g), texts(g, "r", "ab", 2), 8, smallOctets[:4], func(t []byte) []byte {
		return ag.GenerateRand(rand.New(&octetRand{t, 0}))
	})
}
