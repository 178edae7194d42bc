package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P02_edge"] = H_P02_edge
	Registry["H_P03_edge"] = H_P03_edge
	Registry["H_P03_deep"] = H_P03_deep
	Registry["H_P03_long"] = H_P03_long
	Registry["H_P03_tmpl"] = H_P03_tmpl
	Registry["H_P03_mix"] = H_P03_mix
	Registry["H_P02_deep"] = H_P02_deep
	Registry["H_P02_long"] = H_P02_long
	Registry["H_P02_tmpl"] = H_P02_tmpl
	Registry["H_P02_mix"] = H_P02_mix
	Registry["H_P02_seq"] = H_P02_seq
	Registry["H_P02_nest"] = H_P02_nest
	Registry["H_P02_rep2"] = H_P02_rep2
	Registry["H_P02_pair"] = H_P02_pair
	Registry["H_P02_trio"] = H_P02_trio
	Registry["H_P02_large"] = H_P02_large
	Registry["H_P02_count"] = H_P02_count
	Registry["H_P02_charval"] = H_P02_charval
	Registry["H_P02_twochar"] = H_P02_twochar
	Registry["H_P02_numval"] = H_P02_numval
	Registry["H_P02_core"] = H_P02_core
	Registry["H_P02_T"] = H_P02_T
	Registry["H_P03_seq"] = H_P03_seq
	Registry["H_P03_nest"] = H_P03_nest
	Registry["H_P03_rep2"] = H_P03_rep2
	Registry["H_P03_pair"] = H_P03_pair
	Registry["H_P03_trio"] = H_P03_trio
	Registry["H_P03_large"] = H_P03_large
	Registry["H_P03_count"] = H_P03_count
	Registry["H_P03_charval"] = H_P03_charval
	Registry["H_P03_twochar"] = H_P03_twochar
	Registry["H_P03_numval"] = H_P03_numval
	Registry["H_P03_core"] = H_P03_core
	Registry["H_P03_T"] = H_P03_T
}

func witness(ok bool) {
	if ok {
		sym.Reach("accept")
		sym.Observe("valid", 1)
	} else {
		sym.Reach("reject")
		sym.Observe("valid", 0)
	}
}

// checkForest: the packed-forest parser accepts exactly the language.
func checkForest(g *abnf.Grammar, root string, in []byte) {
	sym.Note("grammar", text(g))
	sym.Note("input", string(in))
	f, err := abnf.Parse(in, g, root)
	sym.Assert(err == nil && f != nil, "Parse fails for a defined rule")
	if err != nil || f == nil {
		return
	}
	want := newRef(g, in).valid(root)
	sym.Assert(f.Valid() == want, "the parse forest differs from the language of the grammar")
	sym.Assert((f.ParseError() == nil) == want, "a parse error is reported exactly for rejected inputs")
	sym.Assert((f.Tree() != nil) == want, "a tree is given exactly for accepted inputs")
	witness(f.Valid())
}

// checkBSR: the binary-subtree parser accepts exactly the language.
func checkBSR(g *abnf.Grammar, root string, in []byte) {
	sym.Note("grammar", text(g))
	sym.Note("input", string(in))
	f, err := abnf.ParseBSR(in, g, root)
	sym.Assert(err == nil && f != nil, "ParseBSR fails for a defined rule")
	if err != nil || f == nil {
		return
	}
	want := newRef(g, in).valid(root)
	sym.Assert(f.Valid() == want, "the BSR forest differs from the language of the grammar")
	sym.Assert((f.Tree() != nil) == want, "a tree is given exactly for accepted inputs")
	witness(f.Valid())
}

func H_P02_seq()     { checkForest(sc_seq()) }
func H_P02_nest()    { checkForest(sc_nest()) }
func H_P02_rep2()    { checkForest(sc_rep2()) }
func H_P02_pair()    { checkForest(sc_pair()) }
func H_P02_trio()    { checkForest(sc_trio()) }
func H_P02_large()   { checkForest(sc_large()) }
func H_P02_count()   { checkForest(sc_count()) }
func H_P02_charval() { checkForest(sc_charval()) }
func H_P02_twochar() { checkForest(sc_twochar()) }
func H_P02_numval()  { checkForest(sc_numval()) }
func H_P02_core()    { checkForest(sc_core()) }
func H_P02_T()       { checkForest(sc_T()) }

func H_P03_seq()     { checkBSR(sc_seq()) }
func H_P03_nest()    { checkBSR(sc_nest()) }
func H_P03_rep2()    { checkBSR(sc_rep2()) }
func H_P03_pair()    { checkBSR(sc_pair()) }
func H_P03_trio()    { checkBSR(sc_trio()) }
func H_P03_large()   { checkBSR(sc_large()) }
func H_P03_count()   { checkBSR(sc_count()) }
func H_P03_charval() { checkBSR(sc_charval()) }
func H_P03_twochar() { checkBSR(sc_twochar()) }
func H_P03_numval()  { checkBSR(sc_numval()) }
func H_P03_core()    { checkBSR(sc_core()) }
func H_P03_T()       { checkBSR(sc_T()) }
func H_P02_mix()     { checkForest(sc_mix()) }
func H_P02_tmpl()    { checkForest(sc_tmpl()) }
func H_P02_long()    { checkForest(sc_long()) }
func H_P02_edge()    { checkForest(sc_edge()) }
func H_P03_edge()    { checkBSR(sc_edge()) }
func H_P02_deep()    { checkForest(sc_deep()) }
func H_P03_mix()     { checkBSR(sc_mix()) }
func H_P03_tmpl()    { checkBSR(sc_tmpl()) }
func H_P03_long()    { checkBSR(sc_long()) }
func H_P03_deep()    { checkBSR(sc_deep()) }
