package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P01_edge"] = H_P01_edge
	Registry["H_P01_deep"] = H_P01_deep
	Registry["H_P01_long"] = H_P01_long
	Registry["H_P01_tmpl"] = H_P01_tmpl
	Registry["H_P01_mix"] = H_P01_mix
	Registry["H_P01_seq"] = H_P01_seq
	Registry["H_P01_nest"] = H_P01_nest
	Registry["H_P01_rep2"] = H_P01_rep2
	Registry["H_P01_pair"] = H_P01_pair
	Registry["H_P01_trio"] = H_P01_trio
	Registry["H_P01_large"] = H_P01_large
	Registry["H_P01_count"] = H_P01_count
	Registry["H_P01_charval"] = H_P01_charval
	Registry["H_P01_twochar"] = H_P01_twochar
	Registry["H_P01_numval"] = H_P01_numval
	Registry["H_P01_core"] = H_P01_core
	Registry["H_P01_T"] = H_P01_T
}

func recognizes(g *abnf.Grammar, root string, in []byte) bool {
	ok, err := g.IsValid(root, in)
	sym.Assert(err == nil, "IsValid reports an error for a defined rule")
	return ok
}

func checkRecognizer(g *abnf.Grammar, root string, in []byte) {
	sym.Note("grammar", text(g))
	sym.Note("input", string(in))
	ok := recognizes(g, root, in)
	want := newRef(g, in).valid(root)
	sym.Assert(ok == want, "IsValid differs from the language of the grammar")
	witness(ok)
}

func H_P01_seq()     { checkRecognizer(sc_seq()) }
func H_P01_nest()    { checkRecognizer(sc_nest()) }
func H_P01_rep2()    { checkRecognizer(sc_rep2()) }
func H_P01_pair()    { checkRecognizer(sc_pair()) }
func H_P01_trio()    { checkRecognizer(sc_trio()) }
func H_P01_large()   { checkRecognizer(sc_large()) }
func H_P01_count()   { checkRecognizer(sc_count()) }
func H_P01_charval() { checkRecognizer(sc_charval()) }
func H_P01_twochar() { checkRecognizer(sc_twochar()) }
func H_P01_numval()  { checkRecognizer(sc_numval()) }
func H_P01_core()    { checkRecognizer(sc_core()) }
func H_P01_T()       { checkRecognizer(sc_T()) }
func H_P01_mix()     { checkRecognizer(sc_mix()) }
func H_P01_tmpl()    { checkRecognizer(sc_tmpl()) }
func H_P01_long()    { checkRecognizer(sc_long()) }
func H_P01_edge()    { checkRecognizer(sc_edge()) }
func H_P01_deep()    { checkRecognizer(sc_deep()) }
