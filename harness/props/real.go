package props

import (
	"verif/harness/sym"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	Registry["H_P01_real"] = H_P01_real
	Registry["H_P02_real"] = H_P02_real
	Registry["H_P03_real"] = H_P03_real
	Registry["H_P04_real"] = H_P04_real
	Registry["H_P05_real"] = H_P05_real
	Registry["H_P22_real"] = H_P22_real
	Registry["H_P09_real"] = H_P09_real
	Registry["H_P10_real"] = H_P10_real
	Registry["H_P11_real"] = H_P11_real
	Registry["H_P12_real"] = H_P12_real
	Registry["H_P13_real"] = H_P13_real
	Registry["H_P14_real"] = H_P14_real
	Registry["H_P15_real"] = H_P15_real
	Registry["H_P18_real"] = H_P18_real
	Registry["H_P23_real"] = H_P23_real
	Registry["H_P24_real"] = H_P24_real
	Registry["H_P26_real"] = H_P26_real
}

// real grammars of ordinary size, each with a text of its first rule.
type real struct {
	g    *abnf.Grammar
	root string
	word string
	rec  bool
}

func makeReal(root, word string, rec bool, abnfText string) real {
	ds, ok := readABNF([]byte(abnfText))
	if !ok {
		panic("not ABNF: " + abnfText)
	}
	g, v := denoted(ds, false)
	if v != okGrammar {
		panic("not a grammar: " + abnfText)
	}
	return real{g, root, word, rec}
}

var reals = []real{
	makeReal("date", "2024-05T10:30.5Z", false,
		"date = 4DIGIT \"-\" 2DIGIT [\"T\" 2DIGIT \":\" 2DIGIT [\".\" 1*DIGIT] (\"Z\" / (\"+\" / \"-\") 2DIGIT)]\r\n"),
	makeReal("ip", "192.255", false,
		"ip = oct \".\" oct\r\noct = DIGIT / %x31-39 DIGIT / \"1\" 2DIGIT / \"2\" %x30-34 DIGIT / \"25\" %x30-35\r\n"),
	makeReal("u", "Ab+://h.x:80/%4F", false,
		"u = scheme \":\" \"//\" host [\":\" 1*5DIGIT] *(\"/\" *pchar)\r\nscheme = ALPHA *(ALPHA / digit / \"+\" / \"-\" / \".\")\r\nhost = 1*(alpha / DIGIT / \".\")\r\npchar = ALPHA / \"%\" 2HEXDIG\r\n"),
	makeReal("key", "SELECT", false,
		"key = \"select\" / %s\"SELECT\" / \"sel\" %s\"ECT\" / *\"s\" \"elect\" [\"ed\"]\r\n"),
	makeReal("s", "abcdef", false,
		"s = %x61.62.63.64.65.66 / %s\"abcdeF\" / %d97-102 1*5\"b\" / %b1100001-1100010 \"bcde\" %x66\r\n"),
	makeReal("f", "a,\"b\"\"\"\r\nc", false,
		"f = rec *(CRLF rec) [CRLF]\r\nrec = fld *(\",\" fld)\r\nfld = *(%x20-21 / %x23-2B / %x2D-7E) / DQUOTE *(%x20-21 / %x23-7E / 2DQUOTE) DQUOTE\r\n"),
	makeReal("t", "A\u00e9\u4e16\U0001f600", false,
		"t = 1*(%x41-5A / %xE9 / %x4E00-9FFF / %x1F600-1F64F)\r\n"),
	makeReal("v", "[1,[true]]", true,
		"v = \"[\" [v *(\",\" v)] \"]\" / %s\"true\" / %s\"false\" / 1*DIGIT\r\n"),
	makeReal("e", "1+(2*3)-4", true,
		"e = e (\"+\" / \"-\") t / t\r\nt = T \"*\" f / f\r\nf = \"(\" E \")\" / 1*digit\r\n"),
	makeReal("st", "iixex", true,
		"st = \"i\" st / \"i\" ST \"e\" st / \"x\"\r\n"),
}

func aReal(recursive bool) real {
	n := len(reals)
	if !recursive {
		n -= 3
	}
	return reals[sym.Choice(n)]
}

// altered is a text with one octet replaced by any, added or removed, or cut
// off somewhere.
func altered(w string) []byte {
	in := []byte(w)
	p := sym.Choice(len(in))
	switch sym.Choice(4) {
	case 0:
		in[p] = sym.Byte()
	case 1:
		in = in[:p]
	case 2:
		in = append(in[:p], in[p+1:]...)
	case 3:
		in = append(in[:p], append([]byte{sym.Byte()}, in[p:]...)...)
	}
	return in
}

func sc_real() (*abnf.Grammar, string, []byte) {
	r := aReal(true)
	return r.g, r.root, altered(r.word)
}

func gf_real(recursive bool) (*abnf.Grammar, string) {
	r := aReal(recursive)
	return r.g, r.root
}

func H_P01_real() { checkRecognizer(sc_real()) }
func H_P02_real() { checkForest(sc_real()) }
func H_P03_real() { checkBSR(sc_real()) }
func H_P04_real() { checkCount(sc_real()) }
func H_P05_real() { checkTree(sc_real()) }
func H_P22_real() { checkError(sc_real()) }

func H_P09_real() {
	g, root := gf_real(true)
	checkGenerate(g, root, 10+2*sym.Tier(), 2, 6)
}

func H_P10_real() {
	g, root := gf_real(true)
	checkAST(g, root, octets(4+sym.Tier()), 3, 8, 2)
}

func H_P11_real() {
	g, root := gf_real(false)
	checkGen(g, root, octets(4), 12, 2, 24, tgOptsT()...)
}

func H_P12_real() {
	g, root := gf_real(false)
	checkMiss(g, root, octets(3+sym.Tier()))
}

func H_P13_real() {
	r := aReal(false)
	in := []byte(r.word)[:sym.Choice(len(r.word)+1)]
	if sym.Choice(2) == 1 {
		in = append(in, sym.Byte())
	}
	checkNext(r.g, r.root, in)
}

func H_P14_real() {
	r := aReal(true)
	checkRegex(r.g, r.root, altered(r.word))
}

func H_P15_real() {
	r := aReal(false)
	checkGraph(r.g, r.root, altered(r.word))
}

func H_P26_real() {
	r := aReal(true)
	if run := generated(r.g, r.root); run != nil {
		checkParser(r.g, r.root, run, altered(r.word))
	}
}

// nearly is a text with one of few octets replaced by any.
func nearly(w string) []byte {
	in := []byte(w)
	in[sym.Choice(3)*(len(in)-1)/2] = sym.Byte()
	return in
}

func H_P18_real() {
	r := aReal(true)
	checkTotal(r.g, r.root, nearly(r.word))
}

func H_P23_real() {
	r := aReal(true)
	checkPure(r.g, r.root, nearly(r.word))
}

func H_P24_real() {
	r := aReal(true)
	checkSame(r.g, r.root, nearly(r.word))
}
