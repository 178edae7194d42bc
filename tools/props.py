# Executed by spec.py.
ENGINES = "Existing tests run fixed grammars on fixed inputs and a fuzz corpus; "
prop("P01", "The validity check accepts exactly the language of the grammar",
 "For every grammar, every defined rule of it and every octet string, the validity check answers true exactly when the whole string can be derived from that rule under RFC 5234/7405, and reports no error. This includes left, right, mutual and hidden recursion, rules and elements matching the empty string, ambiguous grammars, bounded and unbounded repetitions of any size, case-sensitive and case-insensitive strings, numeric terminals and core rules.",
 ["inputs", "programs"], "all grammars, all start rules, all inputs",
 ENGINES + "recursion, nullability and repetition interact in ways only specific combinations of grammar and input reveal.",
 ["recognize.go", "leftrec.go", "grammar.go", "rules.go"],
 [("set-of-ends evaluation with memoisation", "recognize.go reachElem"), ("seed growing for left recursion", "recognize.go reachLeftRec"), ("left-recursive components", "leftrec.go leftRecursiveSCCs")])
fam("P01", ["seq", "real", "nest", "rep2", "pair", "trio", "large", "count", "charval", "twochar", "numval", "edge", "core", "mix", "tmpl", "long", "deep", "gaps", "ring", "reuse"], AR, ["trio", "nest"])
skip("P01_T")
prop("P02", "The forest parser accepts exactly the language of the grammar",
 "For every grammar, defined rule and octet string, the forest parser succeeds and declares the input valid exactly when the whole input is derivable from the rule under RFC 5234/7405. A tree is offered exactly for valid inputs and a parse error exactly for invalid ones.",
 ["inputs", "programs"], "all grammars, all start rules, all inputs",
 ENGINES + "the parser's shared stack and counted repetitions misbehave only for particular interactions.",
 ["sppf.go", "grammar.go"],
 [("GLL descriptors and graph-structured stack", "sppf.go gllParser"), ("counted repetition carried in parser state", "sppf.go addRepAlts/capRC"), ("lowering of groups, options, repetitions", "sppf.go lowerer")])
fam("P02", ["seq", "real", "nest", "rep2", "pair", "trio", "large", "count", "charval", "twochar", "numval", "edge", "core", "mix", "tmpl", "long", "deep", "gaps", "ring", "reuse"], AR, ["trio", "nest"])
skip("P02_T")
prop("P03", "The binary-subtree parser accepts exactly the language of the grammar",
 "For every grammar, defined rule and octet string, the binary-subtree-set parser succeeds and declares the input valid exactly when the whole input is derivable from the rule, hence it always agrees with the forest parser and the validity check. A tree is offered exactly for valid inputs.",
 ["inputs", "programs"], "all grammars, all start rules, all inputs",
 "The differential tests compare the engines on a fixed corpus only.",
 ["bsr.go", "sppf.go"], [("BSR element recording", "bsr.go record/create/pop"), ("completeness test", "bsr.go Valid")])
fam("P03", ["seq", "real", "nest", "rep2", "pair", "trio", "large", "count", "charval", "twochar", "numval", "edge", "core", "mix", "tmpl", "long", "deep", "gaps", "ring", "reuse"], AR, ["trio", "nest"])
skip("P03_T")
prop("P04", "Tree counts and ambiguity verdicts are exact in both forest engines",
 "For every grammar and input, both forest representations report as number of trees exactly the number of distinct derivations of the input from the start rule: 0 when it is invalid and -1 when there are infinitely many. They report ambiguity exactly when that number is neither 0 nor 1, and hence always agree with each other.",
 ["inputs", "programs"], "all grammars, all start rules, all inputs",
 "Tests compare counts for a handful of ambiguous grammars; sharing of forest nodes goes wrong only for particular repetitions and alternatives.",
 ["sppf.go", "bsr.go"], [("packed alternatives", "sppf.go addPack"), ("counting over the forest", "sppf.go NumTrees/Ambiguous"), ("counting over BSR extents", "bsr.go NumTrees/Ambiguous")])
fam("P04", ["seq", "real", "nest", "rep2", "pair", "trio", "large", "count", "mix", "tmpl", "long", "deep", "gaps", "ring", "reuse"], ["none", "one"], ["trio", "nest", "large", "deep", "seq"])
skip("P04_T")
prop("P05", "Extracted parse trees are genuine derivations",
 "For every grammar and valid input with finitely many derivations, the tree extracted from either forest starts at the start rule, covers the whole input, has contiguous children, and every rule node's children spell an expansion of that rule's definition, with its repetition counts. With infinitely many derivations the tree is still finite and properly nested; for invalid inputs there is no tree.",
 ["inputs", "programs"], "all grammars, all start rules, all inputs",
 "Tests look at trees of a few grammars; a wrong packing or a node shared between repetition counts needs a particular ambiguous or nullable shape.",
 ["sppf.go", "bsr.go"], [("tree extraction from the forest", "sppf.go Tree/collect"), ("tree extraction from BSR", "bsr.go Tree/collectElem")])
fam("P05", ["seq", "real", "nest", "rep2", "pair", "trio", "large", "count", "mix", "tmpl", "long", "deep", "gaps", "ring", "reuse"], ["tree"], ["trio", "nest", "large", "deep", "seq"])
skip("P05_T")
prop("P22", "Parse errors locate the furthest point reached and what was expected",
 "For every grammar and rejected input, the parse error's offset is the furthest position a left-to-right parse reaches, and its expected list is, sorted and without duplicates, exactly the terminals that could have been consumed there. Line, column, the description of the octet found (or end of input) and the bare line-feed hint follow from the offset and the input.",
 ["inputs", "programs"], "all grammars, all start rules, all rejected inputs",
 "Tests check a few malformed texts.",
 ["errors.go", "sppf.go"], [("furthest-failure tracking", "sppf.go noteFail/noteReached"), ("error construction", "errors.go newParseError")])
fam("P22", ["seq", "real", "nest", "pair", "count", "mix", "tmpl", "long", "deep"], ["error", "expected"], ["nest", "seq", "deep"])
har("P22_octets", "two line-structured grammars; every input of <=3 octets", "every input of <=4 octets", "longer inputs", ["error", "hint"])
skip("P22_T")
prop("P08", "Numeric terminals denote exactly the code points they write",
 "For every numeric terminal (binary, decimal, hexadecimal; single value, concatenation or range; numerals of any length, leading zeros and letter case), every recognizer matches exactly the UTF-8 encodings of the code points it denotes. Values that are no Unicode scalar value (surrogates, beyond U+10FFFF, beyond any machine word) never match and never wrap around to a smaller value; ill-formed UTF-8 is never matched.",
 ["inputs", "programs"], "all numeric terminals, all inputs",
 "Boundary values of numerals and encodings are far too many to sample, and wrap-around appears only beyond machine words.",
 ["rules.go", "recognize.go", "sppf.go", "utils.go"], [("numeral conversion", "utils.go"), ("terminal matching", "rules.go/sppf.go")])
har("P08_range", "ranges between any two of 18 boundary values (encoding boundaries, surrogates, U+10FFFF, 2^31, 2^32+65), hexadecimal; every input of 1..3 octets", "all bases, inputs of <=4 octets", "other end points", AR)
har("P08_astral", "ranges between 6 boundary values beyond the BMP; every input of 4 octets starting with 0xF0 or more", "", "other end points", AR)
har("P08_series", "series of 1 or 2 of the 18 boundary values in each base; every input of <=4 (one value) or <=2 octets", "every input of <=4 octets", "other values, longer series", AR)
har("P08_huge", "numerals of up to 100 digits with leading zeros in each base as series, upper or lower end of a range; every input of 1..3 octets", "inputs of <=4 octets", "other digits", AR)
har("P08_digits", "every hexadecimal numeral of <=4 digits as a single value; every input shaped as one 1-3 octet sequence", "", "longer numerals", AR)
prop("P19", "Semantic validation accepts exactly the semantically sound grammars",
 "For every grammar, semantic validation reports no error exactly when every rule name referred to is defined (in the grammar or as a core rule, in any spelling), every bounded repetition has min <= max and every numeral of a numeric terminal is a Unicode code point; otherwise the error it reports names a fault the grammar really has. It looks into every rule and every nested group, option and repetition.",
 ["inputs", "programs"], "all grammars",
 "Faults hide at any nesting depth, in any alternative of any rule.",
 ["grammar.go", "rules.go", "abnf.go"], [("semantic validation", "grammar.go SemvalABNF")])
har("P19_shape", "one rule, <=2 leaves out of 9 (defined, undefined, core and recursive references, numerals in and out of range) and itself, <=1 repetition out of 2 (one inverted), <=1 group/option", "<=2 groups/options", OUT, ["valid", "dep", "rep", "num"])
har("P19_two", "1..3 rules, each with one of the 9 leaves, bare or nested two levels deep", "", OUT, ["valid", "dep", "num"])
har("P19_num", "every numeral of <=7 hex, <=8 decimal digits (all digits symbolic) and long binary ones, either case of the base letter, in series or range", "", "longer numerals", ["valid", "num"])
har("P19_count", "every repetition with min 0..40 and max 0..40 or unbounded, of a terminal or option, bare or in a group", "", "larger bounds", ["valid", "rep"])
prop("P20", "Rule names are case-insensitive and core rules are always defined",
 "For every spelling of every rule name, at its definition, at its uses and as the start rule, all services treat the name as the same rule. The sixteen core rules exist in every grammar without being declared; a grammar's own definition of one takes precedence everywhere it is used, also inside other core rules. Asking for a rule that is not defined is an error, never a crash or a verdict.",
 ["inputs", "programs"], "all spellings, all grammars, all rule names",
 "Spellings multiply with uses; tests use canonical spellings.",
 ["rules.go", "grammar.go", "dag.go"], [("rule lookup", "utils.go GetRule, getRuleIn"), ("core rules", "rules.go coreRules")])
har("P20_names", "a recursive two-rule grammar under every spelling of every definition, use and start name; inputs of <=3 letters", "", OUT, AR)
har("P20_override", "one of 4 core rules redefined, used together with one of 3 core rules that depend on it, 2 spellings; inputs of <=2 octets", "4 spellings, every input of <=2 octets", "other redefinitions", AR)
har("P20_core", "every core rule in 4 spellings as start or through a rule; every input of <=2 octets", "", "longer inputs", AR)
har("P20_unknown", "every name of <=9 characters that differs in one arbitrary 7-bit character from a prefix of \"rule-digit\", asked of 9 services", "", "other names", ["known", "unknown"])
prop("P21", "Cycle detection is exact and independent of map order",
 "For every grammar, the grammar is reported acyclic exactly when no rule (core rules included) refers to itself directly or through others, and a rule is reported to contain a cycle exactly when it reaches a rule that reaches itself. The verdicts do not depend on the order in which rules are visited, on spelling, or on references to undefined rules, and look into nested groups, options and repetitions.",
 ["inputs", "programs", "schedules"], "all grammars, all start rules, all iteration orders of the rule map",
 "Go randomises map order, so a wrong component computation shows only under particular orders.",
 ["dag.go"], [("Tarjan components", "dag.go strongconnect"), ("reachability of a cycle", "dag.go ruleCycleVisit")])
har("P21_graph", "every dependency relation between 3 rules; 19 rotations of the map order and their reverses", "4 rules", "larger grammars, other permutations", ["dag", "cycle"])
har("P21_nested", "two rules, references out of 6 (spellings, undefined, core), nested in 5 ways", "", OUT, ["dag", "cycle"])
har("P21_core", "one or two redefined core rules referring to each other and a user rule; 18 rotations of the map order and their reverses", "", OUT, ["dag", "cycle"])
prop("P06", "Reading ABNF accepts exactly ABNF text and yields the grammar it denotes",
 "For every octet string, reading it as ABNF (validation aside) succeeds exactly when it is a rule list of RFC 5234 with errata 2968/3076 and RFC 7405, and the resulting grammar has exactly the rules, alternatives, sequences, repetition bounds, groups, options, strings with their case sensitivity, numeric terminals and prose that the text denotes, however it is spaced, commented and folded over lines. Other text is refused with a parse error.",
 ["inputs"], "all octet strings",
 "Tests read a corpus of well-formed grammars and a few malformed ones; a deviation needs a particular octet at a particular place.",
 ["grammar.go", "rules.go", "abnf.go"], [("meta-grammar", "rules.go abnf*"), ("evaluation of the parse tree", "grammar.go feval")])
har("P06_start", "arbitrary octets: texts of <=4, before =a (<=2), between r and a (<=3), after r=a (<=3)", "one octet more", "longer texts", AR)
har("P06_element", "r= followed by 1..2 arbitrary octets and one of 9 endings", "3 octets", "longer texts", AR)
har("P06_string", "6 openings of quoted strings and prose, <=2 arbitrary octets, 4 endings", "", "longer texts", AR)
har("P06_num", "numeric terminals in 6 base spellings with 1..2 arbitrary octets in 4 arrangements", "one octet more", "longer texts", AR)
har("P06_repeat", "repetition prefixes with 1..2 arbitrary octets in 6 arrangements, 3 elements", "", "longer texts", AR)
har("P06_edit", "12 texts, every single-octet replacement, insertion and deletion", "", "other texts", AR)
har("P06_space", "8 kinds of white space, comments and line ends at up to 3 places of 7 texts", "", "other texts", AR)
har("P06_shape", "every structure of <=2 leaves out of 4, <=1 repetition out of 3 kinds, <=1 group/option", "<=3 leaves out of 7, 6 kinds of repetition, <=2 groups/options", "larger structures", ["accept"])
har("P06_size", "16 repeated parts of a text (alternatives, nesting, digits, comments, rules ...), 13 multiplicities up to 33", "", "other sizes", AR)
har("P06_two", "two of 16 constructs with 6 separators in 3 contexts", "", "other texts", AR)
prop("P07", "A printed grammar reads back as the same grammar",
 "For every grammar that ABNF can express, both the plain and the pretty printer write ABNF text that denotes exactly that grammar, and reading it back yields the same rules: same names, alternatives, order, repetition bounds, case sensitivity, numerals and prose, whatever the map order.",
 ["inputs", "programs"], "all grammars expressible in ABNF",
 "Round trips are tested for a corpus; a printer defect needs a particular combination of construct and position.",
 ["abnf.go", "grammar.go"], [("printers of each construct", "abnf.go String"), ("grammar printers", "grammar.go String/PrettyPrint")])
har("P07_shape", "one rule, <=3 leaves out of 3 and itself, <=1 repetition out of 7 kinds, <=1 group/option", "<=2 repetitions, <=2 groups/options", "larger structures", ["printed"])
har("P07_values", "every quoted string of <=3 printable characters, every numeric terminal with <=3 numerals of <=2 digits, in 3 contexts", "", "longer values", ["printed"])
har("P07_rules", "1..3 rules with names of different lengths, 7 leaves, several map orders; read back by the library too", "", "more rules", ["printed"])
har("P07_prose", "prose of <=2 arbitrary octets, read and printed", "", "longer prose", ["printed", "refused"])
har("P07_count", "182 pairs of repetition bounds, some of them large, 7 elements", "", "other bounds", ["printed"])
prop("P25", "Definitions add up as written and never leak into other grammars",
 "For every list of definitions: an incremental definition appends its alternatives, in order, to the rule of that name in any spelling; incrementing an unknown rule, defining a rule twice, and touching a core rule without permission are refused with the matching error; with permission a core rule is replaced or extended in that grammar only. With validation on, exactly the semantically sound grammars are returned. Reading one text never affects what another text means.",
 ["inputs", "histories"], "all lists of definitions, all options, all histories of reads",
 "Interference shows only when particular texts are read one after the other.",
 ["grammar.go", "option.go"], [("rule list evaluation", "grammar.go feval.rulelist")])
har("P25_rules", "1..3 definitions over 3 spellings of 2 names, = or =/, the last one with 6 bodies (undefined reference, inverted repetition, large numeral ...), validation on and off", "<=4 definitions", "longer lists", ["accept", "duplicate", "increment", "semantics"])
har("P25_core", "1..2 (3) definitions over core and user names in several spellings, = or =/, all options", "<=3 definitions", "longer lists", ["accept", "core", "duplicate", "increment", "semantics"])
har("P25_text", "7x7 pairs of texts read as x, y, x, with and without permission to touch core rules", "", "other texts", ["accept", "reject"])
GENF = {
 "seq": ("one rule, <=2 leaves (letters, a two-letter string, \"\", the rule itself), <=1 repetition out of 8 kinds, <=1 group/option", "<=3 leaves"),
 "flat": ("one rule without recursion, <=2 leaves (two letters, \"\"), <=1 repetition out of 8 kinds, <=1 group/option", "<=3 leaves, <=2 repetitions"),
 "pair": ("two rules of <=2 leaves referring to themselves and each other, one group/option", "<=3+2 leaves with repetitions"),
 "dag": ("r of <=2 slots out of 6 (letter, references in different spellings, repeated, optional, grouped), s and t one of 3 definitions each", "<=3 slots"),
 "odd": ("18 unusual elements (undefined, unmatchable, surrogate, huge, empty, recursive, prose, non-ASCII ...) in 9 contexts", "pairs of unusual elements"),
 "chars": ("every printable quoted string of <=2 characters, case-sensitive or not", ""),
 "core": ("every core rule, as root or through a rule", ""),
 "range": ("ranges between any two of 18 boundary values, hexadecimal", "all bases"),
 "count": ("every repetition with bounds 0..3 / 0..3 or unbounded of 4 kinds of elements, then an optional letter", "bounds up to 4"),
}
def gfam(pid, names, q, t, outside, reach, **kw):
    for n in names:
        a, b = GENF[n]
        r = reach(n) if callable(reach) else reach
        har(f"{pid}_{n}", a + "; " + q, "; ".join(x for x in (b, t) if x), outside, r, **kw)
GO = "larger grammars, longer tapes and budgets"
prop("P09", "Generate emits only productions of the rule, and one whenever there is one",
 "For every grammar, rule, seed and setting of repetition and length limits, Generate terminates; if the rule derives at least one text (of fewer than 2^30 octets) it returns, without error, a text that the rule derives, and otherwise an error. This covers recursive rules, references in any spelling, unmatchable alternatives, core rules, ranges across encoding boundaries and surrogates, case-insensitive strings and all repetition bounds.",
 ["inputs", "programs", "histories"], "all grammars, all rules, all outcomes of the random source, all limits",
 "Tests draw a few seeds on a few grammars; a wrong text may need one particular sequence of draws.",
 ["generate.go", "ast.go"], [("random generation", "generate.go Generate, generateAlt"), ("refusal of rules without production", "generate.go checkCanGenerateSafely")])
gfam("P09", ["seq", "pair", "dag", "odd", "chars", "core", "range", "count"], "every sequence of 8 draws (each 8 bits; further draws 0), repetition limit 2, length threshold 2 (count: limits 0..3)", "10 draws", "larger grammars, more draws, draws wider than 8 bits", lambda n: ["generated", "refused"] if n in ("seq", "pair", "odd") else ["generated"], retries=400)
prop("P10", "The AST generator emits only productions of its rule, whatever the tape",
 "For every grammar and rule, constructing an AST generator fails exactly when an undefined rule is reachable or some reachable rule derives no text (of fewer than 2^30 octets). Otherwise, for every tape (the empty one included) and every setting of depth, length and repetition limits, generating terminates with a text that the rule derives; the pseudo-random variant as well.",
 ["inputs", "programs"], "all grammars, all rules, all tapes, all limits",
 "Tests and fuzzing sample tapes on a few grammars; limits and unproductive alternatives interact.",
 ["ast.go"], [("generation from a tape", "ast.go"), ("shortest completion", "ast.go")])
gfam("P10", ["seq", "pair", "dag", "odd", "chars", "core", "range", "count"], "every tape of <=4 octets, depth limit 2, length 3, repetitions 2 (count: all limits up to 3)", "tapes of <=6 octets", GO, lambda n: ["generated", "refused"] if n in ("seq", "pair", "odd", "range") else ["generated"])
har("P10_rand", GENF["dag"][0] + "; every sequence of 8-bit draws", GENF["dag"][1], GO, ["generated"])
har("P10_null", "rules recurring up to 3 times without emitting anything, in 3 shapes, default limits; tapes of 0 or 64 equal octets", "", GO, ["generated"], steps=1500000000, hang=True, secs=120)
prop("P11", "The graph generator emits only productions of its rule, whatever the tape",
 "For every grammar and non-recursive rule, a generator can be built exactly when the rule is valid and derives some text; then for every tape and every setting of length, repetition and step limits, with or without stable addressing and whichever terminals the graph takes apart, generating terminates with a text the rule derives; the pseudo-random variant as well. With stable addressing, editing the four octets of one decision changes no other decision: of a rule made of independent choices, at most one part of the text.",
 ["inputs", "programs"], "all grammars, all rules without recursion, all tapes, all limits",
 "Tests and fuzzing sample tapes; a wrong step needs a particular octet at a particular node.",
 ["fuzz.go", "transition_graph.go"], [("walk of the graph", "fuzz.go Generator.Generate"), ("shortest completion", "fuzz.go NewGenerator")])
gfam("P11", ["flat", "dag", "odd", "chars", "core", "range", "count"], "every tape of <=3 octets, length limit 3, repetitions 2, steps 5 (count: all limits up to 3), 3 ways of taking terminals apart, both addressings", "tapes of <=4 octets", GO, lambda n: ["generated", "refused"] if n in ("odd", "count") else ["generated"])
har("P11_rand", GENF["dag"][0] + "; every sequence of 8-bit draws", GENF["dag"][1], GO, ["generated"])
har("P11_local", "2..3 independent parts out of 4 (three letters, ranges of 26 and 464 values, a letter of either case), every pair of tapes that differ in the lower 16 bits of one slot", "", GO, ["edited"])
prop("P12", "A near miss never belongs to the language",
 "For every grammar, non-recursive rule and tape, whenever the generator offers a near miss, the text it offers is not derivable from the rule and its label is not empty; when it offers none, it returns neither text nor label. The pseudo-random variant as well.",
 ["inputs", "programs"], "all grammars, all rules without recursion, all tapes",
 "Tests sample near misses of a few grammars; a mutation that happens to stay in the language needs a particular grammar and tape.",
 ["fuzz.go"], [("mutations", "fuzz.go NearMiss")])
gfam("P12", ["flat", "dag", "chars", "range", "count"], "every tape of <=2 octets (range: 3)", "tapes of <=4 octets", GO, lambda n: ["miss"])
har("P12_touch", "two out of 8 terminals that touch or overlap, in 4 arrangements; every tape of 4 octets", "tapes of 5 octets", GO, ["miss"])
har("P12_rand", GENF["flat"][0] + "; every sequence of 16-bit draws", GENF["flat"][1], GO, ["miss"], thorough_only=True)
prop("P13", "ExpectedNext lists exactly the octets that can continue a prefix",
 "For every grammar, non-recursive rule and octet string, ExpectedNext reports exactly, sorted and without duplicates, the octets which, appended to the string, leave a prefix of some text of the rule (none when the string is no such prefix itself), and reports acceptance exactly when the string is a text of the rule. It gives up only on rules with enormous ranges.",
 ["inputs", "programs"], "all grammars, all rules without recursion, all prefixes",
 "Prefixes ending inside an encoded character or a repetition multiply with grammars.",
 ["fuzz.go"], [("octet-level walk", "fuzz.go ExpectedNext")])
EU = ["expected", "unexpected"]
gfam("P13", ["flat", "dag", "count"], "every prefix of <=2 letters and every next octet", "<=3 letters, 3 ways of taking terminals apart", "larger grammars, longer prefixes", EU)
har("P13_odd", GENF["odd"][0] + "; every prefix of <=2 octets, every next octet", GENF["odd"][1], "larger grammars, longer prefixes", EU)
har("P13_core", GENF["core"][0] + "; every prefix of <=2 octets, every next octet", "", "larger grammars, longer prefixes", EU)
har("P13_chars", "every printable quoted string of <=1 character; every prefix of <=1 octet, every next octet", "strings of <=2 characters", "longer prefixes", EU)
har("P13_range", "ranges of up to 3 values around 14 encoding boundaries, then an optional letter; every prefix of <=3 octets, every next octet", "up to 5 values", "wider ranges", EU)
har("P13_multi", "x / y *x with x, y out of 8 numeric terminals of several octets; every prefix of <=2 octets, every next octet", "<=3 octets", "other terminals", EU)
prop("P14", "The regular expression denotes exactly the language of the rule",
 "For every grammar and rule, Regex either returns a pattern that, anchored, matches exactly the octet strings the rule derives, or an error; it returns an error exactly when the rule reaches a recursion, an undefined rule or prose, the pattern would exceed its length limit, or the pattern language (RE2) does not admit it because its repetition counts multiply, along their nesting, to more than 1000. Every pattern returned is one Go's regexp compiles. Characters special to patterns, classes built from ranges, case-insensitivity, surrogates, non-ASCII characters and all other repetition bounds are covered.",
 ["inputs", "programs"], "all grammars, all rules, all inputs",
 "Tests compare a few patterns textually; a wrong merge into a class needs particular neighbours.",
 ["regex.go"], [("pattern builder", "regex.go")])
for n, q, t in (("flat", "inputs of <=3 letters", ""), ("dag", "inputs of <=3 letters", ""), ("odd", "every input of <=2 octets", "<=3 octets"), ("chars", "every input of <=2 octets", "<=3 octets"), ("core", "every input of <=2 octets", ""), ("range", "every input of <=4 octets", ""), ("count", "inputs of <=5 letters", "")):
    har("P14_" + n, GENF[n][0] + "; " + q, "; ".join(x for x in (GENF[n][1], t) if x), OUT, AR)
har("P14_nest", "one rule, <=2 leaves out of 3, <=2 nested groups/options, <=1 repetition out of 3 kinds; inputs of <=3 letters", "<=3 leaves, <=2 repetitions", OUT, AR)
har("P14_rec", GENF["pair"][0] + "; inputs of <=2 letters", GENF["pair"][1], OUT, AR + ["refused"])
har("P14_limit", "9 counts around 1000 as exact, upper or lower bound, of 5 elements, one repeated itself with 4 counts; inputs of <=3 letters", "", OUT, AR + ["refused"])
har("P14_class", "three alternatives out of 18 characters, ranges and strings, in 3 arrangements; every input of <=1..4 octets", "all combinations", OUT, AR)
har("P14_punct", "every three out of 13 characters, mostly special in patterns, as alternatives or repeated twice; every input of 1..2 octets", "17 characters", OUT, AR)
har("P14_len", GENF["dag"][0] + "; 7 length limits around the pattern's length", "", OUT, ["refused", "within"])
prop("P15", "The transition graph accepts exactly the language of the rule",
 "For every grammar and non-recursive rule, building the transition graph succeeds exactly when the rule can be expanded, and the octet strings spelt by the paths from an entry to an end point (together with the empty string where the graph says so) are exactly those the rule derives, with or without strings, numeric terminals and rules taken apart, for all repetition bounds.",
 ["inputs", "programs"], "all grammars, all rules without recursion, all options, all inputs",
 "Tests compare node counts of a few graphs; wrong wiring shows on one particular path.",
 ["transition_graph.go"], [("graph construction", "transition_graph.go"), ("unrolling of repetitions", "transition_graph.go"), ("deflation", "transition_graph.go")])
for n, q, t in (("flat", "inputs of <=3 letters", ""), ("dag", "inputs of <=3 letters", "<=4 letters"), ("count", "inputs of <=4 letters", "<=5 letters"), ("odd", "every input of <=3 octets", "<=4 octets"), ("chars", "every input of <=3 octets", ""), ("core", "every input of <=2 octets", "")):
    har("P15_" + n, GENF[n][0] + "; all ways of taking terminals apart; " + q, "; ".join(x for x in (GENF[n][1], t) if x), OUT, AR)
har("P15_nums", "two of 6 numeric terminals, one repeated in 6 ways, in sequence or through a rule used twice; taken apart or not; every input of <=3 octets", "", OUT, AR)
har("P15_nested", "repetitions (10 kinds) of groups and options holding repetitions (10 kinds); inputs of <=5 letters", "<=6 letters", OUT, AR)
prop("P16", "The graph readers enumerate what they promise, no more and no less",
 "For every grammar and non-recursive rule, the all-trails reader yields exactly the texts of the trails of the graph (each edge at most once), and every text either reader yields is derived from the rule; the compact reader shows every node, every edge and every value of every terminal (of a string, up to 2^30 spellings: letters beyond the thirtieth come in lower case only). Both readers end, then yield nothing more.",
 ["inputs", "programs"], "all grammars, all rules without recursion, both coverage modes",
 "Tests count the texts of a few graphs.",
 ["transition_graph.go", "fuzz.go"], [("all-trails reader", "transition_graph.go TransitionGraphReader"), ("compact coverage", "transition_graph.go buildCompact")])
for n, q in (("flat", "every text of <=3 letters"), ("dag", "every text of <=2 letters"), ("count", "every text of <=3 letters"), ("odd", "every text of <=2 octets")):
    har("P16_" + n, GENF[n][0] + "; " + q + " compared with the trails", GENF[n][1], OUT, ["read", "listed"])
har("P16_values", "rules of up to 3 slots whose leaves all have letters of their own, repeated, optional or alternative; every node, edge and value", "", OUT, ["covered"])
prop("P17", "Limits are honoured, reported as such, and change no answer they allow",
 "For every grammar, input and value of a limit (forest nodes, grammar slots, graph nodes, repetition threshold, pattern and production length, repetitions, depth, steps): work beyond the limit is refused with the error of that limit carrying its value, never with a wrong answer; when it is not refused, the answer is the one given without limit; raising a limit never turns an answer into a refusal; generators exceed their limits only as far as the rule forces them. Enormous repetition bounds are decided or refused without being unrolled.",
 ["inputs", "programs"], "all grammars, all inputs, all values of the limits",
 "Limits bite at one particular size of each grammar and input.",
 ["option.go", "sppf.go", "bsr.go", "transition_graph.go", "fuzz.go", "ast.go"], [("forest budget", "sppf.go findNode / bsr.go record"), ("slot budget", "sppf.go lowerer"), ("graph budget", "transition_graph.go"), ("generator limits", "fuzz.go/ast.go")])
RW = ["refused", "within"]
har("P17_forest", "a family of small ambiguous, nullable and recursive grammars, both engines, inputs of <=3 letters, 8 budgets", "", OUT, RW)
har("P17_slots", "the same grammars, both engines, inputs of <=2 letters, 6 budgets", "", OUT, RW)
har("P17_nodes", GENF["dag"][0] + "; 8 budgets", GENF["dag"][1], OUT, RW)
har("P17_deflate", "nested repetitions (6 by 6 kinds) of two of 5 terminals, 3 ways of taking them apart, 8 budgets", "", OUT, RW)
har("P17_threshold", "two repetitions with bounds up to 4 and 2, thresholds 1..4; inputs of <=3 letters", "", OUT, RW)
har("P17_walk", "repetitions of a letter, limits on length, repetitions and steps up to 4; every tape of 5 octets", "", GO, ["generated", "several"])
har("P17_ast", "repetitions of a letter, limits on length and repetitions up to 5; every tape of 4 octets", "", GO, ["generated", "several"])
har("P17_depth", "4 recursive rules, depth limits 0..4; every tape of 7 octets", "", GO, ["generated", "several"])
har("P17_gen", "repetitions of a letter or rule, limits on length and repetitions up to 5; every sequence of 20 draws", "", GO, ["generated", "several"], retries=400)
har("P17_regex", GENF["dag"][0] + "; 7 length limits around the pattern's length", "", OUT, ["refused", "within"])
har("P17_flat", GENF["flat"][0] + "; 7 length limits around the pattern's length", "", OUT, ["refused", "within"])
har("P17_empties", "repetition bounds 300 .. 2^63-1 as minimum, maximum or both, of 5 elements most of which may be empty, asked of the validity check, the forest engines and the generators; inputs of <=2 letters, tapes of <=1 octet, 1 draw", "", OUT, ["decided", "refused"], hang=True)
har("P17_huge", "repetition bounds 300 .. 2^62 as minimum, maximum or both, asked of every service; inputs of <=2 letters", "", OUT, ["decided", "refused"], hang=True)
prop("P18", "No grammar, rule name, input or tape makes the library crash or hang",
 "For every grammar (valid or not: undefined references, prose, unmatchable numerals, inverted repetitions, unproductive or any kind of recursive rules, deep nesting), every rule name, input and tape, each service returns in finite time with an answer or an error and never panics. Reading any octet string as ABNF returns a grammar or an error, never both or neither.",
 ["inputs", "programs"], "all grammars, all inputs, all services",
 "Crashes hide in combinations of faults no test combines.",
 ["grammar.go", "sppf.go", "bsr.go", "recognize.go", "transition_graph.go", "fuzz.go", "ast.go", "regex.go", "dag.go"], [("every public entry point", "grammar.go, sppf.go, bsr.go, transition_graph.go, fuzz.go, ast.go, regex.go")])
har("P18_odd", GENF["odd"][0] + "; every input or tape of <=2 octets, 14 services", GENF["odd"][1], OUT, ["answered"], hang=True, retries=20)
har("P18_rec", "two mutually recursive rules over 8 leaves (some faulty), optional, repeated or inverted; 14 services, inputs of one letter", "inputs of <=2 letters", OUT, ["answered"], hang=True, retries=20)
har("P18_count", GENF["count"][0] + "; inputs of <=2 letters, 14 services", "", OUT, ["answered"], hang=True, retries=20)
har("P18_deep", "nesting, alternatives and sequences of 1, 2, 17 and 40 levels or members, 14 services, inputs of <=2 letters", "", OUT, ["answered"], hang=True, retries=20)
har("P18_read", "8 beginnings of ABNF texts, then <=2 arbitrary octets, with and without line end and validation", "<=3 octets", "longer texts", ["answered"], hang=True)
prop("P23", "No service modifies the grammar, graph, input or tape it is given",
 "For every grammar, input and service (validity, both parsers, pattern, printers, dependency queries, validation, graphs, readers, generators), the grammar with all it refers to, the input or tape, the transition graph, and the core rules and the ABNF grammar shared by all grammars are exactly the same afterwards; readers and generators of one graph do not disturb each other and a generator answers alike later.",
 ["inputs", "programs", "histories"], "all grammars, all inputs, all services",
 "Aliasing shows only when a particular slice has spare room or a particular rule is expanded.",
 ["transition_graph.go", "grammar.go", "dag.go", "regex.go", "fuzz.go"], [("expansion of rules", "transition_graph.go"), ("copies of alternations", "grammar.go")])
har("P23_seq", "one rule, <=2 leaves, recursion, <=1 repetition out of 3 kinds, <=1 group/option; inputs of 0 or 2 letters, 13 services", GENF["seq"][1], OUT, ["asked"], retries=20)
har("P23_dag", GENF["dag"][0] + "; inputs of <=2 letters, 13 services", GENF["dag"][1], OUT, ["asked"], retries=20)
har("P23_odd", GENF["odd"][0] + "; inputs of <=2 octets, 13 services", GENF["odd"][1], OUT, ["asked"], retries=20)
har("P23_text", "6 grammars read from ABNF text; inputs of <=2 letters, 13 services", "", OUT, ["asked"], retries=20)
har("P23_graph", GENF["dag"][0] + "; readers, generators, near misses and continuations on one graph; every tape of one octet", "tapes of 2 octets, 3 ways of taking terminals apart", OUT, ["asked"], retries=20)
har("P23_plain", "one rule of <=3 leaves out of 2 and a rule left as a node, <=1 repetition out of 2 kinds, <=1 group/option; both readers, the generator and the flowchart", "3 ways of taking terminals apart", OUT, ["asked"])
prop("P24", "Answers depend only on the grammar's present content and the input",
 "For every grammar and question, the answer is a function of the rules the grammar now holds and of the input or tape: it does not depend on the iteration order of maps, on the order rules were added, on node identifiers, on questions asked before, or on what the grammar was before it was edited. (Which tree of an ambiguous input is extracted and the order in which rules are printed are not promised.)",
 ["inputs", "programs", "histories", "schedules"], "all grammars, all inputs, all services, all map orders, all histories of questions and edits",
 "Map order is random and caches matter only after particular histories.",
 ["grammar.go", "transition_graph.go", "fuzz.go", "leftrec.go", "dag.go"], [("caches of compiled grammars", "grammar.go"), ("ordering of graph nodes", "transition_graph.go, generate.go")])
har("P24_seq", "one rule, <=2 leaves, recursion, <=1 repetition out of 3 kinds, <=1 group/option; inputs of 1..2 letters, 13 services, 2 map orders", "more leaves and repetitions, 5 map orders", OUT, ["asked"], retries=200)
har("P24_dag", GENF["dag"][0] + "; inputs of one letter, 13 services, 2 map orders", GENF["dag"][1] + ", 5 map orders", OUT, ["asked"], retries=200)
har("P24_odd", GENF["odd"][0] + "; inputs of one octet, 13 services, 2 map orders", GENF["odd"][1] + ", 5 map orders", OUT, ["asked"], retries=200)
har("P24_rules", "four mutually recursive rules; inputs of <=3 letters, 13 services, 12 map orders", "", OUT, ["asked"], retries=200)
har("P24_edit", "two rules out of 5 and 2 definitions, the second replaced by any of 5 in 3 ways, after 4 other questions; inputs of one letter, 13 services", "all definitions, 8 other questions, inputs of <=2 letters", OUT, ["asked"], retries=20)

prop("P26", "Generated Go parsers compile and parse exactly the rule they were made for",
 "For every grammar and defined root, in any spelling, GenerateGoParser (and GenerateGoParserFromABNF on the text) yields Go source that compiles against the standard library alone, and whose Parse accepts exactly the inputs the root derives, reports the exact number of derivations (-1 when infinite) and whether there is more than one, and extracts a tree that is one of them. It never panics or fails on any input. An undefined root is an error.",
 ["inputs", "programs"], "all grammars, all roots, all inputs (including octets that are not UTF-8)",
 "The tests compile a handful of generated parsers; the emitted code differs for every shape of grammar.",
 ["codegen.go", "sppf.go"], [("emitted parse loop", "codegen.go emitProcess, emitCall, emitMatch"), ("emitted forest queries", "codegen.go queryBoilerplate")])
GM = dict(samples=12, models=["the generated source is type-checked and lowered to SSA at run time and executed symbolically like the rest; sampled paths are also compiled with the Go tool chain and run"])
har("P26_one", "one rule, <=2 leaves (a letter, \"\", the rule itself), <=1 repetition out of 3 kinds, <=1 group/option; inputs of <=3 letters", "8 kinds of repetition", OUT, AR, **GM)
har("P26_pair", "two mutually referring rules of <=2 leaves; inputs of <=3 letters", "with repetitions and groups", OUT, AR, **GM)
har("P26_rep", "repetitions (7 kinds) of 3 elements holding repetitions (7 kinds) of a letter or a nullable rule, then an option; inputs of <=3 letters", "inputs of <=4 letters", OUT, AR, **GM)
har("P26_count", "repetition bounds 0..3 / 0..3 or unbounded, of a letter, an ambiguous group, an option or a rule, then an optional letter; inputs of <=4 letters", "bounds up to 4", OUT, AR, **GM)
har("P26_odd", GENF["odd"][0] + "; inputs of <=2 octets", GENF["odd"][1] + "; inputs of <=3 octets", OUT, AR, **GM)
har("P26_text", "17 strings of letters at the edges of case folding, quotes, comment ends, backslashes and non-ASCII, sensitive or not, beside 2 other terminals; inputs of <=3 octets", "beside 5 other terminals", OUT, AR, **GM)
har("P26_core", "core rules, alone and repeated; inputs of <=2 octets", "", OUT, AR, **GM)
har("P26_range", "ranges and series at the edges of UTF-8 lengths; inputs of 1..3 octets", "", OUT, AR, **GM)
har("P26_mix", "r = X Y \"b\" / \"b\" with X, Y one of 6 (nullable, recursive, repeated, ambiguous), rule s one of 3; inputs of <=3 letters", "three such slots", OUT, AR, **GM)
har("P26_limit", "as P17_forest: small ambiguous and recursive grammars, 8 budgets of elements, inputs of <=3 letters", "", OUT, ["within", "refused"], **GM)
har("P26_root", "a grammar and its text, 9 spellings of defined, core and undefined roots; inputs of <=3 letters", "", OUT, AR + ["undefined"], **GM)
prop("P27", "Dependency graphs and flowcharts show exactly what there is",
 "For every grammar, the dependency graph has an entry for every rule of the grammar, under its lower-case name, listing in lower case and once each exactly the rule names its definition refers to, however nested, spelled or defined, and its flowchart has exactly those arrows. For every transition graph, the flowchart shows every node once, an arrow for every transition, the end nodes and entry nodes marked as such, and the empty text exactly when it is an entry.",
 ["inputs", "programs"], "all grammars, all transition graphs of their non-recursive rules",
 "Tests compare the diagrams of a few grammars; a missing or spurious edge needs a particular nesting or spelling.",
 ["dag.go", "transition_graph.go"], [("dependency collection", "dag.go getDependencies"), ("flowcharts", "dag.go Mermaid, transition_graph.go ToMermaid")])
har("P27_deps", "two rules holding 2 references out of 6 (spellings, undefined, core), nested in 6 ways, besides fixed ones; 2 rotations of the map order and their reverses", "3 references", OUT, ["dependencies"])
har("P27_shape", "every structure of <=2 leaves out of 3 and two rules, <=1 repetition out of 2 kinds, <=1 group/option", "<=3 leaves", OUT, ["dependencies"])
har("P27_core", "two core rules under 4 spellings each, used and possibly redefined", "", OUT, ["dependencies"])
gfam("P27", ["flat", "dag", "count"], "strings and numeric terminals taken apart or not", "", "larger grammars", ["arrows", "empty"])
har("P27_plain", "one rule of <=2 leaves out of 3 and a rule left as a node, <=1 repetition out of 2 kinds, <=1 group/option", "<=3 leaves", OUT, ["arrows", "empty"])
prop("P28", "Every short text of a rule is generated from some tape",
 "For every grammar and rule a generator is made for, and every text the rule derives that stays below the limits set on length, repetitions and depth, there is a tape from which the transition-graph generator (a non-recursive rule; with either addressing) and the AST generator (any rule) produce exactly that text; likewise a sequence of pseudo-random numbers. No alternative, optional part, repetition count, case of a letter (the first thirty of a string, in the graph) or value of a range is out of reach.",
 ["inputs", "programs"], "all grammars, all texts of their rules, some tape",
 "Tests see that what is generated is valid; that something is never generated no finite number of draws can tell.",
 ["fuzz.go", "ast.go"], [("decisions from the tape", "fuzz.go tapeSource.intn, indexedSource.intn"), ("walk of the graph", "fuzz.go Generator.walk"), ("expansion of rules", "ast.go ASTGenerator.walk, genRep, genElem")],
 note="For every text of up to 2 or 3 characters that the reference derives, the exploration of all tapes within the bounds must contain one that yields it (solver: satisfiable); a text none yields, all paths explored, is the violation, replayed by trying tapes natively. Trusted: the engine's interpretation of go/ssa (validated on sampled paths), z3, the reference.")
EX = "longer texts, larger grammars"
gfam("P28", ["flat", "dag"], "every text of <=2 letters; every tape of <=8 octets", "texts of <=3 letters (flat)", EX, ["covered"])
har("P28_chars", "8 strings, sensitive or not, 3 ways of taking terminals apart; every text of <=2 of 14 octets; every tape of 3 octets", "", EX, ["covered"])
har("P28_core", "every core rule; every text of one octet; every tape of 2 octets", "", EX, ["covered"])
har("P28_range", "ranges between any two of 18 edges; their texts of one character near an edge; every tape of 3 octets", "", EX, ["covered"])
har("P28_wide", "3 beginnings of a range by 18 sizes around 2^8 and 2^16; the first two, middle and last two values, by either generator; every tape of 4 octets", "", EX, ["covered"])
har("P28_count", "repetition bounds 0..2 / 0..2 or unbounded of 4 elements, then an option; every text of <=3 letters; every tape of 9 octets", "", EX, ["covered"])
har("P28_stable", "one rule, <=2 leaves, <=1 repetition out of 3 kinds, <=1 group/option; every text of <=2 letters; every tape of 7 small decisions", "", EX, ["covered"])
har("P28_rand", GENF["flat"][0] + "; every text of <=2 letters; every sequence of 7 draws", "", EX, ["covered"])
har("P28_aseq", "one possibly recursive rule, <=2 leaves out of 3 and itself, <=1 repetition out of 4 kinds, <=1 group/option; every text of <=2 letters; every tape of 8 octets", "", EX, ["covered"])
har("P28_apair", GENF["pair"][0] + "; every text of <=2 letters; every tape of 8 octets", "", EX, ["covered"])
har("P28_adag", GENF["dag"][0] + "; every text of <=2 letters; every tape of 18 octets", "", EX, ["covered"])
har("P28_achars", "as P28_chars", "", EX, ["covered"])
har("P28_acore", "as P28_core, tapes of 3 octets", "", EX, ["covered"])
har("P28_arange", "as P28_range", "", EX, ["covered"])
har("P28_acount", "as P28_count, tapes of 8 octets", "", EX, ["covered"])
har("P28_arand", "one possibly recursive rule, <=2 leaves, <=1 repetition out of 3 kinds, <=1 group/option; every text of <=2 letters; every sequence of 8 draws", "", EX, ["covered"])
REAL = FAM["real"][0].split(" and a text")[0]
har("P09_real", REAL + "; every sequence of 10 8-bit draws, repetition limit 2, length threshold 6", "12 draws", GO, ["generated"], retries=400)
har("P10_real", REAL + "; every tape of 4 octets, depth 3, length 8, repetitions 2", "tapes of 5 octets", GO, ["generated"])
har("P11_real", "the 7 non-recursive of " + REAL + "; every tape of 4 octets, both addressings, length 12, repetitions 2", "3 ways of taking terminals apart", GO, ["generated"])
har("P12_real", "the 7 non-recursive of " + REAL + "; every tape of 3 octets", "tapes of 4 octets", GO, ["miss"])
har("P13_real", "the 7 non-recursive of " + REAL + "; every prefix of a text of each, and any octet after it", "", OUT, ["expected", "unexpected"])
har("P14_real", FAM["real"][0], "", OUT, AR + ["refused"])
har("P15_real", "as P14_real, the 7 non-recursive ones", "", OUT, AR)
har("P18_real", REAL + "; a text of each with the first, middle or last octet replaced by any; 14 services", "", OUT, ["answered"], hang=True, retries=20)
har("P23_real", REAL + "; a text of each with the first, middle or last octet replaced by any; 13 services", "", OUT, ["asked"], retries=20)
har("P24_real", REAL + "; a text of each with the first, middle or last octet replaced by any; 13 services, 2 map orders", "5 map orders", OUT, ["asked"], retries=200)
har("P26_real", FAM["real"][0], "", OUT, AR, **GM)
