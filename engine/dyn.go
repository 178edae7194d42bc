package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const genAdapter = `package p

import "verif/harness/genrun"

func verifTree(t *ParseTree) *genrun.Tree {
	if t == nil {
		return nil
	}
	u := &genrun.Tree{Rule: t.Rule, Start: t.Start, End: t.End}
	for _, c := range t.Children {
		u.Children = append(u.Children, verifTree(c))
	}
	return u
}

func VerifRun(in []byte, max int) *genrun.Answer {
	if max >= 0 {
		MaxElements = max
	}
	r, err := Parse(in)
	if err != nil {
		return &genrun.Answer{Err: err.Error(), TooLarge: err == ErrTooLarge}
	}
	return &genrun.Answer{Valid: r.Valid(), Ambiguous: r.Ambiguous(), Num: r.NumTrees().String(), Elements: r.Elements(), Tree: verifTree(r.Tree())}
}
`

type dynPkg struct {
	init, run *Fn
	msg       string
}

type dynImporter struct{ P *Program }

func (d dynImporter) Import(path string) (*types.Package, error) {
	if p := d.P.byPath[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("package %s is not loaded", path)
}

// dynamic type-checks generated source and lowers it to SSA.
func (P *Program) dynamic(src string) *dynPkg {
	P.ssaMu.Lock()
	defer P.ssaMu.Unlock()
	if d := P.dyn[src]; d != nil {
		return d
	}
	d := &dynPkg{}
	if P.dyn == nil {
		P.dyn = map[string]*dynPkg{}
		P.byPath = map[string]*types.Package{}
		for _, p := range P.prog.AllPackages() {
			P.byPath[p.Pkg.Path()] = p.Pkg
		}
	}
	P.dyn[src] = d
	var files []*ast.File
	for i, s := range []string{src, genAdapter} {
		f, err := parser.ParseFile(P.prog.Fset, fmt.Sprintf("gen%d.go", i), s, parser.SkipObjectResolution)
		if err != nil {
			d.msg = err.Error()
			return d
		}
		files = append(files, f)
	}
	var errs []string
	conf := types.Config{Importer: dynImporter{P}, Error: func(err error) { errs = append(errs, err.Error()) }}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	pkg, _ := conf.Check(fmt.Sprintf("verif/gen/p%d", len(P.dyn)), P.prog.Fset, files, info)
	if len(errs) > 0 {
		d.msg = strings.Join(errs, "; ")
		return d
	}
	sp := P.prog.CreatePackage(pkg, files, info, false)
	sp.Build()
	d.init, d.run = P.fn(sp.Func("init")), P.fn(sp.Func("VerifRun"))
	return d
}

func (P *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	P.ssaMu.Lock()
	defer P.ssaMu.Unlock()
	return P.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func init() {
	intrinsics["verif/harness/genrun.Build"] = func(st *State, fn *Fn, a []Val) (Val, bool) {
		src, ok := strConc(a[0])
		if !ok {
			st.unsupported("generated source is symbolic")
		}
		d := st.P.dynamic(src)
		if d.msg != "" {
			if strings.Contains(d.msg, "is not loaded") {
				st.unsupported("%s", d.msg)
			}
			return Val{P: &Agg{F: []Val{{}, {}, mkStr(d.msg)}}}, true
		}
		return Val{P: &Agg{F: []Val{{P: &Closure{fn: d.init}}, {P: &Closure{fn: d.run}}, {}}}}, true
	}
}
