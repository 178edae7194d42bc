package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	abnfPkg  = "github.com/pandatix/go-abnf"
	propsPkg = "verif/harness/props"
)

// interpreted standard packages: their function bodies are kept and executed.
var stdBodies = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "sort": true, "slices": true, "maps": true,
	"errors": true, "io": true, "math": true, "math/bits": true, "math/big": true, "bytes": true, "regexp": true,
	"regexp/syntax": true, "cmp": true, "iter": true, "internal/stringslite": true, "internal/bytealg": true,
	"math/rand": true, "internal/byteorder": true, "internal/strconv": true, "bufio": true, "unicode/utf16": true, "sync": true, "sync/atomic": true,
	"container/heap": true, "container/list": true, "container/ring": true, "text/tabwriter": true, "hash/fnv": true, "hash/crc32": true,
	"encoding/hex": true, "html": true,
}

// packages whose initialisers run.
var stdInit = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "sort": true, "slices": true,
	"io": true, "math": true, "math/bits": true, "math/big": true, "bytes": true, "regexp": true, "regexp/syntax": true,
	"internal/strconv": true, "bufio": true, "sync": true, "sync/atomic": true, "text/tabwriter": true, "encoding/hex": true, "hash/fnv": true,
}

//go:embed stubs/sync.txt
var syncStub string

//go:embed stubs/atomic.txt
var atomicStub string

// modelled replaces standard sources that reach into the runtime by plain Go.
func modelled(name string, src []byte) []byte {
	dir, file := filepath.Split(name)
	switch {
	case strings.HasSuffix(dir, "/src/sync/"):
		if file == "mutex.go" {
			return []byte(syncStub)
		}
		return []byte("package sync\n")
	case strings.HasSuffix(dir, "/src/sync/atomic/"):
		if file == "type.go" {
			return []byte(atomicStub)
		}
		return []byte("package atomic\n")
	case strings.HasSuffix(name, "/src/slices/slices.go"):
		s := string(src)
		if i := strings.Index(s, "\nfunc overlaps["); i >= 0 {
			if j := strings.Index(s[i:], "\n}"); j >= 0 {
				s = s[:i] + "\nfunc overlaps[E any](a, b []E) bool {\n\t_ = unsafe.Pointer(nil)\n\tfor i := range a {\n\t\tfor j := range b {\n\t\t\tif &a[i] == &b[j] {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t}\n\treturn false" + s[i+j:]
				return []byte(s)
			}
		}
	}
	return src
}

const uuidStub = `package uuid

// GenerateUUID is provided by the engine.
func GenerateUUID() (string, error) { panic("engine only") }
`

// load parses, type-checks and lowers /repo and the harnesses to SSA.
func load(verif, repo string) (*Program, map[string]*ssa.Function, []*ssa.Function, error) {
	overlay := map[string][]byte{}
	fz, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	for _, f := range fz {
		b, err := os.ReadFile(f)
		if err != nil || strings.HasSuffix(f, "_test.go") {
			continue
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, b, parser.ImportsOnly)
		if err != nil {
			continue
		}
		for _, im := range af.Imports {
			if im.Path.Value == `"testing"` {
				overlay[f] = []byte("package " + af.Name.Name + "\n")
			}
		}
	}
	for _, try := range []bool{true, false} {
		ov := overlay
		if !try {
			if len(overlay) == 0 {
				break
			}
			ov = nil
		}
		P, ents, inits, err := loadWith(verif, ov)
		if err == nil || !try {
			return P, ents, inits, err
		}
		if os.Getenv("ENGINE_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "load with overlay failed:", err)
		}
	}
	return nil, nil, nil, fmt.Errorf("load failed")
}

func loadWith(verif string, overlay map[string][]byte) (*Program, map[string]*ssa.Function, []*ssa.Function, error) {
	t0 := time.Now()
	fset := token.NewFileSet()
	keep := func(file string) bool {
		if strings.Contains(file, "/go-uuid") {
			return true
		}
		if i := strings.Index(file, "/src/"); i >= 0 && !strings.HasPrefix(file, "/repo") && !strings.HasPrefix(file, verif) {
			return stdBodies[filepath.Dir(file[i+5:])]
		}
		return true
	}
	cfg := &packages.Config{
		Mode:       packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        filepath.Join(verif, "harness"),
		Env:        append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on"),
		BuildFlags: []string{"-tags=math_big_pure_go,purego"},
		Fset:       fset,
		Overlay:    overlay,
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			if strings.HasSuffix(name, "/uuid.go") && strings.Contains(name, "go-uuid") {
				src = []byte(uuidStub)
			}
			if i := strings.Index(name, "/src/"); i >= 0 && !strings.HasPrefix(name, repoDir+"/") && !strings.HasPrefix(name, verif) {
				src = modelled(name, src)
			}
			f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
			if err != nil {
				return f, err
			}
			if !keep(name) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, nil
		},
	}
	pkgs, err := packages.Load(cfg, propsPkg, "verif/harness/symrt")
	if err != nil {
		return nil, nil, nil, err
	}
	var bad []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			// packages whose bodies were dropped report unused imports and variables
			if p.PkgPath == abnfPkg || strings.HasPrefix(p.PkgPath, "verif/") {
				bad = append(bad, e.Error())
			}
			if os.Getenv("ENGINE_DEBUG") == "2" {
				fmt.Fprintln(os.Stderr, p.PkgPath, e)
			}
		}
		p.IllTyped = false
	})
	if len(bad) > 0 {
		return nil, nil, nil, fmt.Errorf("%s", strings.Join(bad, "\n"))
	}
	t1 := time.Now()
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{prog: prog, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]int{}, replFn: map[string]*ssa.Function{}, initPkgs: map[string]bool{}, pure: map[*ssa.Function]bool{}}
	for k := range stdInit {
		P.initPkgs[k] = true
	}
	tInt, tString = tinfo(types.Typ[types.Int]), tinfo(types.Typ[types.String])
	tAny = tinfo(types.NewInterfaceType(nil, nil))
	ents := map[string]*ssa.Function{}
	var inits []*ssa.Function
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if path == abnfPkg || strings.HasPrefix(path, "verif/") || strings.HasPrefix(path, abnfPkg+"/") {
			P.initPkgs[path] = true
			sp.Build()
		} else if stdBodies[path] {
			sp.Build()
		}
	}
	rt := prog.ImportedPackage("verif/harness/symrt")
	if rt == nil {
		return nil, nil, nil, fmt.Errorf("symrt missing")
	}
	P.rtErr = tinfo(rt.Type("RuntimeError").Type())
	for std, model := range replacements {
		f := rt.Func(model)
		if f == nil {
			return nil, nil, nil, fmt.Errorf("symrt.%s missing", model)
		}
		P.replFn[std] = f
	}
	props := prog.ImportedPackage(propsPkg)
	if props == nil {
		return nil, nil, nil, fmt.Errorf("props missing")
	}
	for n, m := range props.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") {
			ents[n] = f
		}
	}
	inits = append(inits, rt.Func("init"), props.Func("init"))
	if os.Getenv("ENGINE_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "load %v ssa %v\n", t1.Sub(t0), time.Since(t1))
	}
	return P, ents, inits, nil
}

// coverage lists the functions of the repository that were executed.
func (P *Program) coverage() (fns []string, blocks, covered int) {
	P.mu.Lock()
	defer P.mu.Unlock()
	for f, x := range P.fns {
		if x.pkg != abnfPkg || !x.hasBody {
			continue
		}
		c := 0
		for _, b := range x.coverB {
			if b != 0 {
				c++
			}
		}
		if c == 0 || strings.HasPrefix(f.Name(), "init") {
			continue
		}
		blocks += len(x.blocks)
		covered += c
		fns = append(fns, strings.ReplaceAll(f.String(), abnfPkg+".", ""))
	}
	sort.Strings(fns)
	return
}
