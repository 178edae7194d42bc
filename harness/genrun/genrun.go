// Package genrun runs generated parsers. The engine type-checks and executes the
// generated source itself; natively it is compiled with the Go tool chain and
// run as a process.
package genrun

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"

	// loaded so that generated sources may use them
	_ "errors"
	_ "math/big"
	_ "slices"
	_ "sort"
	_ "strings"
	_ "unicode/utf8"
)

type Tree struct {
	Rule       string
	Start, End int
	Children   []*Tree
}

// Answer is what a generated parser says about an input.
type Answer struct {
	Err              string
	Valid, Ambiguous bool
	Num              string
	Elements         int
	TooLarge         bool
	Tree             *Tree
}

const goMain = `package main

import (
	"encoding/json"
	"io"
	"os"
	"strconv"

	"gen/p"
)

func main() {
	in, _ := io.ReadAll(os.Stdin)
	out := map[string]any{}
	if max, _ := strconv.Atoi(os.Args[1]); max >= 0 {
		p.MaxElements = max
	}
	r, err := p.Parse(in)
	if err != nil {
		out["Err"], out["TooLarge"] = err.Error(), err == p.ErrTooLarge
	} else {
		out["Valid"], out["Ambiguous"], out["Num"], out["Tree"], out["Elements"] = r.Valid(), r.Ambiguous(), r.NumTrees().String(), r.Tree(), r.Elements()
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
`

var dirs = map[string]string{}

// Build compiles generated source (package p). start initialises it, run parses
// an input with a budget of elements (-1: the default); msg is not empty when the source does not compile.
func Build(src string) (start func(), run func(in []byte, max int) *Answer, msg string) {
	start = func() {}
	bin, ok := dirs[src]
	if !ok {
		dir, err := os.MkdirTemp("", "vgen")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(filepath.Join(dir, "src"))
		os.MkdirAll(filepath.Join(dir, "src", "p"), 0o755)
		for n, s := range map[string]string{"go.mod": "module gen\n\ngo 1.23\n", "main.go": goMain, "p/p.go": src} {
			if err := os.WriteFile(filepath.Join(dir, "src", n), []byte(s), 0o644); err != nil {
				panic(err)
			}
		}
		bin = filepath.Join(dir, "gen")
		cmd := exec.Command("go", "build", "-o", bin, ".")
		cmd.Dir = filepath.Join(dir, "src")
		cmd.Env = append(os.Environ(), "GOFLAGS=", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
		if out, err := cmd.CombinedOutput(); err != nil {
			os.RemoveAll(dir)
			return start, nil, fmt.Sprintf("%v: %s", err, out)
		}
		dirs[src] = bin
	}
	run = func(in []byte, max int) *Answer {
		cmd := exec.Command(bin, strconv.Itoa(max))
		cmd.Stdin = bytes.NewReader(in)
		var eb bytes.Buffer
		cmd.Stderr = &eb
		out, err := cmd.Output()
		if err != nil {
			panic(fmt.Sprintf("generated parser: %v: %s", err, eb.String()))
		}
		a := &Answer{}
		if err := json.Unmarshal(out, a); err != nil {
			panic(err)
		}
		return a
	}
	return start, run, ""
}

// Clean removes what was built.
func Clean() {
	for _, bin := range dirs {
		os.RemoveAll(filepath.Dir(bin))
	}
	clear(dirs)
}
