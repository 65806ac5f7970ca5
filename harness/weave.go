package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Schedule search by weaving: the code is built a second time with a call before every statement
// of every function.  In a run, a seed decides at which of these points a goroutine yields or
// sleeps, so windows of nanoseconds between two statements become wide, in different places for
// different seeds.  What a statement does is unchanged.

const wovenPkg = "verifsched"

// weave writes woven copies of the packages of the module under repo to dir and enters them in overlay.
func weave(repo, dir string, overlay map[string]string) error {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	module := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			module = strings.Trim(f[1], `"`)
		}
	}
	if module == "" {
		return fmt.Errorf("no module line")
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	sites, files := 0, 0
	err = filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if n := d.Name(); p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, err := weaveFile(p, b, module, &sites)
		if err != nil {
			return err
		}
		if out == nil {
			return nil
		}
		files++
		w := filepath.Join(dir, fmt.Sprintf("%d.go", files))
		overlay[p] = w
		return os.WriteFile(w, out, 0o644)
	})
	if err != nil {
		return err
	}
	w := filepath.Join(dir, wovenPkg+".go")
	overlay[filepath.Join(repo, "internal", wovenPkg, "v.go")] = w
	return os.WriteFile(w, []byte(strings.Replace(wovenSource, "SITES", strconv.Itoa(sites+1), -1)), 0o644)
}

func weaveFile(name string, src []byte, module string, sites *int) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	clauses := map[*ast.BlockStmt]bool{}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			clauses[n.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[n.Body] = true
		case *ast.SelectStmt:
			clauses[n.Body] = true
		case *ast.BlockStmt:
			if !clauses[n] {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, nil
	}
	sort.Ints(at)
	var o strings.Builder
	end := fset.Position(f.Name.End()).Offset
	o.Write(src[:end])
	fmt.Fprintf(&o, "; import vsched_ %q", module+"/internal/"+wovenPkg)
	for _, a := range at {
		o.Write(src[end:a])
		fmt.Fprintf(&o, "vsched_.P(%d); ", *sites)
		*sites++
		end = a
	}
	o.Write(src[end:])
	return []byte(o.String()), nil
}

const wovenSource = `// Package verifsched perturbs the schedule.
package verifsched

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

var (
	kind  [SITES]uint8
	hits  [SITES]uint32
	slept int64
)

const (
	most   = 48                       // visits of a site that count, then only the powers of two
	budget = 150 * time.Millisecond   // for all sleeps of a run
)

func init() {
	seed, _ := strconv.ParseUint(os.Getenv("VSCHED"), 10, 64)
	if seed == 0 {
		return
	}
	r := rand.New(rand.NewPCG(seed, 7))
	rate := []int{4, 16, 64, 256}[r.IntN(4)] // one site in so many
	for i := range kind {
		if r.IntN(rate) == 0 {
			kind[i] = uint8(1 + r.IntN(3))
		}
	}
}

// P is a point where the schedule may change.
func P(site int) {
	k := kind[site]
	if k == 0 {
		return
	}
	n := atomic.AddUint32(&hits[site], 1)
	if n > most && n&(n-1) != 0 {
		return
	}
	switch k {
	case 1:
		for i := rand.IntN(4); i >= 0; i-- {
			runtime.Gosched()
		}
		return
	case 2:
		pause(time.Duration(rand.IntN(60)) * time.Microsecond)
	default:
		if rand.IntN(3) == 0 {
			pause(time.Duration(rand.IntN(1500)) * time.Microsecond)
		}
	}
}

func pause(d time.Duration) {
	if atomic.AddInt64(&slept, int64(d)) < int64(budget) {
		time.Sleep(d)
	}
}
`
