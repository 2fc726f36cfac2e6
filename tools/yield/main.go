// Command yield copies the Go files of a package with a scheduling point before every statement.
//
// Usage: yield <package dir> <out dir>; prints overlay replacements as JSON. The behaviour of the program
// does not change, only the timing of its goroutines, under the control of the VERIF_YIELD variable.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const support = `package %s

import (
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

var (
	vyOn    bool
	vySeed  uint64
	vyState uint64
	vySlow  []bool
	vyLeft  int64 = 400
)

func vyMix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33

	return x
}

func init() {
	s, err := strconv.ParseUint(os.Getenv("VERIF_YIELD"), 10, 64)
	if err != nil {
		return
	}

	vyOn, vySeed, vyState = true, vyMix(s+1), vyMix(s+2)
	vySlow = make([]bool, %d)

	// Some places are slow during the whole run.
	for i := uint64(0); i < vySeed%%5; i++ {
		vySlow[vyMix(vySeed+100+i)%%uint64(len(vySlow))] = true
	}
}

func vyAt(site int) {
	if !vyOn {
		return
	}

	h := vyMix(atomic.AddUint64(&vyState, 0x9e3779b97f4a7c15))

	if vySlow[site] && h%%4 == 0 && atomic.AddInt64(&vyLeft, -1) > 0 {
		time.Sleep(time.Duration(h>>8%%1500) * time.Microsecond)

		return
	}

	if h%%4096 == 1 && atomic.AddInt64(&vyLeft, -1) > 0 {
		time.Sleep(time.Duration(h>>16%%300) * time.Microsecond)
	} else if h%%61 == 0 {
		runtime.Gosched()
	}
}
`

func main() {
	dir, out := os.Args[1], os.Args[2]

	dir, err := filepath.Abs(dir)
	check(err)

	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	check(err)
	sort.Strings(files)

	res := map[string]string{}
	site, pkg := 0, ""

	for _, fn := range files {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}

		src, err := os.ReadFile(fn)
		check(err)

		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
		check(err)

		pkg = f.Name.Name

		var at []int

		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}

				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}

		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				return x.Name.Name != "init"
			case *ast.SwitchStmt:
				// Clauses of the body are no statements of a list.
				if x.Init != nil {
					ast.Inspect(x.Init, func(ast.Node) bool { return true })
				}

				for _, c := range x.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}

				list(x.List)
			}

			return true
		})

		sort.Ints(at)

		var b strings.Builder

		prev := 0

		for i, o := range at {
			if i > 0 && at[i-1] == o {
				continue
			}

			b.Write(src[prev:o])
			fmt.Fprintf(&b, "vyAt(%d); ", site)
			site++

			prev = o
		}

		b.Write(src[prev:])

		name := filepath.Join(out, filepath.Base(fn))
		check(os.WriteFile(name, []byte(b.String()), 0o600))
		res[fn] = name
	}

	name := filepath.Join(out, "vy_support.go")
	check(os.WriteFile(name, []byte(fmt.Sprintf(support, pkg, site+1)), 0o600))
	res[filepath.Join(dir, "vy_support.go")] = name

	check(json.NewEncoder(os.Stdout).Encode(res))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
