package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The literals of the code under test feed the generator: values the code
// compares with are the ones that make a difference. They steer which inputs
// are tried and have no part in the verdicts.
type Lits struct {
	Strs []string `json:"strs"`
	Ints []int    `json:"ints"`
}

func scanLits(repo string) Lits {
	strs, ints := map[string]bool{}, map[int]bool{}
	files, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		t, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			continue
		}
		skip := map[ast.Node]bool{}
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				if skip[x] {
					return true
				}
				switch x.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && len(s) < 48 {
						strs[s] = true
					}
				case token.CHAR:
					if s, err := strconv.Unquote(x.Value); err == nil {
						strs[s] = true
					}
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil && v >= 0 && v <= 1<<20 {
						ints[int(v)] = true
						if v < 256 {
							strs[string([]byte{byte(v)})] = true
						}
					}
				}
			}
			return true
		})
	}
	var l Lits
	for s := range strs {
		l.Strs = append(l.Strs, s)
	}
	for i := range ints {
		l.Ints = append(l.Ints, i)
	}
	sort.Strings(l.Strs)
	sort.Ints(l.Ints)
	return l
}

func printLits(repo string) {
	l := scanLits(repo)
	// Literals may hold bytes that are not UTF-8
	var bs []B
	for _, s := range l.Strs {
		bs = append(bs, B(s))
	}
	b, _ := json.Marshal(map[string]any{"strs": bs, "ints": l.Ints})
	fmt.Println(string(b))
}

// newLits gives the literals that are not among the ones in the file base.
func newLits(l Lits, base string) Lits {
	var old struct {
		Strs []B   `json:"strs"`
		Ints []int `json:"ints"`
	}
	if base != "" {
		b, err := os.ReadFile(base)
		if err != nil {
			fatal(err)
		}
		if err := json.Unmarshal(b, &old); err != nil {
			fatal(err)
		}
	}
	s, n := map[string]bool{}, map[int]bool{}
	for _, x := range old.Strs {
		s[string(x)] = true
	}
	for _, x := range old.Ints {
		n[x] = true
	}
	var out Lits
	for _, x := range l.Strs {
		if !s[x] {
			out.Strs = append(out.Strs, x)
		}
	}
	for _, x := range l.Ints {
		if !n[x] {
			out.Ints = append(out.Ints, x)
		}
	}
	return out
}
