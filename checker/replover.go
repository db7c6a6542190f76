package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// replOverlay instantiates the reference definitions that are compiled into
// package replication: the ones about GTID sets, whose intervals are
// unexported. Their names are found by their types.
func replOverlay(dir string) (map[string][]byte, error) {
	fset := token.NewFileSet()
	names := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(repoDir, "replication", "*.go"))
	structs := map[string]*ast.StructType{}
	var parsed []*ast.File
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		p, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		parsed = append(parsed, p)
		ast.Inspect(p, func(n ast.Node) bool {
			if ts, ok := n.(*ast.TypeSpec); ok {
				if st, ok := ts.Type.(*ast.StructType); ok {
					structs[ts.Name.Name] = st
				}
			}
			return true
		})
	}
	isGTIDMap := func(e ast.Expr, res string) bool {
		m, ok := e.(*ast.MapType)
		if !ok {
			return false
		}
		f, ok := m.Value.(*ast.FuncType)
		if !ok || f.Results == nil || len(f.Results.List) == 0 {
			return false
		}
		id, ok := f.Results.List[0].Type.(*ast.Ident)
		return ok && id.Name == res
	}
	for _, p := range parsed {
		ast.Inspect(p, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.TypeSpec:
				if n.Name.Name != "Mysql56GTIDSet" {
					return true
				}
				m, ok := n.Type.(*ast.MapType)
				if !ok {
					return true
				}
				a, ok := m.Value.(*ast.ArrayType)
				if !ok {
					return true
				}
				id, ok := a.Elt.(*ast.Ident)
				if !ok || structs[id.Name] == nil {
					return true
				}
				names["INTERVAL"] = id.Name
				var fs []string
				for _, f := range structs[id.Name].Fields.List {
					for _, x := range f.Names {
						fs = append(fs, x.Name)
					}
				}
				if len(fs) == 2 {
					names["START"], names["END"] = fs[0], fs[1]
				}
			case *ast.ValueSpec:
				for i, v := range n.Values {
					c, ok := v.(*ast.CallExpr)
					if !ok || len(c.Args) == 0 || i >= len(n.Names) {
						if cl, ok := v.(*ast.CompositeLit); ok && i < len(n.Names) && isGTIDMap(cl.Type, "GTIDSet") {
							names["SETPARSERS"] = n.Names[i].Name
						}
						continue
					}
					if isGTIDMap(c.Args[0], "GTIDSet") {
						names["SETPARSERS"] = n.Names[i].Name
					}
				}
			}
			return true
		})
	}
	for _, k := range []string{"INTERVAL", "START", "END", "SETPARSERS"} {
		if names[k] == "" {
			return nil, fmt.Errorf("package replication has no declaration for %s", k)
		}
	}
	out := map[string][]byte{}
	ts, _ := filepath.Glob(filepath.Join(dir, "repl", "*.go.tmpl"))
	for _, f := range ts {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		s := string(b)
		for k, v := range names {
			s = strings.ReplaceAll(s, "{{"+k+"}}", v)
		}
		out[filepath.Join(repoDir, "replication", "zz_verif_"+strings.TrimSuffix(filepath.Base(f), ".tmpl"))] = []byte(s)
	}
	return out, nil
}
