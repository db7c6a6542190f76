package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const repoDir = "/repo"

// rootOverlay instantiates the reference definitions that are compiled into
// package gobinlog. The names of unexported fields and of the table cache entry
// are found by their types, so that renaming them does not matter.
func rootOverlay(dir string) (map[string][]byte, error) {
	fset := token.NewFileSet()
	names := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(repoDir, "*.go"))
	var parsed []*ast.File
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		p, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		parsed = append(parsed, p)
	}
	typ := func(e ast.Expr) string {
		var rec func(e ast.Expr) string
		rec = func(e ast.Expr) string {
			switch e := e.(type) {
			case *ast.Ident:
				return e.Name
			case *ast.StarExpr:
				return "*" + rec(e.X)
			case *ast.SelectorExpr:
				return rec(e.X) + "." + e.Sel.Name
			}
			return "?"
		}
		return rec(e)
	}
	field := func(st *ast.StructType, want string) string {
		r := ""
		for _, f := range st.Fields.List {
			if typ(f.Type) == want && len(f.Names) == 1 {
				r = f.Names[0].Name
			}
		}
		return r
	}
	for _, p := range parsed {
		ast.Inspect(p, func(n ast.Node) bool {
			ts, ok := n.(*ast.TypeSpec)
			if !ok {
				return true
			}
			st, ok := ts.Type.(*ast.StructType)
			if !ok {
				return true
			}
			if ts.Name.Name == "Streamer" {
				names["DSN"], names["SERVERID"] = field(st, "string"), field(st, "uint32")
				names["SEND"] = field(st, "SendTransactionFunc")
				names["MAPPER"] = field(st, "MysqlTableMapper")
				names["NOWPOS"] = field(st, "atomic.Value") + ".Load().(Position)"
				for _, f := range st.Fields.List {
					if typ(f.Type) == "atomic.Value" && len(f.Names) > 0 {
						names["NOWPOS"] = f.Names[0].Name + ".Load().(Position)"
						break
					}
				}
			}
			if tm, tab := field(st, "*replication.TableMap"), field(st, "MysqlTable"); tm != "" && tab != "" {
				names["TC"], names["TM"], names["TAB"] = ts.Name.Name, tm, tab
			}
			return true
		})
	}
	names["ELEM"], names["AMP"] = "*"+names["TC"], "&"
	for _, p := range parsed {
		ast.Inspect(p, func(n ast.Node) bool {
			if m, ok := n.(*ast.MapType); ok && typ(m.Key) == "uint64" && typ(m.Value) == names["TC"] {
				names["ELEM"], names["AMP"] = names["TC"], ""
			}
			return true
		})
	}
	// the position the next attempt starts at: what the getter returns
	for _, p := range parsed {
		for _, d := range p.Decls {
			f, ok := d.(*ast.FuncDecl)
			if ok && f.Recv != nil && typ(f.Recv.List[0].Type) == "*Streamer" && f.Type.Params.NumFields() == 0 &&
				f.Type.Results.NumFields() == 1 && typ(f.Type.Results.List[0].Type) == "Position" {
				names["NOWPOS"] = f.Name.Name + "()"
			}
		}
	}
	for _, p := range parsed {
		for _, d := range p.Decls {
			f, ok := d.(*ast.FuncDecl)
			if !ok || f.Recv == nil || f.Type.Params.NumFields() != 2 || typ(f.Recv.List[0].Type) != "*Streamer" {
				continue
			}
			ps := f.Type.Params.List
			if ch, ok := ps[len(ps)-1].Type.(*ast.ChanType); ok && typ(ch.Value) == "replication.BinlogEvent" && typ(ps[0].Type) == "context.Context" {
				names["PARSE"] = f.Name.Name
			}
		}
	}
	for _, k := range []string{"PARSE", "DSN", "SERVERID", "SEND", "MAPPER", "NOWPOS", "TC", "TM", "TAB"} {
		if names[k] == "" {
			return nil, fmt.Errorf("package gobinlog has no declaration for %s", k)
		}
	}
	out := map[string][]byte{}
	ts, _ := filepath.Glob(filepath.Join(dir, "root", "*.go.tmpl"))
	for _, f := range ts {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		s := string(b)
		for k, v := range names {
			s = strings.ReplaceAll(s, "{{"+k+"}}", v)
		}
		out[filepath.Join(repoDir, "zz_verif_"+strings.TrimSuffix(filepath.Base(f), ".tmpl"))] = []byte(s)
	}
	return out, nil
}
