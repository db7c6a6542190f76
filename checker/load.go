package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program.
type World struct {
	fset *token.FileSet
	prog *ssa.Program
	pk   map[string]*ssa.Package
	errs []string
}

func loadWorld(dir string, root, repl bool) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Fset: token.NewFileSet(),
	}
	pats := []string{repoRepl, "verifload/spec"}
	if root {
		pats = append(pats, repoRoot)
		ov, err := rootOverlay(dir)
		if err != nil {
			return nil, err
		}
		cfg.Overlay = ov
	}
	if repl {
		ov, err := replOverlay(dir)
		if err != nil {
			return nil, err
		}
		if cfg.Overlay == nil {
			cfg.Overlay = map[string][]byte{}
		}
		for k, v := range ov {
			cfg.Overlay[k] = v
		}
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	w := &World{fset: cfg.Fset, pk: map[string]*ssa.Package{}}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoRoot) || strings.HasPrefix(p.PkgPath, "verifload") {
			for _, e := range p.Errors {
				w.errs = append(w.errs, e.Error())
			}
		}
	})
	if len(w.errs) > 0 {
		return w, fmt.Errorf("%s", strings.Join(w.errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for _, p := range prog.AllPackages() {
		w.pk[p.Pkg.Path()] = p
	}
	if b := w.pk["bytes"]; b != nil {
		bufT = b.Type("Buffer").Type()
	}
	return w, nil
}

// fn finds a function or method: "Name" or "Type.Name" / "*Type.Name".
func (w *World) fn(pkg, name string) *ssa.Function {
	p := w.pk[pkg]
	if p == nil {
		failf("package %s not loaded", pkg)
	}
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		tn := name[:i]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		o := p.Pkg.Scope().Lookup(tn)
		if o == nil {
			failf("type %s.%s not found", pkg, tn)
		}
		t := o.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := w.prog.MethodSets.MethodSet(t).Lookup(p.Pkg, name[i+1:])
		if sel == nil {
			failf("method %s.%s not found", pkg, name)
		}
		return w.prog.MethodValue(sel)
	}
	f := p.Func(name)
	if f == nil {
		failf("function %s.%s not found", pkg, name)
	}
	return f
}

func newEngine(w *World) *Engine {
	en := &Engine{
		prog: w.prog, bound: map[string]func(*call) *Node{}, effects: map[string]bool{},
		devirt: map[string]types.Type{}, ignore: map[string]bool{"github.com/Breeze0806/go/log": true},
		globals: map[*ssa.Global]*Obj{}, gstate: newState(), loops: map[*ssa.Function]*loopInfo{},
		rec: map[*ssa.Function]bool{}, once: map[string]*Obj{},
	}
	return en
}

// run interprets f on args; the results are frozen.
func (en *Engine) run(f *ssa.Function, args []*Node) (res *Node, st *State, err error) {
	defer func() {
		if r := recover(); r != nil {
			fl, ok := r.(failure)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", fl.msg)
		}
	}()
	en.stack = nil
	en.steps = 0
	st = en.gstate.clone()
	st.mut = map[*Obj]bool{}
	fr := &frame{en: en, fn: f, env: map[ssa.Value]*Node{}}
	r := fr.evalFunc(args, nil, st)
	if r == nil {
		return nNil, st, nil
	}
	if r.k == NAgg && r.id == -1 {
		ks := make([]*Node, len(r.kids))
		for i, k := range r.kids {
			ks[i] = fr.freezeAgg(k, st)
		}
		return tuple(ks...), st, nil
	}
	return fr.freezeAgg(r, st), st, nil
}

// inputs builds symbolic arguments for f's parameters.
func inputs(f *ssa.Function) []*Node {
	var out []*Node
	for i, p := range f.Params {
		out = append(out, input(fmt.Sprintf("arg%d", i), p.Type()))
	}
	return out
}

func input(name string, t types.Type) *Node {
	return valueOf(mkAtomT("in", nil, nil, t, name), t)
}
