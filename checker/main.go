package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated (or undecided) obligation.
type Finding struct {
	Prop  string `json:"property"`
	Rule  string `json:"rule"` // rule and construct: the stable key
	Where string `json:"where"`
	Msg   string `json:"message"`
}

// Ctx collects the outcome of a run.
type Ctx struct {
	w             *World
	tier          string
	only          string
	onlyCase      string
	findings      []Finding
	counts        map[string]int // instances per rule
	lines         []string       // what was analysed
	funcs         map[string]bool
	cases         int
	leafs         int
	verbose       bool
	shard, shards int
	repoDir       string
	known         []*knownFinding
}

// stop: a violation not listed as known was found by this worker, so the rest
// of its share need not be decided.
func (c *Ctx) stop() bool {
	if c.shards <= 1 {
		return false
	}
	for _, f := range c.findings {
		if matchKnown(c.known, f) == nil {
			return true
		}
	}
	return false
}

func (c *Ctx) logf(f string, a ...any) {
	c.lines = append(c.lines, fmt.Sprintf(f, a...))
	if c.verbose {
		fmt.Printf(f+"\n", a...)
	}
}

func (c *Ctx) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := c.w.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

func (c *Ctx) posOf(p token.Pos) string {
	if c.w == nil {
		return ""
	}
	return c.pos(p)
}

func (c *Ctx) report(prop, rule, where, f string, a ...any) {
	c.findings = append(c.findings, Finding{prop, rule, where, fmt.Sprintf(f, a...)})
}

type Case struct {
	label string
	fixed map[string]int64
}

// pairs checks every I_<pre>X against S_<pre>X of package pkg.
func (c *Ctx) pairs(prop, pkg, pre string) {
	p := c.w.pk[pkg]
	if p == nil {
		c.report(prop, "spec", "", "package %s not loaded", pkg)
		return
	}
	var names []string
	for n := range p.Members {
		if strings.HasPrefix(n, "I_"+pre) {
			names = append(names, strings.TrimPrefix(n, "I_"))
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if c.only != "" && !strings.HasPrefix(n, c.only) {
			continue
		}
		impl, spec := p.Func("I_"+n), p.Func("S_"+n)
		if impl == nil || spec == nil {
			c.report(prop, "spec "+n, "", "reference or driver missing")
			continue
		}
		c.pair(prop, n, impl, spec)
		if c.stop() {
			break
		}
	}
}

func (c *Ctx) pair(prop, n string, impl, spec *ssa.Function) {
	t0 := time.Now()
	cases := []Case{{}}
	if f := enums[n]; f != nil {
		cases = f(c.tier)
	}
	bad, ran, paths := 0, 0, 0
	part := impl.Pkg.Func("P_" + n)
	var ms []string
	for i, k := range cases {
		if part == nil && c.shards > 1 && i%c.shards != c.shard {
			continue
		}
		if c.onlyCase != "" && k.label != c.onlyCase {
			continue
		}
		var m []string
		for path, more := 0, true; more; path++ {
			t1 := time.Now()
			var pm []string
			pm, more = c.pairCase(prop, n, impl, spec, k, part, path)
			m = append(m, pm...)
			if part != nil && (c.shards <= 1 || path%c.shards == c.shard) {
				paths++
				if c.verbose {
					fmt.Printf("  %s path %d %v\n", k.label, path, time.Since(t1).Round(time.Millisecond))
				}
			}
			if len(m) > 2 || c.stop() {
				break
			}
		}
		ms = append(ms, m...)
		if len(m) > 0 {
			bad++
			if bad >= 3 || c.stop() {
				break
			}
		}
		c.cases++
		ran++
	}
	c.counts["obligations"] += ran
	st := "equal"
	if bad > 0 {
		st = "DIFFERS"
	}
	if paths > 0 {
		st += fmt.Sprintf(" (%d classes)", paths)
	}
	c.counts["classes"] += paths
	c.logf("%s: %d case(s) %s [%v]", n, ran, st, time.Since(t0).Round(time.Millisecond))
}

// pairCase: equal to the reference or to one of its alternatives, which say
// the same in another way.
func (c *Ctx) pairCase(prop, n string, impl, spec *ssa.Function, k Case, part *ssa.Function, path int) (out []string, more bool) {
	var first []problem
	for i := 0; ; i++ {
		if i > 0 {
			if spec = impl.Pkg.Func(fmt.Sprintf("S_%s__%d", n, i)); spec == nil {
				break
			}
		}
		fs, m := c.pairOnce(prop, n, impl, spec, k, part, path)
		if i == 0 {
			first, more = fs, m
		}
		if len(fs) == 0 {
			return nil, more
		}
		if c.stop() {
			break
		}
	}
	for _, f := range first {
		c.report(prop, "equivalence "+n, f.where, "%s", f.msg)
		out = append(out, f.msg)
	}
	return out, more
}

type problem struct{ where, msg string }

func (c *Ctx) pairOnce(prop, n string, impl, spec *ssa.Function, k Case, part *ssa.Function, path int) (out []problem, more bool) {
	resetTerms()
	en := newEngine(c.w)
	setupEngine(en, n)
	if pkgOf(impl) == repoRoot {
		c.setupRoot(en, n)
	}
	mk := func(f *ssa.Function) []*Node {
		var out []*Node
		for _, p := range f.Params {
			if v, ok := k.fixed[p.Name()]; ok {
				if b, isB := p.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsBoolean != 0 {
					out = append(out, mkBool(v != 0))
				} else {
					out = append(out, mkI(v))
				}
				continue
			}
			if p.Name() == "pos" || p.Name() == "count" {
				out = append(out, mkInt(linA(mkAtomT("in", b0, pow2(31), p.Type(), p.Name()))))
				continue
			}
			out = append(out, input(p.Name(), p.Type()))
		}
		return out
	}
	var pre []cons
	fail := func(where, f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		if k.label != "" {
			m = "[" + k.label + "] " + m
		}
		if part != nil {
			m = fmt.Sprintf("[class %d] ", path) + m
		}
		out = append(out, problem{where, m})
	}
	curPhase = "spec"
	if part != nil {
		pr, _, err := en.run(part, mk(part))
		if err != nil {
			fail("", "partition could not be evaluated: %v", err)
			return out, false
		}
		ps := pathsOf(pr)
		if len(ps) == 0 {
			fail("", "partition is empty")
			return out, false
		}
		if c.shards > 1 && path%c.shards != c.shard {
			return nil, path+1 < len(ps)
		}
		assume(ps[path])
		pre = ps[path]
		more = path+1 < len(ps)
	}
	sr, sst, err := en.run(spec, mk(spec))
	if err != nil {
		fail("", "reference could not be evaluated: %v", err)
		return out, more
	}
	curPhase = "impl"
	c.note(en)
	ir, ist, err := en.run(impl, mk(impl))
	if err != nil {
		fail(c.pos(curPos), "undecided: %v", err)
		return out, more
	}
	if os.Getenv("VERIF_TERMS") != "" {
		fmt.Printf("SPEC %v\nIMPL %v\n", sr, ir)
	}
	cmp := &comparer{nilEq: nilEqual[n] || en.nilEq, errAny: true}
	if mutates[n] {
		sr, ir = withMut(sr, sst), withMut(ir, ist)
	}
	for _, m := range cmp.compare("result", sr, ir, pre) {
		fail(c.pos(m.Pos), "%v", m)
	}
	if n == "C07_Handshake" {
		for _, m := range cmp.compare("effects", sst.tr, ist.tr, pre) {
			fail(c.pos(m.Pos), "%v", m)
		}
	}
	if strings.HasPrefix(n, "C18_") || strings.HasPrefix(n, "C19_") {
		var xs []string
		for o := range ist.mut {
			if o.opq != nil && madeHere(o.opq) {
				continue // subject of the ownership rule
			}
			if et := elemType(o.typ); et != nil && !fromInput(impl, et) {
				continue // no memory of that type can come from the caller
			}
			xs = append(xs, o.name)
		}
		sort.Strings(xs)
		if len(xs) > 0 {
			fail("", "writes to its input: %s", strings.Join(xs, ", "))
		}
	}
	c.leafs += cmp.leafs
	return out, more
}

// fromInput: memory holding elements of type et is reachable from the
// arguments, by type.
func fromInput(f *ssa.Function, et types.Type) bool {
	seen := map[types.Type]bool{}
	var walk func(t types.Type) bool
	walk = func(t types.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if types.Identical(t, et) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return types.Identical(u.Elem(), et) || walk(u.Elem())
		case *types.Array:
			return walk(u.Elem())
		case *types.Pointer:
			return walk(u.Elem())
		case *types.Map:
			return walk(u.Key()) || walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if walk(u.Field(i).Type()) {
					return true
				}
			}
		case *types.Interface, *types.Signature, *types.Chan:
			return true
		}
		return false
	}
	for _, p := range f.Params {
		if walk(p.Type()) {
			return true
		}
	}
	return false
}

// madeHere: a value out of something the function built.
func madeHere(a *Atom) bool {
	for {
		switch a.op {
		case "fin", "acc":
			return true
		case "mget", "elem", "fld":
			b, ok := a.args[0].(*Atom)
			if !ok {
				if n, isN := a.args[0].(*Node); isN {
					b = n.atom
				}
			}
			if b == nil {
				return false
			}
			a = b
		default:
			return false
		}
	}
}

// pathsOf lists the paths of a decision to defined leaves.
func pathsOf(n *Node) (out [][]cons) {
	out, _ = pathsKinds(n)
	return
}

// pathsKinds: the paths of a partition and what it returns on each.
func pathsKinds(n *Node) (out [][]cons, kinds []int) {
	var walk func(n *Node, p []cons)
	walk = func(n *Node, p []cons) {
		if n.k == NDec {
			for i, k := range n.kids {
				walk(k, append(append([]cons(nil), p...), kidCons(n, i)))
			}
			return
		}
		if n.lk == LInt && feasible(p) {
			out = append(out, p)
			k := -1
			if n.lin.isConst() {
				k = int(n.lin.k.Int64())
			}
			kinds = append(kinds, k)
		}
	}
	walk(n, nil)
	return
}

func withMut(r *Node, st *State) *Node { return r }

func (c *Ctx) note(en *Engine) { en.seen = c.funcs }

func pkgOf(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}

// setupRoot: what each obligation of the root package looks at.
func (c *Ctx) setupRoot(en *Engine, n string) {
	if strings.HasPrefix(n, "C20_") {
		return
	}
	switch n {
	case "C07_Handshake":
		sessionModels(c, en, "connect", "exec", "dump")
	case "C02_Category":
	default:
		sessionModels(c, en)
	}
}
