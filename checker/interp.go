package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// State is the mutable part of the abstract machine.
type State struct {
	h   map[*Obj]*Node
	ov  map[ssa.Value]*Node // registers defined in finished loops
	tr  *Node               // effect trace
	mut map[*Obj]bool       // foreign objects written
	pg  *Node               // condition under which the last call panicked
}

func newState() *State {
	return &State{h: map[*Obj]*Node{}, ov: map[ssa.Value]*Node{}, tr: mkSeqV(emptySeq('g'), false), mut: map[*Obj]bool{}}
}

func (s *State) clone() *State {
	c := &State{h: make(map[*Obj]*Node, len(s.h)), ov: make(map[ssa.Value]*Node, len(s.ov)), tr: s.tr, mut: map[*Obj]bool{}, pg: s.pg}
	for k, v := range s.h {
		c.h[k] = v
	}
	for k, v := range s.ov {
		c.ov[k] = v
	}
	for k := range s.mut {
		c.mut[k] = true
	}
	return c
}

func (s *State) get(o *Obj) *Node {
	if v := s.h[o]; v != nil {
		return v
	}
	if o.init == nil {
		failf("object %s has no content", o.name)
	}
	return o.init
}

func (s *State) set(o *Obj, v *Node) {
	if o.foreign && s.get(o) != v {
		s.mut[o] = true
	}
	s.h[o] = v
}

// edge is a control transfer with its guard and state.
type edge struct {
	from  *ssa.BasicBlock
	to    *ssa.BasicBlock // nil: return or panic
	guard *Node
	st    *State
	ret   []*Node
	panic bool
}

// mergeStates merges the states of edges (guards assumed to cover).
func mergeStates(es []*edge) *State {
	last := es[len(es)-1]
	out := last.st.clone()
	for i := len(es) - 2; i >= 0; i-- {
		e := es[i]
		for o, v := range e.st.h {
			w, ok := out.h[o]
			if !ok {
				w = o.init
				if w == nil || o.fresh {
					out.h[o] = v
					continue
				}
			}
			if w != v {
				out.h[o] = ite(e.guard, v, w)
			}
		}
		for o, w := range out.h {
			if _, ok := e.st.h[o]; !ok && o.init != nil && !o.fresh && o.init != w {
				out.h[o] = ite(e.guard, o.init, w)
			}
		}
		for k, v := range e.st.ov {
			w, ok := out.ov[k]
			if !ok {
				out.ov[k] = v
			} else if v != w {
				out.ov[k] = iteAny(e.guard, v, w)
			}
		}
		if e.st.tr != out.tr {
			out.tr = ite(e.guard, e.st.tr, out.tr)
		}
		for o := range e.st.mut {
			out.mut[o] = true
		}
		if e.st.pg != out.pg {
			out.pg = ite(e.guard, pgOf(e.st.pg), pgOf(out.pg))
		}
	}
	return out
}

func pgOf(n *Node) *Node {
	if n == nil {
		return nFalse
	}
	return n
}

// iteAny merges values that may have different shapes (dead registers).
func iteAny(g, a, b *Node) *Node {
	if (a.k == NAgg) != (b.k == NAgg) {
		if a.k == NAgg {
			return a
		}
		return b
	}
	return ite(g, a, b)
}

// ---------------------------------------------------------------- engine

type Engine struct {
	prog           *ssa.Program
	bound          map[string]func(c *call) *Node // boundary models by function name
	effects        map[string]bool                // "Iface.Method" with effects
	devirt         map[string]types.Type          // interface type -> concrete type
	ignore         map[string]bool                // package paths whose calls are ignored
	globals        map[*ssa.Global]*Obj
	gstate         *State
	loops          map[*ssa.Function]*loopInfo
	stack          []*ssa.Function
	rec            map[*ssa.Function]bool // recursive functions met
	recOK          func(*ssa.Function) bool
	nilEq          bool // nil and empty slices are the same when frozen
	steps          int
	inInit         bool
	recBase        map[*ssa.Function]int
	mutableGlobals map[*ssa.Global]bool
	seen           map[string]bool
	step           *stepHook
	once           map[string]*Obj
	session        bool // goroutines and channels are opaque
	sess           *session
	loads          map[spot]bool   // what is read, when wanted
	cells          map[string]*Obj // atomic values
	mute           map[string]bool // effects that are not compared
	hook           func(c *call) (*Node, bool)
	recDepth       int             // a function may be on the stack so often, then its call is a symbol
	drop           map[string]bool // Type.Field: not part of the property
	handedT        map[string]bool
}

type call struct {
	en   *Engine
	fr   *frame
	fn   *ssa.Function
	name string
	args []*Node
	argT []types.Type
	resT *types.Tuple
	st   *State
	pos  token.Pos
}

type frame struct {
	en     *Engine
	fn     *ssa.Function
	env    map[ssa.Value]*Node
	binds  []*Node
	args   []*Node
	defers []deferred
	rets   []*Node
}

type deferred struct {
	guard *Node
	call  *ssa.CallCommon
	fn    *Node
	args  []*Node
	pos   token.Pos
}

func (fr *frame) get(v ssa.Value, st *State) *Node {
	switch v := v.(type) {
	case *ssa.Const:
		return constNode(v)
	case *ssa.Global:
		return mkPtr(fr.en.globalObj(v), nil)
	case *ssa.Function:
		return mkFunc(v, nil)
	case *ssa.Builtin:
		failf("builtin as value")
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == v {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == v {
				return fr.binds[i]
			}
		}
	}
	if st != nil {
		if n := st.ov[v]; n != nil {
			return n
		}
	}
	n := fr.env[v]
	if n == nil {
		failf("%s: value %s undefined", fr.fn, v.Name())
	}
	return n
}

func constNode(c *ssa.Const) *Node {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(litSeq(constant.StringVal(c.Value)))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mkFloatC(c.Value.ExactString())
		}
		i, ok := new(bigInt).SetString(c.Value.ExactString(), 10)
		if !ok {
			failf("constant %s", c)
		}
		return mkInt(linC(i))
	case constant.Float:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			v := constant.ToInt(c.Value)
			i, _ := new(bigInt).SetString(v.ExactString(), 10)
			return mkInt(linC(i))
		}
		return mkFloatC(c.Value.ExactString())
	}
	failf("constant %s", c)
	return nil
}

func (en *Engine) globalObj(g *ssa.Global) *Obj {
	if o := en.globals[g]; o != nil {
		return o
	}
	el := g.Type().(*types.Pointer).Elem()
	o := newObj(g.String(), el, nil)
	en.globals[g] = o
	switch {
	case en.inInit && en.inInitPkg(g):
		o.init = zeroVal(el)
	case isErrorType(el):
		// sentinel error of another package
		o.init = mkIface(el, mkOpq(mkAtomT("global", nil, nil, el, g.String()), el))
	default:
		if k := constInit(g); k != nil {
			o.init = constNode(k)
			break
		}
		o.init = valueOf(mkAtomT("global", nil, nil, el, g.String()), el)
	}
	return o
}

var constInits = map[*ssa.Global]*ssa.Const{}

// constInit: the constant a basic variable of another package holds for ever.
func constInit(g *ssa.Global) (k *ssa.Const) {
	if k, ok := constInits[g]; ok {
		return k
	}
	defer func() { constInits[g] = k }()
	if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Basic); !ok || g.Pkg == nil {
		return nil
	}
	for f := range ssautil.AllFunctions(g.Pkg.Prog) {
		if f.Pkg != g.Pkg && (f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), repoRoot)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch i := i.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						c, ok := i.Val.(*ssa.Const)
						if !ok || i.Addr != ssa.Value(g) || k != nil || f.Name() != "init" {
							return nil
						}
						k = c
					default:
						return nil
					}
				}
			}
		}
	}
	return k
}

var initPkgs = map[string]bool{}

func (en *Engine) inInitPkg(g *ssa.Global) bool { return g.Pkg != nil && initPkgs[g.Pkg.Pkg.Path()] }

// runInit interprets the package initialiser so that tables are constants.
func (en *Engine) runInit(p *ssa.Package) {
	initPkgs[p.Pkg.Path()] = true
	en.inInit = true
	defer func() { en.inInit = false }()
	f := p.Func("init")
	st := en.gstate
	fr := &frame{en: en, fn: f, env: map[ssa.Value]*Node{}}
	// straight evaluation, assuming the init guard is false
	fr.evalFunc(nil, nil, st)
}

// mutable globals: stored to outside init.
func (en *Engine) findMutableGlobals(pkgs []*ssa.Package, fns map[*ssa.Function]bool) {
	en.mutableGlobals = map[*ssa.Global]bool{}
	for f := range fns {
		if f.Pkg == nil || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil {
						en.mutableGlobals[g] = true
					}
				}
			}
		}
	}
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
				v = u.X
			} else {
				v = x.X
			}
		default:
			return nil
		}
	}
}

// evalFunc interprets fr.fn. st is updated in place to the merged return
// state. The result is the single result, an aggregate of results, or nil.
func (fr *frame) evalFunc(args, binds []*Node, st *State) *Node {
	fn := fr.fn
	en := fr.en
	if len(en.stack) > 60 {
		failf("call depth at %s", fn)
	}
	if en.seen != nil && fn.Pkg != nil {
		en.seen[fn.String()] = true
	}
	en.stack = append(en.stack, fn)
	defer func() { en.stack = en.stack[:len(en.stack)-1] }()
	fr.args, fr.binds = args, binds
	saveOv := st.ov
	st.ov = map[ssa.Value]*Node{}
	li := en.loopsOf(fn)
	entry := fn.Blocks[0]
	exits := fr.evalRegion(li, entry, nil, []*edge{{to: entry, guard: nTrue, st: st.clone()}})
	var rets []*edge
	pg := nFalse
	for _, e := range exits {
		if e.panic {
			pg = or(pg, e.guard)
			continue
		}
		if e.to == nil {
			rets = append(rets, e)
		}
	}
	if len(rets) == 0 {
		st.ov = saveOv
		st.pg = nTrue
		return deadResult(fn.Signature.Results())
	}
	var vals []*Node
	for i := range rets[0].ret {
		var v *Node
		if len(rets) == 1 && pg == nFalse {
			v = rets[0].ret[i]
		} else {
			v = nDead
			if pg != nFalse {
				v = ite(pg, mkPanic(), v)
			}
			if rets[0].ret[i].k == NAgg {
				v = spread(v, rets[0].ret[i])
			}
			for j := len(rets) - 1; j >= 0; j-- {
				v = ite(rets[j].guard, rets[j].ret[i], v)
			}
		}
		vals = append(vals, v)
	}
	ms := mergeStates(rets)
	st.h, st.tr, st.mut = ms.h, ms.tr, ms.mut
	if pg != nFalse {
		st.pg = pg
	}
	st.ov = saveOv
	switch len(vals) {
	case 0:
		return nil
	case 1:
		return vals[0]
	}
	names := make([]string, len(vals))
	for i := range names {
		names[i] = fmt.Sprint(i)
	}
	return &Node{k: NAgg, names: names, kids: vals, id: -1}
}

// spread gives a scalar the shape of an aggregate.
func spread(v, like *Node) *Node {
	if like.k != NAgg {
		return v
	}
	fs := make([]*Node, len(like.kids))
	for i := range fs {
		fs[i] = spread(v, like.kids[i])
	}
	return mkAgg(like.names, fs)
}

// ---------------------------------------------------------------- regions

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	order map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*natLoop // by header
	live  map[*natLoop][]ssa.Value
}

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (en *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li := en.loops[fn]; li != nil {
		return li
	}
	if len(fn.Blocks) == 0 {
		failf("function %s has no body", fn)
	}
	li := &loopInfo{order: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*natLoop{}, live: map[*natLoop][]ssa.Value{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.order[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if li.order[s] <= li.order[b] { // retreating edge
				if !s.Dominates(b) {
					failf("irreducible control flow in %s", fn)
				}
				l := li.loops[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	for _, l := range li.loops {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						li.live[l] = append(li.live[l], v)
						break
					}
				}
			}
		}
	}
	en.loops[fn] = li
	return li
}

// evalRegion evaluates the blocks of loop l (nil: whole function) once.
// Edges back to the header and edges leaving the region are returned.
func (fr *frame) evalRegion(li *loopInfo, header *ssa.BasicBlock, l *natLoop, entry []*edge) []*edge {
	in := map[*ssa.BasicBlock][]*edge{header: entry}
	var exits []*edge
	emit := func(e *edge) {
		if e.guard == nFalse {
			return
		}
		if e.to == nil || e.to == header || l != nil && !l.blocks[e.to] {
			exits = append(exits, e)
			return
		}
		in[e.to] = append(in[e.to], e)
	}
	for _, b := range li.rpo[li.order[header]:] {
		es := in[b]
		if len(es) == 0 {
			continue
		}
		if l != nil && !l.blocks[b] {
			continue
		}
		if il := li.loops[b]; il != nil && b != header {
			for _, e := range fr.evalLoop(li, il, es) {
				emit(e)
			}
			continue
		}
		if b == header && l == nil && li.loops[b] != nil {
			failf("loop at function entry of %s", fr.fn)
		}
		g, st := joinEdges(es)
		if b != header || l == nil {
			fr.phis(b, es, st)
		}
		for _, e := range fr.evalBlock(b, g, st) {
			emit(e)
		}
	}
	return exits
}

func joinEdges(es []*edge) (*Node, *State) {
	if len(es) == 1 {
		return es[0].guard, es[0].st.clone()
	}
	g := es[0].guard
	for _, e := range es[1:] {
		g = or(g, e.guard)
	}
	return g, mergeStates(es)
}

func (fr *frame) phis(b *ssa.BasicBlock, es []*edge, st *State) {
	var vs []*Node
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v *Node
		for i := len(es) - 1; i >= 0; i-- {
			x := fr.edgeVal(p, es[i])
			if v == nil {
				v = x
			} else {
				v = iteAny(es[i].guard, x, v)
			}
		}
		ps = append(ps, p)
		vs = append(vs, v)
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
		delete(st.ov, p)
	}
}

func (fr *frame) edgeVal(p *ssa.Phi, e *edge) *Node {
	for i, pr := range p.Block().Preds {
		if pr == e.from {
			return fr.get(p.Edges[i], e.st)
		}
	}
	failf("phi edge")
	return nil
}

func isTrue(c *Node) *Node {
	return apply1(c, func(x *Node) *Node { return mkBool(x.lk == LBool && x.b) })
}
func isFalse(c *Node) *Node {
	return apply1(c, func(x *Node) *Node { return mkBool(x.lk == LBool && !x.b) })
}

// apply1 maps every leaf including Dead/Any/Panic.
func apply1(n *Node, f func(*Node) *Node) *Node {
	memo := map[int]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.k == NLeaf {
			return f(n)
		}
		if r := memo[n.id]; r != nil {
			return r
		}
		if n.k == NAgg {
			failf("apply1 on aggregate")
		}
		kids := make([]*Node, len(n.kids))
		for i, k := range n.kids {
			kids[i] = rec(k)
		}
		var r *Node
		if n.subj.lin != nil {
			r = mkDecIntC(n.subj, n.cuts, kids)
		} else {
			r = mkDecEqC(n.subj, n.pts, kids)
		}
		memo[n.id] = r
		return r
	}
	return rec(n)
}

// evalBlock interprets the instructions of b (phis are already done).
func (fr *frame) evalBlock(b *ssa.BasicBlock, g *Node, st *State) (out []*edge) {
	en := fr.en
	// a call that panics under some condition ends the block there
	panicked := func() {
		pg := pgOf(st.pg)
		st.pg = nil
		if pg == nFalse {
			return
		}
		out = append(out, &edge{from: b, guard: and(g, pg), st: st.clone(), panic: true})
		g = and(g, not(pg))
	}
	for _, in := range b.Instrs {
		if st.pg != nil {
			panicked()
			if g == nFalse {
				return out
			}
		}
		en.steps++
		if en.steps > 3000000 {
			failf("analysis budget exceeded in %s", fr.fn)
		}
		if in.Pos() != token.NoPos {
			curPos = in.Pos()
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := fr.get(in.Cond, st)
			return append(out,
				&edge{from: b, to: b.Succs[0], guard: and(g, isTrue(c)), st: st},
				&edge{from: b, to: b.Succs[1], guard: and(g, isFalse(c)), st: st})
		case *ssa.Jump:
			return append(out, &edge{from: b, to: b.Succs[0], guard: g, st: st})
		case *ssa.Return:
			rs := make([]*Node, len(in.Results))
			for i, r := range in.Results {
				rs[i] = fr.get(r, st)
			}
			return append(out, &edge{from: b, guard: g, st: st, ret: rs})
		case *ssa.Panic:
			return append(out, &edge{from: b, guard: g, st: st, panic: true})
		case *ssa.RunDefers:
			for i := len(fr.defers) - 1; i >= 0; i-- {
				d := fr.defers[i]
				fr.condCall(d, st)
			}
		case *ssa.Store:
			fr.store(fr.get(in.Addr, st), fr.get(in.Val, st), in.Val.Type(), st)
		case *ssa.MapUpdate:
			fr.mapUpdate(fr.get(in.Map, st), fr.get(in.Key, st), fr.get(in.Value, st), in.Map.Type(), st)
		case *ssa.Defer:
			d := deferred{guard: g, call: &in.Call, pos: in.Pos()}
			if !in.Call.IsInvoke() {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					d.fn = fr.get(in.Call.Value, st)
				}
			} else {
				d.fn = fr.get(in.Call.Value, st)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, fr.get(a, st))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			if fr.en.session {
				rec := &goRec{call: &in.Call, pos: in.Pos(), caller: fr.fn, running: newObj("running", types.Typ[types.Bool], nFalse)}
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					rec.fn = fr.get(in.Call.Value, st)
				}
				for _, a := range in.Call.Args {
					rec.args = append(rec.args, fr.get(a, st))
				}
				rec.objsAt = objN
				st.set(rec.running, nTrue)
				rec.st = st.clone()
				fr.en.sess.goes = append(fr.en.sess.goes, rec)
				if fr.en.sess.watch {
					fr.en.loads = fr.en.sess.after
				}
				fr.en.effect(st, "go", nil)
				continue
			}
			failf("goroutine started in analysed function %s", fr.fn)
		case *ssa.Send:
			ch := fr.get(in.Chan, st)
			if fr.en.session {
				fr.send(ch, fr.get(in.X, st), st)
				continue
			}
			fr.en.effect(st, "send", nil, fr.freeze(ch, st), fr.freeze(fr.get(in.X, st), st))
		case *ssa.DebugRef:
		case ssa.Value:
			fr.env[in] = fr.evalValue(in, st)
			delete(st.ov, in)
		default:
			failf("instruction %T in %s", in, fr.fn)
		}
	}
	failf("block without terminator")
	return nil
}

// condCall runs a deferred call under its guard.
func (fr *frame) condCall(d deferred, st *State) {
	s2 := st.clone()
	fr.doCall(d.call, d.fn, d.args, s2, d.pos)
	if d.guard == nTrue {
		*st = *s2
		return
	}
	m := mergeStates([]*edge{{guard: d.guard, st: s2}, {guard: not(d.guard), st: st}})
	*st = *m
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (fr *frame) evalValue(in ssa.Value, st *State) *Node {
	switch in := in.(type) {
	case *ssa.Alloc:
		el := deref(in.Type())
		o := newObj(in.Comment, el, zeroVal(el))
		o.fresh = true
		st.h[o] = o.init
		return mkPtr(o, nil)
	case *ssa.BinOp:
		return fr.binop(in.Op, fr.get(in.X, st), fr.get(in.Y, st), in.X.Type(), in.Y.Type(), in.Type(), st)
	case *ssa.UnOp:
		x := fr.get(in.X, st)
		switch in.Op {
		case token.MUL:
			return fr.load(x, in.Type(), st)
		case token.NOT:
			return not(x)
		case token.SUB:
			if isFloatT(in.Type()) {
				return fr.app("fneg", in.Type(), st, x)
			}
			return liftLin(x, func(l *Lin) *Node { return wrapArith(linNeg(l), in.Type()) })
		case token.XOR:
			n, signed, _ := intInfo(in.Type())
			return liftLin(x, func(l *Lin) *Node {
				if signed {
					return mkInt(linAddI(linNeg(l), bi(-1)))
				}
				return mkInt(linAddI(linNeg(l), subI(pow2(n), b1)))
			})
		case token.ARROW:
			el := in.X.Type().Underlying().(*types.Chan).Elem()
			if fr.en.session {
				v, ok := fr.receive(x, el, st)
				if in.CommaOk {
					return tuple(v, ok)
				}
				return v
			}
			ch := fr.freeze(x, st)
			v, ok := fr.en.recv(st, ch, el)
			if in.CommaOk {
				return &Node{k: NAgg, names: []string{"0", "1"}, kids: []*Node{v, ok}, id: -1}
			}
			return v
		}
	case *ssa.Call:
		var fn *Node
		if in.Call.IsInvoke() {
			fn = fr.get(in.Call.Value, st)
		} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			fn = fr.get(in.Call.Value, st)
		}
		args := make([]*Node, len(in.Call.Args))
		for i, a := range in.Call.Args {
			args[i] = fr.get(a, st)
		}
		r := fr.doCall(&in.Call, fn, args, st, in.Pos())
		if r == nil {
			r = nNil
		}
		return r
	case *ssa.ChangeType:
		return fr.get(in.X, st)
	case *ssa.ChangeInterface:
		return fr.get(in.X, st)
	case *ssa.Convert:
		return fr.convert(fr.get(in.X, st), in.X.Type(), in.Type(), st)
	case *ssa.MultiConvert:
		failf("generic conversion")
	case *ssa.MakeInterface:
		x := fr.get(in.X, st)
		t := in.X.Type()
		return apply(func(a []*Node) *Node { return mkIface(t, a[0]) }, tupLeaf(x))
	case *ssa.MakeClosure:
		bs := make([]*Node, len(in.Bindings))
		for i, b := range in.Bindings {
			bs[i] = fr.get(b, st)
		}
		return apply(func(a []*Node) *Node {
			return mkFunc(in.Fn.(*ssa.Function), append([]*Node(nil), a...))
		}, bs...)
	case *ssa.MakeMap:
		o := newObj("map", in.Type(), mkMapV(nil, nil))
		o.fresh = true
		st.h[o] = o.init
		return mkMapP(o)
	case *ssa.MakeChan:
		if fr.en.session {
			return fr.en.sess.makeChan(in)
		}
		failf("channel created in analysed function %s", fr.fn)
	case *ssa.MakeSlice:
		n := fr.get(in.Len, st)
		el := elemType(in.Type())
		k := seqKind(in.Type())
		z := tupLeaf(zeroVal(el))
		// one object; content depends on the length value
		content := liftLin(n, func(l *Lin) *Node {
			if l.isConst() && l.k.Sign() < 0 {
				return nDead
			}
			return mkSeqV(mkSeq(k, []Piece{{k: PFill, val: z, n: l}}), false)
		})
		o := newObj("make", in.Type(), content)
		o.fresh = true
		st.h[o] = content
		return liftLin(n, func(l *Lin) *Node { return mkSlice(o, nil, linC(b0), l) })
	case *ssa.FieldAddr:
		return fr.lift1(fr.get(in.X, st), deref(in.X.Type()), func(p *Node) *Node {
			return mkPtr(p.obj, append(append([]PathEl(nil), p.path...), PathEl{field: in.Field}))
		})
	case *ssa.Field:
		x := fr.get(in.X, st)
		return fieldIdx(x, in.Field, in.X.Type())
	case *ssa.IndexAddr:
		x := fr.get(in.X, st)
		i := fr.get(in.Index, st)
		return apply(func(a []*Node) *Node {
			p, ix := a[0], a[1]
			if p.lk == LNil {
				return nDead
			}
			if p.lk == LSlice {
				return mkPtr(p.obj, append(append([]PathEl(nil), p.path...), PathEl{idx: linAdd(p.lin, ix.lin)}))
			}
			p = fr.asPtr(p, deref(in.X.Type()))
			return mkPtr(p.obj, append(append([]PathEl(nil), p.path...), PathEl{idx: ix.lin}))
		}, x, i)
	case *ssa.Index:
		x := fr.get(in.X, st)
		i := fr.get(in.Index, st)
		return untup(apply(func(a []*Node) *Node {
			return seqIndex(seqOf(a[0]), a[1].lin, matFrozen(in.Type()))
		}, x, i), in.Type())
	case *ssa.Lookup:
		return fr.lookup(in, st)
	case *ssa.Slice:
		return fr.slice(in, st)
	case *ssa.TypeAssert:
		return fr.typeAssert(fr.get(in.X, st), in.AssertedType, in.CommaOk, st)
	case *ssa.Extract:
		x := fr.get(in.Tuple, st)
		if x.k != NAgg {
			return x
		}
		return x.kids[in.Index]
	case *ssa.Range:
		return fr.rangeInit(in, st)
	case *ssa.Next:
		return fr.rangeNext(in, st)
	case *ssa.Select:
		return fr.selectOp(in, st)
	case *ssa.SliceToArrayPointer:
		failf("slice to array pointer conversion")
	}
	failf("value %T (%s) in %s", in, in, fr.fn)
	return nil
}

func fieldIdx(x *Node, i int, t types.Type) *Node {
	if x.k == NAgg {
		return x.kids[i]
	}
	if x.k == NLeaf && (x.lk == LDead || x.lk == LPanic || x.lk == LAny) {
		return x
	}
	u := untup(x, t)
	if u.k != NAgg {
		failf("field of %s", x)
	}
	return u.kids[i]
}

// lift1 applies f to every pointer leaf (made concrete).
func (fr *frame) lift1(x *Node, el types.Type, f func(*Node) *Node) *Node {
	return apply(func(a []*Node) *Node {
		if a[0].lk == LNil {
			return nDead
		}
		return f(fr.asPtr(a[0], el))
	}, x)
}

// asPtr makes a pointer leaf concrete.
func (fr *frame) asPtr(p *Node, el types.Type) *Node {
	switch p.lk {
	case LPtr:
		return p
	case LOpq:
		return mkPtr(opaquePtrObj(p, el), nil)
	case LRef:
		return mkPtr(thawObj(p.kids[0], el), nil)
	case LTup:
		return mkPtr(thawObj(p, el), nil)
	case LSeqV: // buffer content stored by value
		return mkPtr(thawObj(p, el), nil)
	}
	failf("pointer expected, have %s", p)
	return nil
}

var thawed = map[string]*Obj{}

func thawObj(content *Node, el types.Type) *Obj {
	k := fmt.Sprintf("%d|%s", content.id, typeKey(el))
	if o := thawed[k]; o != nil {
		return o
	}
	o := newObj("value", el, untup(content, el))
	o.key = content
	thawed[k] = o
	return o
}

// thaw: a frozen leaf becomes a Go-level value of type t.
func thaw(n *Node, t types.Type) *Node {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if bufferType(t) || opaqueStruct(t) {
			return n
		}
		if n.k == NAgg {
			fs := make([]*Node, len(n.kids))
			for i := range fs {
				fs[i] = thaw(n.kids[i], u.Field(i).Type())
			}
			return mkAgg(n.names, fs)
		}
		if n.k == NLeaf && (n.lk == LDead || n.lk == LAny || n.lk == LPanic) {
			return n
		}
		return thaw(untup(n, t), t)
	case *types.Slice:
		return apply(func(a []*Node) *Node {
			if a[0].lk == LSeqV {
				if a[0].b {
					return nNil
				}
				ps := a[0].seq.ps
				if len(ps) == 1 && ps[0].k == PWin && isZero(ps[0].off) && ps[0].n == lenOf(ps[0].base) && ps[0].base.typ != nil && sortOf(ps[0].base.typ) == 's' {
					if _, isS := ps[0].base.typ.Underlying().(*types.Slice); isS {
						return mkSlice(opaqueSliceObj(ps[0].base, t), nil, linC(b0), ps[0].n)
					}
				}
				o := thawSlice(a[0], t)
				return mkSlice(o, nil, linC(b0), a[0].seq.length())
			}
			return a[0]
		}, n)
	case *types.Map:
		return apply(func(a []*Node) *Node {
			if a[0].lk == LMapV {
				k := fmt.Sprintf("m%d", a[0].id)
				o := thawed[k]
				if o == nil {
					o = newObj("map", t, a[0])
					thawed[k] = o
				}
				return mkMapP(o)
			}
			return a[0]
		}, n)
	}
	return n
}

func thawSlice(n *Node, t types.Type) *Obj {
	k := fmt.Sprintf("s%d|%s", n.id, typeKey(t))
	if o := thawed[k]; o != nil {
		return o
	}
	o := newObj("slice value", t, n)
	o.key = n
	thawed[k] = o
	return o
}

func matFrozen(t types.Type) func(*Atom, *Lin) *Node {
	return func(a *Atom, off *Lin) *Node {
		if isByteT(t) {
			return mkInt(byteLin(a, off))
		}
		return tupLeaf(frozenOf(mkAtomT("elem", nil, nil, t, a, off), t))
	}
}

// loadPath reads path of content (of type t).
func loadPath(c *Node, t types.Type, path []PathEl) *Node {
	for _, e := range path {
		if e.idx != nil {
			el := elemType(t)
			c = apply(func(a []*Node) *Node {
				if a[0].lk == LNil {
					return nDead
				}
				return seqIndex(seqOf(a[0]), e.idx, matFrozen(el))
			}, c)
			t = el
			c = thaw(c, el)
		} else {
			st := t.Underlying().(*types.Struct)
			c = fieldIdx(c, e.field, t)
			t = st.Field(e.field).Type()
		}
	}
	return c
}

func storePath(c *Node, t types.Type, path []PathEl, v *Node) *Node {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.idx != nil {
		el := elemType(t)
		var nv *Node
		if len(path) == 1 {
			nv = v
		} else {
			old := loadPath(c, t, path[:1])
			nv = storePath(old, el, path[1:], v)
		}
		return apply(func(a []*Node) *Node { return seqUpdate(seqOf(a[0]), e.idx, a[1]) }, c, tupLeaf(nv))
	}
	st := t.Underlying().(*types.Struct)
	if c.k != NAgg {
		c = untup(c, t)
	}
	if c.k != NAgg {
		failf("store into %s", c)
	}
	fs := append([]*Node(nil), c.kids...)
	fs[e.field] = storePath(fs[e.field], st.Field(e.field).Type(), path[1:], v)
	return mkAgg(c.names, fs)
}

func (fr *frame) load(p *Node, t types.Type, st *State) *Node {
	return fr.applyAgg(t, func(a *Node) *Node {
		if a.lk == LNil {
			return nDead
		}
		q := fr.asPtr(a, t)
		if fr.en.loads != nil {
			fr.en.loads[spotOf(q)] = true
		}
		return loadPath(st.get(q.obj), q.obj.typ, q.path)
	}, p)
}

// applyAgg lifts f (which may return aggregates) over the leaves of p.
func (fr *frame) applyAgg(t types.Type, f func(*Node) *Node, p *Node) *Node {
	if p.k == NLeaf {
		if p.lk == LDead || p.lk == LAny || p.lk == LPanic {
			return spreadT(p, t)
		}
		r := f(p)
		if r.k == NLeaf {
			return spreadT(r, t)
		}
		return r
	}
	// decide leaf by leaf
	leaves := leavesOf(p)
	var r *Node
	for i := len(leaves) - 1; i >= 0; i-- {
		v := fr.applyAgg(t, f, leaves[i])
		if r == nil {
			r = v
		} else {
			r = ite(leafIs(p, leaves[i]), v, r)
		}
	}
	return r
}

func spreadT(v *Node, t types.Type) *Node {
	if v.lk != LDead && v.lk != LPanic && v.lk != LAny {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok && !bufferType(t) && !opaqueStruct(t) {
		names := make([]string, st.NumFields())
		fs := make([]*Node, st.NumFields())
		for i := range fs {
			names[i] = st.Field(i).Name()
			fs[i] = spreadT(v, st.Field(i).Type())
		}
		if len(fs) == 0 {
			return mkAgg(names, fs)
		}
		return intern("G"+strings.Join(names, ",")+idsKey(fs), &Node{k: NAgg, names: names, kids: fs})
	}
	return v
}

func leavesOf(n *Node) []*Node {
	seen := map[*Node]bool{}
	var out []*Node
	var rec func(n *Node)
	rec = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.k == NLeaf {
			out = append(out, n)
			return
		}
		for _, k := range n.kids {
			rec(k)
		}
	}
	rec(n)
	return out
}

// leafIs: the condition under which decision n reaches leaf l.
func leafIs(n, l *Node) *Node {
	return apply1(n, func(x *Node) *Node { return mkBool(x == l) })
}

func (fr *frame) store(p, v *Node, t types.Type, st *State) {
	leaves := leavesOf(p)
	for _, lf := range leaves {
		if lf.lk == LNil || lf.lk == LDead || lf.lk == LPanic || lf.lk == LAny {
			continue
		}
		q := fr.asPtr(lf, t)
		old := st.get(q.obj)
		nw := storePath(old, q.obj.typ, q.path, v)
		if len(leaves) > 1 {
			nw = ite(leafIs(p, lf), nw, old)
		}
		st.set(q.obj, nw)
		if q.obj.opq != nil && q.obj.opq.op == "mget" {
			fr.storeOwned(q.obj, st)
		}
		if q.obj.key != nil {
			if q.obj.own == nil {
				failf("%s: write through a pointer of unknown ownership", fr.fn)
			}
		}
	}
}

// storeOwned writes an object reached through a map lookup back to the map.
func (fr *frame) storeOwned(o *Obj, st *State) {
	base, key := o.opq.args[0].(*Atom), o.opq.args[1].(*Node)
	done := false
	for m := range st.h {
		c := st.get(m)
		if _, ok := m.typ.Underlying().(*types.Map); !ok {
			continue
		}
		for _, l := range leavesOf(c) {
			if l.lk == LMapV && l.atom == base {
				val := tupLeaf(fr.freezeAgg(st.get(o), st))
				st.set(m, mapPut(c, key, val))
				done = true
				break
			}
		}
	}
	if !done {
		failf("%s: write to a map entry whose map is not known", fr.fn)
	}
}

func (fr *frame) mapUpdate(m, k, v *Node, mt types.Type, st *State) {
	key := fr.freeze(k, st)
	val := fr.noNil(fr.mapVal(v, st), mt.Underlying().(*types.Map).Elem())
	leaves := leavesOf(m)
	for _, lf := range leaves {
		if lf.lk == LNil || lf.lk == LDead || lf.lk == LPanic {
			continue
		}
		if lf.lk != LMap {
			failf("map update of %s", lf)
		}
		old := st.get(lf.obj)
		nw := mapPut(old, key, val)
		if len(leaves) > 1 {
			nw = ite(leafIs(m, lf), nw, old)
		}
		st.set(lf.obj, nw)
	}
}

// mapVal freezes a value for storing in a map; pointers to objects made here
// are stored by content.
func (fr *frame) mapVal(v *Node, st *State) *Node {
	f := fr.freeze(v, st)
	return apply(func(a []*Node) *Node {
		if a[0].lk == LRef {
			return a[0].kids[0]
		}
		return a[0]
	}, f)
}

// ---------------------------------------------------------------- freezing

// freeze: decision over frozen leaves.
func (fr *frame) freeze(n *Node, st *State) *Node {
	return tupLeaf(fr.freezeAgg(n, st))
}

func (fr *frame) freezeAgg(n *Node, st *State) *Node {
	if n.k == NAgg {
		fs := make([]*Node, len(n.kids))
		for i, k := range n.kids {
			fs[i] = fr.freezeAgg(k, st)
		}
		return mkAgg(n.names, fs)
	}
	if !n.objs && !mentionsErr(n) {
		return n
	}
	return apply(func(a []*Node) *Node { return fr.freezeLeaf(a[0], st, 0) }, n)
}

func mentionsErr(n *Node) bool { return true }

func (fr *frame) freezeLeaf(n *Node, st *State, depth int) *Node {
	if depth > 12 {
		failf("cyclic structure")
	}
	switch n.lk {
	case LSlice:
		c := loadPath(st.get(n.obj), n.obj.typ, n.path)
		return apply(func(a []*Node) *Node {
			sub := seqSlice(seqOf(a[0]), n.lin, n.lin2)
			return apply(func(b []*Node) *Node { return fr.freezeSeq(b[0].seq, st, depth+1) }, sub)
		}, c)
	case LSeqV:
		if n.b {
			return n
		}
		return fr.freezeSeq(n.seq, st, depth+1)
	case LPtr:
		if len(n.path) > 0 {
			c := loadPath(st.get(n.obj), n.obj.typ, n.path)
			return apply(func(a []*Node) *Node { return mkRef(a[0]) }, fr.freeze(c, st))
		}
		if n.obj.opq != nil && (st.h[n.obj] == nil || st.h[n.obj] == n.obj.init) {
			return mkOpq(n.obj.opq, n.obj.opq.typ)
		}
		c := tupLeaf(fr.dropFields(fr.noNil(fr.freezeAgg(st.get(n.obj), st), n.obj.typ), n.obj.typ))
		if implementsError(n.obj.typ) {
			return nErr
		}
		return apply(func(a []*Node) *Node { return mkRef(a[0]) }, c)
	case LMap:
		return st.get(n.obj)
	case LNil:
		return n
	case LIface:
		if implementsErrorT(n.typ) {
			if n.kids[0].lk == LOpq && n.kids[0].atom.op == "global" {
				return n
			}
			return nErr
		}
		return apply(func(a []*Node) *Node { return mkIface(n.typ, a[0]) }, fr.freeze(n.kids[0], st))
	case LTup:
		ks := make([]*Node, len(n.kids))
		for i, k := range n.kids {
			ks[i] = fr.freezeLeaf(k, st, depth+1)
		}
		return apply(func(a []*Node) *Node { return mkTup(n.names, append([]*Node(nil), a...)) }, ks...)
	}
	return n
}

// dropFields blanks the fields that are not part of the property.
func (fr *frame) dropFields(n *Node, t types.Type) *Node {
	nm, ok := t.(*types.Named)
	if !ok || len(fr.en.drop) == 0 || n.k != NAgg {
		return n
	}
	st, ok := nm.Underlying().(*types.Struct)
	if !ok || st.NumFields() != len(n.kids) {
		return n
	}
	ks := append([]*Node(nil), n.kids...)
	for i := range ks {
		if fr.en.drop[nm.Obj().Name()+"."+st.Field(i).Name()] {
			ks[i] = mkI(0)
		}
	}
	return mkAgg(n.names, ks)
}

func implementsErrorT(t types.Type) bool {
	e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, e)
}

// implementsError: *t is an error type.
func implementsError(t types.Type) bool {
	return implementsErrorT(types.NewPointer(t))
}

func (fr *frame) freezeSeq(s *Seq, st *State, depth int) *Node {
	if !s.objs {
		return mkSeqV(s, false)
	}
	r := mkSeqV(emptySeq(s.kind), false)
	for _, p := range s.ps {
		var n *Node
		switch p.k {
		case PElems:
			els := make([]*Node, len(p.els))
			for i, e := range p.els {
				els[i] = fr.freezeLeaf(e, st, depth+1)
			}
			n = apply(func(a []*Node) *Node { return mkSeqV(elemsSeq(s.kind, append([]*Node(nil), a...)), false) }, els...)
		case PFill:
			n = apply(func(a []*Node) *Node {
				return mkSeqV(mkSeq(s.kind, []Piece{{k: PFill, val: a[0], n: p.n}}), false)
			}, fr.freezeLeaf(p.val, st, depth+1))
		default:
			n = mkSeqV(mkSeq(s.kind, []Piece{p}), false)
		}
		r = apply(func(a []*Node) *Node { return mkSeqV(concatSeq(seqOf(a[0]), seqOf(a[1])), false) }, r, n)
	}
	return r
}

// ---------------------------------------------------------------- operators

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// wrapArith: result of + - * : int and int64 are assumed not to overflow.
func wrapArith(l *Lin, t types.Type) *Node {
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Int64) {
		return mkInt(l)
	}
	return wrapL(l, t)
}

func (fr *frame) binop(op token.Token, x, y *Node, xt, yt, rt types.Type, st *State) *Node {
	switch op {
	case token.EQL:
		return fr.eq(x, y, st)
	case token.NEQ:
		return not(fr.eq(x, y, st))
	}
	if isStringT(xt) {
		switch op {
		case token.ADD:
			return apply(func(a []*Node) *Node { return mkStr(concatSeq(seqOf(a[0]), seqOf(a[1]))) }, x, y)
		case token.LSS:
			return fr.app("strless", types.Typ[types.Bool], st, x, y)
		case token.GTR:
			return fr.app("strless", types.Typ[types.Bool], st, y, x)
		case token.LEQ:
			return not(fr.app("strless", types.Typ[types.Bool], st, y, x))
		case token.GEQ:
			return not(fr.app("strless", types.Typ[types.Bool], st, x, y))
		}
	}
	if isFloatT(xt) {
		return fr.app("float"+op.String(), rt, st, x, y)
	}
	n, signed, ok := intInfo(xt)
	if !ok {
		failf("operator %s on %s", op, xt)
	}
	switch op {
	case token.ADD:
		return liftLin2(x, y, func(a, b *Lin) *Node { return wrapArith(linAdd(a, b), rt) })
	case token.SUB:
		return liftLin2(x, y, func(a, b *Lin) *Node { return wrapArith(linSub(a, b), rt) })
	case token.MUL:
		return liftLin2(x, y, func(a, b *Lin) *Node {
			if b.isConst() {
				return wrapArith(linScale(a, b.k), rt)
			}
			if a.isConst() {
				return wrapArith(linScale(b, a.k), rt)
			}
			if a.id > b.id {
				a, b = b, a
			}
			return wrapArith(linA(mkAtom("mul", nil, nil, a, b)), rt)
		})
	case token.QUO, token.REM:
		return liftLin2(x, y, func(a, b *Lin) *Node {
			if !b.isConst() {
				if r := splitSmall(b, 12, func(v I) *Node {
					if v.Sign() <= 0 {
						return nDead
					}
					if op == token.QUO {
						return quoL(a, v)
					}
					return remL(a, v)
				}); r != nil {
					return r
				}
				return mkInt(linA(mkAtomT("divrem"+op.String(), nil, nil, rt, a, b)))
			}
			if b.k.Sign() == 0 {
				return nDead
			}
			if b.k.Sign() < 0 {
				failf("division by negative constant")
			}
			if op == token.QUO {
				return quoL(a, b.k)
			}
			return remL(a, b.k)
		})
	case token.AND:
		return liftLin2(x, y, func(a, b *Lin) *Node { return wrapL2(andL(a, b, n), rt) })
	case token.OR:
		return liftLin2(x, y, func(a, b *Lin) *Node {
			return liftLin(andL(a, b, n), func(c *Lin) *Node { return wrapL(linSub(linAdd(a, b), c), rt) })
		})
	case token.XOR:
		return liftLin2(x, y, func(a, b *Lin) *Node {
			return liftLin(andL(a, b, n), func(c *Lin) *Node { return wrapL(linSub(linAdd(a, b), linScale(c, b2)), rt) })
		})
	case token.AND_NOT:
		return liftLin2(x, y, func(a, b *Lin) *Node {
			return liftLin(andL(a, b, n), func(c *Lin) *Node { return wrapL(linSub(a, c), rt) })
		})
	case token.SHL:
		return liftLin2(x, y, func(a, b *Lin) *Node {
			if b.isConst() {
				if b.k.Sign() < 0 {
					return nDead
				}
				if b.k.Cmp(bi(int64(n))) >= 0 {
					return mkI(0)
				}
				return wrapL(linScale(a, pow2(uint(b.k.Int64()))), rt)
			}
			if r := splitSmall(b, 65, func(v I) *Node {
				if v.Sign() < 0 || v.Cmp(bi(int64(n))) >= 0 {
					return mkI(0)
				}
				return wrapL(linScale(a, pow2(uint(v.Int64()))), rt)
			}); r != nil {
				return r
			}
			return mkInt(linA(mkAtomT("shl", nil, nil, rt, a, b)))
		})
	case token.SHR:
		return liftLin2(x, y, func(a, b *Lin) *Node {
			if b.isConst() {
				if b.k.Sign() < 0 {
					return nDead
				}
				return divL(a, pow2(uint(minI(b.k, bi(200)).Int64())))
			}
			if r := splitSmall(b, 65, func(v I) *Node {
				if v.Sign() < 0 {
					return nDead
				}
				return divL(a, pow2(uint(minI(v, bi(200)).Int64())))
			}); r != nil {
				return r
			}
			return mkInt(linA(mkAtomT("shr", nil, nil, rt, a, b)))
		})
	case token.LSS:
		return liftLin2(x, y, func(a, b *Lin) *Node { return ltL(a, b) })
	case token.GTR:
		return liftLin2(x, y, func(a, b *Lin) *Node { return ltL(b, a) })
	case token.LEQ:
		return liftLin2(x, y, func(a, b *Lin) *Node { return not(ltL(b, a)) })
	case token.GEQ:
		return liftLin2(x, y, func(a, b *Lin) *Node { return not(ltL(a, b)) })
	}
	_ = signed
	failf("operator %s", op)
	return nil
}

func wrapL2(n *Node, t types.Type) *Node {
	return liftLin(n, func(l *Lin) *Node { return wrapL(l, t) })
}

// eq compares Go values.
func (fr *frame) eq(x, y *Node, st *State) *Node {
	if x.k == NLeaf && x.lk == LNil || y.k == NLeaf && y.lk == LNil {
		if x.k == NLeaf && x.lk == LNil {
			x, y = y, x
		}
		return isNilNode(x)
	}
	if x.leaf(LIface) || y.leaf(LIface) || hasIface(x) || hasIface(y) {
		return eqNode(x, y)
	}
	return eqNode(x, y)
}

func hasIface(n *Node) bool { return false }

func (fr *frame) convert(x *Node, from, to types.Type, st *State) *Node {
	_, _, fi := intInfo(from)
	_, _, ti := intInfo(to)
	switch {
	case fi && ti:
		return liftLin(x, func(l *Lin) *Node { return wrapL(l, to) })
	case isStringT(to):
		if _, ok := from.Underlying().(*types.Slice); ok {
			if !isByteT(elemType(from)) {
				return fr.app("runes2string", to, st, x)
			}
			return apply(func(a []*Node) *Node { return mkStr(seqOf(a[0])) }, fr.seqValue(x, st))
		}
		if isStringT(from) {
			return x
		}
		return fr.app("rune2string", to, st, x)
	case isStringT(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			if !isByteT(s.Elem()) {
				v := fr.app("string2runes", to, st, x)
				return v
			}
			return fr.freshSlice(apply(func(a []*Node) *Node { return mkSeqV(seqOf(a[0]), false) }, x), to, st)
		}
	case fi && isFloatT(to), isFloatT(from) && ti:
		return fr.app("conv:"+typeKey(to), to, st, x)
	case isFloatT(from) && isFloatT(to):
		return fr.app("conv:"+typeKey(to), to, st, x)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return x
	}
	failf("conversion %s -> %s", from, to)
	return nil
}

// seqValue: the current content of a slice / string / array value.
func (fr *frame) seqValue(x *Node, st *State) *Node {
	return apply(func(a []*Node) *Node {
		switch a[0].lk {
		case LNil:
			return mkSeqV(emptySeq('b'), false)
		case LSlice:
			c := loadPath(st.get(a[0].obj), a[0].obj.typ, a[0].path)
			return apply(func(b []*Node) *Node { return seqSlice(seqOf(b[0]), a[0].lin, a[0].lin2) }, c)
		case LStr, LSeqV:
			return mkSeqV(a[0].seq, false)
		}
		failf("sequence expected, have %s", a[0])
		return nil
	}, x)
}

// freshSlice allocates a slice holding the given content.
func (fr *frame) freshSlice(content *Node, t types.Type, st *State) *Node {
	o := newObj("fresh", t, content)
	o.fresh = true
	st.h[o] = content
	return apply(func(a []*Node) *Node { return mkSlice(o, nil, linC(b0), seqOf(a[0]).length()) }, content)
}

func (fr *frame) slice(in *ssa.Slice, st *State) *Node {
	x := fr.get(in.X, st)
	lo, hi := mkI(0), (*Node)(nil)
	if in.Low != nil {
		lo = fr.get(in.Low, st)
	}
	if in.High != nil {
		hi = fr.get(in.High, st)
	}
	args := []*Node{x, lo}
	if hi != nil {
		args = append(args, hi)
	}
	if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		el := deref(in.X.Type())
		n := el.Underlying().(*types.Array).Len()
		return apply(func(a []*Node) *Node {
			p := fr.asPtr(a[0], el)
			h := linN64(n)
			if len(a) > 2 {
				h = a[2].lin
			}
			return mkSlice(p.obj, p.path, a[1].lin, linSub(h, a[1].lin))
		}, args...)
	}
	r := apply(func(a []*Node) *Node {
		switch a[0].lk {
		case LNil:
			return nNil
		case LSlice:
			h := a[0].lin2
			if len(a) > 2 {
				h = a[2].lin
			}
			return mkSlice(a[0].obj, a[0].path, linAdd(a[0].lin, a[1].lin), linSub(h, a[1].lin))
		case LStr:
			h := a[0].seq.length()
			if len(a) > 2 {
				h = a[2].lin
			}
			return toStr(seqSlice(a[0].seq, a[1].lin, linSub(h, a[1].lin)))
		}
		failf("slice of %s", a[0])
		return nil
	}, args...)
	if in.Max != nil {
		// capacity limited: appends cannot reach the original
		w := fr.freshSlice(fr.seqValue(r, st), in.Type(), st)
		for _, o := range leavesOf(w) {
			if o.lk == LSlice {
				for _, l := range leavesOf(r) {
					if l.lk == LSlice {
						o.obj.from = append(o.obj.from, l.obj)
					}
				}
				break
			}
		}
		return w
	}
	return r
}

func (fr *frame) lookup(in *ssa.Lookup, st *State) *Node {
	x := fr.get(in.X, st)
	k := fr.get(in.Index, st)
	if isStringT(in.X.Type()) {
		return apply(func(a []*Node) *Node { return seqIndex(seqOf(a[0]), a[1].lin, matFor(nil)) }, x, k)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	key := fr.freeze(k, st)
	m := fr.mapContent(x, st)
	v, ok := mapGet(m, key, mt.Key(), mt.Elem())
	val := thaw(v, mt.Elem())
	if val.k == NAgg {
		val = spreadDead(val)
	}
	if in.CommaOk {
		return &Node{k: NAgg, names: []string{"0", "1"}, kids: []*Node{val, ok}, id: -1}
	}
	return val
}

func spreadDead(n *Node) *Node { return n }

func (fr *frame) mapContent(x *Node, st *State) *Node {
	return apply(func(a []*Node) *Node {
		switch a[0].lk {
		case LMap:
			return st.get(a[0].obj)
		case LNil, LMapV:
			return a[0]
		}
		failf("map expected, have %s", a[0])
		return nil
	}, x)
}

func (fr *frame) typeAssert(x *Node, t types.Type, commaOk bool, st *State) *Node {
	_, toIface := t.Underlying().(*types.Interface)
	is := apply(func(a []*Node) *Node {
		switch a[0].lk {
		case LIface:
			if toIface {
				return mkBool(types.Implements(a[0].typ, t.Underlying().(*types.Interface)))
			}
			return mkBool(typeKey(a[0].typ) == typeKey(t))
		case LNil, LErr:
			if a[0].lk == LErr {
				return fr.app("errtype:"+typeKey(t), types.Typ[types.Bool], st, a[0])
			}
			return nFalse
		case LOpq:
			d := mkOpq(mkAtom("dyn", nil, nil, a[0]), nil)
			return eqPoint(d, mkTypeLeaf(t))
		}
		failf("type assertion on %s", a[0])
		return nil
	}, x)
	val := fr.applyAgg(t, func(l *Node) *Node {
		switch l.lk {
		case LIface:
			if toIface {
				return l
			}
			if typeKey(l.typ) == typeKey(t) {
				return thaw(untup(l.kids[0], t), t)
			}
			return zeroVal(t)
		case LOpq:
			if toIface {
				return l
			}
			return valueOf(mkAtomT("cast", nil, nil, t, l.atom, typeKey(t)), t)
		case LErr:
			if toIface {
				return l
			}
			return valueOf(mkAtomT("cast", nil, nil, t, mkAtom("anyerr", nil, nil), typeKey(t)), t)
		}
		return zeroVal(t)
	}, x)
	if commaOk {
		return &Node{k: NAgg, names: []string{"0", "1"}, kids: []*Node{ite(is, val, zeroLike(val, t)), is}, id: -1}
	}
	return val
}

func zeroLike(v *Node, t types.Type) *Node {
	z := zeroVal(t)
	return z
}

// app: uninterpreted pure function of frozen arguments.
func (fr *frame) app(name string, t types.Type, st *State, args ...*Node) *Node {
	fz := make([]*Node, len(args))
	for i, a := range args {
		fz[i] = fr.freeze(a, st)
	}
	return appNode(name, 0, t, fz)
}

func appAtom(name string, idx int, t types.Type, args []*Node) *Atom {
	xs := []any{name, idx}
	for _, a := range args {
		xs = append(xs, a)
	}
	return mkAtomT("app", nil, nil, t, xs...)
}

func appNode(name string, idx int, t types.Type, fz []*Node) *Node {
	n := apply(func(a []*Node) *Node {
		return mkOpq(appAtom(name, idx, t, append([]*Node(nil), a...)), t)
	}, fz...)
	if n.k == NLeaf && n.lk == LOpq {
		return valueOf(n.atom, t)
	}
	// the conditions of the arguments may determine the application itself
	val := func(l *Node) *Node {
		if l.lk != LOpq {
			return l
		}
		return valueOf(l.atom, t)
	}
	if _, ok := t.Underlying().(*types.Struct); ok && !opaqueStruct(t) {
		return (&frame{}).applyAgg(t, val, n)
	}
	return apply(func(a []*Node) *Node { return val(a[0]) }, n)
}

// appTuple: results of an uninterpreted function.
func appTuple(name string, rt *types.Tuple, fz []*Node) *Node {
	switch rt.Len() {
	case 0:
		return nil
	case 1:
		return appNode(name, 0, rt.At(0).Type(), fz)
	}
	kids := make([]*Node, rt.Len())
	names := make([]string, rt.Len())
	for i := range kids {
		kids[i] = appNode(name, i, rt.At(i).Type(), fz)
		names[i] = fmt.Sprint(i)
	}
	return &Node{k: NAgg, names: names, kids: kids, id: -1}
}

// effect appends to the trace and returns the result of the effect, an
// opaque function of the history.
func (en *Engine) effect(st *State, op string, rt *types.Tuple, args ...*Node) *Node {
	name := "eff:" + op
	fz := append([]*Node{st.tr}, args...)
	var r *Node
	if rt != nil {
		r = appTuple(name, rt, fz)
	}
	if en.mute[op] {
		return r
	}
	st.tr = apply(func(a []*Node) *Node {
		names := make([]string, len(a)-1)
		for i := range names {
			names[i] = fmt.Sprintf("%s%d", op, i)
		}
		el := mkTup(append([]string{op}, names...), append([]*Node{mkStr(litSeq(op))}, a[1:]...))
		return mkSeqV(concatSeq(a[0].seq, elemsSeq('g', []*Node{el})), false)
	}, append([]*Node{st.tr}, args...)...)
	return r
}

func (en *Engine) recv(st *State, ch *Node, el types.Type) (v, ok *Node) {
	tup := types.NewTuple(types.NewVar(0, nil, "", el), types.NewVar(0, nil, "", types.Typ[types.Bool]))
	r := en.effect(st, "recv", tup, ch)
	return r.kids[0], r.kids[1]
}

func (fr *frame) selectOp(in *ssa.Select, st *State) *Node {
	for _, s := range in.States {
		if s.Dir == types.SendOnly {
			return fr.selectSend(in, st)
		}
	}
	if !in.Blocking {
		failf("non-blocking select in %s", fr.fn)
	}
	type cs struct {
		i  int
		ch *Node
	}
	var cases []cs
	for i, s := range in.States {
		if s.Dir != types.RecvOnly {
			failf("select send in %s", fr.fn)
		}
		ch := fr.freeze(fr.get(s.Chan, st), st)
		if ch.k != NLeaf {
			failf("select on conditional channel")
		}
		cases = append(cases, cs{i, ch})
	}
	sort.Slice(cases, func(i, j int) bool { return cases[i].ch.id < cases[j].ch.id })
	fz := []*Node{st.tr}
	for _, c := range cases {
		fz = append(fz, c.ch)
	}
	sel := apply(func(a []*Node) *Node { return mkOpq(appAtom("select", 0, nil, append([]*Node(nil), a...)), nil) }, fz...)
	idx := mkI(int64(cases[len(cases)-1].i))
	for _, c := range cases[:len(cases)-1] {
		cond := apply(func(a []*Node) *Node { return eqPoint(a[0], c.ch) }, sel)
		idx = ite(cond, mkI(int64(c.i)), idx)
	}
	// results: index, recvOk, r_0...
	base := st.tr
	kids := []*Node{idx, nil}
	ok := nFalse
	var trs []*Node
	for _, s := range in.States {
		el := s.Chan.Type().Underlying().(*types.Chan).Elem()
		ch := fr.freeze(fr.get(s.Chan, st), st)
		s2 := &State{tr: base, h: map[*Obj]*Node{}, mut: map[*Obj]bool{}}
		v, o := fr.en.recv(s2, ch, el)
		kids = append(kids, v)
		ok = o
		trs = append(trs, s2.tr)
		_ = ok
	}
	// recvOk by index
	r := nDead
	tr := nDead
	for i, s := range in.States {
		el := s.Chan.Type().Underlying().(*types.Chan).Elem()
		ch := fr.freeze(fr.get(s.Chan, st), st)
		s2 := &State{tr: base, h: map[*Obj]*Node{}, mut: map[*Obj]bool{}}
		_, o := fr.en.recv(s2, ch, el)
		is := liftLin(idx, func(l *Lin) *Node { return eqL(l, linN64(int64(i))) })
		r = ite(is, o, r)
		tr = ite(is, trs[i], tr)
	}
	kids[1] = r
	st.tr = tr
	names := make([]string, len(kids))
	for i := range names {
		names[i] = fmt.Sprint(i)
	}
	return &Node{k: NAgg, names: names, kids: kids, id: -1}
}

// ---------------------------------------------------------------- ranges

type rangeState struct {
	keys *Node // seq of keys (map) or the string
	cell *Obj
}

var rangeObjs = map[*ssa.Range]*Obj{}

func (fr *frame) rangeInit(in *ssa.Range, st *State) *Node {
	x := fr.get(in.X, st)
	if isStringT(in.X.Type()) {
		failf("range over string in %s", fr.fn)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	m := fr.mapContent(x, st)
	keys := apply(func(a []*Node) *Node {
		if a[0].lk == LNil || a[0].atom == nil && len(a[0].kids) == 0 {
			return mkSeqV(emptySeq(seqKind(types.NewSlice(mt.Key()))), false)
		}
		at := mkAtomT("mkeys", nil, nil, types.NewSlice(mt.Key()), a[0])
		n := mapLen(a[0])
		return mkSeqV(winSeq(seqKind(types.NewSlice(mt.Key())), at, linC(b0), n), false)
	}, m)
	// iterator object: {position}
	o := newObj("iterator", types.Typ[types.Int], mkI(0))
	o.fresh = true
	o.key = nil
	st.h[o] = mkI(0)
	rangeObjs[in] = o
	names := []string{"it", "keys", "map"}
	return &Node{k: NAgg, names: names, kids: []*Node{mkPtr(o, nil), keys, m}, id: -1}
}

func (fr *frame) rangeNext(in *ssa.Next, st *State) *Node {
	it := fr.get(in.Iter, st)
	rg := in.Iter.(*ssa.Range)
	mt := rg.X.Type().Underlying().(*types.Map)
	o := it.kids[0].obj
	pos := st.get(o)
	keys, m := it.kids[1], it.kids[2]
	ok := apply(func(a []*Node) *Node { return ltL(a[0].lin, seqOf(a[1]).length()) }, pos, keys)
	k := apply(func(a []*Node) *Node { return seqIndex(seqOf(a[1]), a[0].lin, matFrozen(mt.Key())) }, pos, keys)
	v, _ := mapGetPresent(m, k, mt.Elem())
	st.h[o] = liftLin(pos, func(l *Lin) *Node { return mkInt(linAddI(l, b1)) })
	val := thaw(v, mt.Elem())
	return &Node{k: NAgg, names: []string{"0", "1", "2"}, kids: []*Node{ok, thaw(k, mt.Key()), val}, id: -1}
}

// mapGetPresent: lookup of a key known to be present.
func mapGetPresent(m, key *Node, vt types.Type) (*Node, *Node) {
	v := apply(func(a []*Node) *Node {
		m := a[0]
		if m.lk != LMapV {
			return nDead
		}
		var val *Node = nDead
		if m.atom != nil {
			val = tupLeaf(frozenOf(mkAtomT("mget", nil, nil, vt, m.atom, a[1]), vt))
		}
		for i := 0; i+1 < len(m.kids); i += 2 {
			val = ite(eqNode(a[1], m.kids[i]), m.kids[i+1], val)
		}
		return val
	}, m, key)
	return v, nTrue
}
