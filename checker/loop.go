package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is an interned recurrence: while cont(p) { p = next(p) }.
type Loop struct {
	id     int
	bl     bloom
	height int
	vars   []*Atom // bound atoms
	typs   []types.Type
	cont   *Node
	next   []*Node
	key    string
}

var (
	loopTab   = map[string][]*Loop{}
	loopN     int
	bindN     int
	debugLoop = os.Getenv("VERIF_DEBUG") != ""
)

const unrollLimit = 70

// ---------------------------------------------------------------- evaluation

func (fr *frame) clearLoop(l *natLoop, st *State) {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				delete(fr.env, v)
				if st != nil {
					delete(st.ov, v)
				}
			}
			if _, ok := in.(*ssa.Defer); ok {
				failf("defer in a loop of %s", fr.fn)
			}
		}
	}
}

// publish stores the live-out registers of the loop in the exit's overlay.
func (fr *frame) publish(li *loopInfo, l *natLoop, e *edge) *edge {
	st := e.st.clone()
	for _, v := range li.live[l] {
		if n := st.ov[v]; n != nil {
			continue
		}
		if n := fr.env[v]; n != nil {
			st.ov[v] = n
		}
	}
	return &edge{from: e.from, to: e.to, guard: e.guard, st: st, ret: e.ret, panic: e.panic}
}

// evalLoop evaluates loop l from its entry edges and returns the exits.
func (fr *frame) evalLoop(li *loopInfo, l *natLoop, es []*edge) []*edge {
	if h := fr.en.step; h != nil && h.wants(fr) {
		if h.reader {
			return fr.readerLoop(li, l, es)
		}
		return fr.stepLoop(li, l, es)
	}
	if ex, ok := fr.unroll(li, l, es); ok {
		return ex
	}
	return fr.summarise(li, l, es)
}

func (fr *frame) unroll(li *loopInfo, l *natLoop, es []*edge) ([]*edge, bool) {
	var out []*edge
	cur, few := es, 0
	for it := 0; it < unrollLimit; it++ {
		g, st := joinEdges(cur)
		fr.phisAt(l.header, cur, st, l)
		steps := fr.en.steps
		ex := fr.evalRegion(li, l.header, l, []*edge{{to: l.header, guard: g, st: st}})
		_ = steps
		var back []*edge
		for _, e := range ex {
			if e.to == l.header {
				back = append(back, e)
				continue
			}
			out = append(out, fr.publish(li, l, e))
		}
		if len(back) == 0 {
			return out, true
		}
		decided := false
		for b := range l.blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]] {
				continue
			}
			c := fr.env[iff.Cond]
			if k, isC := iff.Cond.(*ssa.Const); isC {
				c = constNode(k)
				continue
			}
			if c == nTrue || c == nFalse {
				decided = true
			}
		}
		if it == 0 && !decided {
			few = fr.fewRounds(l, g)
			if few > 0 && debugLoop {
				println("few", few, fr.fn.String(), l.header.Index)
			}
		}
		if !decided && !(it < few) && !(fr.en.session && it < 3 && receives(l)) {
			return nil, false
		}
		// values carried around the back edges must survive re-evaluation
		cur = nil
		for _, e := range back {
			cur = append(cur, fr.publishAll(l, e))
		}
	}
	return nil, false
}

// fewRounds: a bound on the number of rounds when the first test of the loop
// compares a number that the path leaves only a few values; 0 if not.
func (fr *frame) fewRounds(l *natLoop, g *Node) int {
	const few = 8
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
					return 0
				}
			}
		}
	}
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]] {
			continue
		}
		c := fr.env[iff.Cond]
		if c == nil || c.k != NDec || c.subj.lin == nil {
			continue
		}
		if a := c.subj.lin.single(); a != nil && (a.op == "mok" || a.op == "isnil" || a.op == "eq") {
			continue // the presence of a key is not a number of rounds
		}
		lo, hi := c.subj.lin.rng()
		for _, cl := range cellsOf(c.subj, decisionsOn(g, c.subj, map[*Node]bool{})) {
			if cofactor(g, cl, cl.pins()) != nFalse {
				continue
			}
			if cl.hi != nil && (cl.lo == nil || lo != nil && cl.lo.Cmp(lo) <= 0) && (lo == nil || cl.hi.Cmp(lo) > 0) {
				lo = cl.hi
			}
			if cl.hi == nil && cl.lo != nil {
				hi = subI(cl.lo, b1)
			}
		}
		if lo != nil && hi != nil && subI(hi, lo).Cmp(bi(few)) <= 0 {
			return few + 1
		}
	}
	return 0
}

// decisionsOn: the decisions on s within n.
func decisionsOn(n *Node, s *Subj, seen map[*Node]bool) (out []*Node) {
	if n.k != NDec || seen[n] {
		return nil
	}
	seen[n] = true
	if n.subj == s {
		out = append(out, n)
	}
	for _, k := range n.kids {
		out = append(out, decisionsOn(k, s, seen)...)
	}
	return
}

// receives: the loop takes values out of a channel.
func receives(l *natLoop) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return true
			}
		}
	}
	return false
}

// publishAll keeps the registers the header phis need.
func (fr *frame) publishAll(l *natLoop, e *edge) *edge {
	st := e.st.clone()
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range l.header.Preds {
			if pr == e.from {
				v := p.Edges[i]
				if st.ov[v] == nil && fr.env[v] != nil {
					st.ov[v] = fr.env[v]
				}
			}
		}
	}
	return &edge{from: e.from, to: e.to, guard: e.guard, st: st}
}

// phisAt evaluates the header phis from the edges, then clears stale values.
func (fr *frame) phisAt(b *ssa.BasicBlock, es []*edge, st *State, l *natLoop) {
	fr.phis(b, es, st)
	keep := map[ssa.Value]*Node{}
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			keep[p] = fr.env[p]
		}
	}
	fr.clearLoop(l, st)
	for k, v := range keep {
		fr.env[k] = v
	}
}

// comp is one scalar component of the loop state.
type comp struct {
	phi  *ssa.Phi
	obj  *Obj
	path []int // fields
	tr   bool
	typ  types.Type
	init *Node // frozen value at entry
	cur  *Node // Go-level value assumed at the header
	ph   *Atom // placeholder, nil while assumed invariant
	iv   I     // step of an induction variable
	pos  bool  // assumed (and verified below) never negative
	any  bool  // not provably non-negative
	next *Node // frozen value at the back edge
}

var traceType types.Type = types.NewSlice(types.Universe.Lookup("error").Type())

// fieldsOf enumerates the scalar components of a value of type t.
func fieldsOf(t types.Type, path []int, f func(t types.Type, path []int)) {
	if st, ok := t.Underlying().(*types.Struct); ok && !bufferType(t) && !opaqueStruct(t) {
		for i := 0; i < st.NumFields(); i++ {
			fieldsOf(st.Field(i).Type(), append(append([]int(nil), path...), i), f)
		}
		return
	}
	f(t, path)
}

func getField(v *Node, t types.Type, path []int) *Node {
	for _, i := range path {
		v = fieldIdx(v, i, t)
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return v
}

func setField(v *Node, t types.Type, path []int, x *Node) *Node {
	if len(path) == 0 {
		return x
	}
	st := t.Underlying().(*types.Struct)
	if v.k != NAgg {
		v = untup(v, t)
	}
	fs := append([]*Node(nil), v.kids...)
	fs[path[0]] = setField(fs[path[0]], st.Field(path[0]).Type(), path[1:], x)
	return mkAgg(v.names, fs)
}

func rawNode(n *Node) *Node {
	return apply1(n, func(x *Node) *Node {
		if x.lk == LDead || x.lk == LPanic || x.lk == LAny {
			return x
		}
		return rawOf(x)
	})
}

// compValue: the component's value in a state.
func (fr *frame) compValue(c *comp, phiVals map[*ssa.Phi]*Node, st *State) *Node {
	switch {
	case c.tr:
		return st.tr
	case c.phi != nil:
		return fr.freeze(phiVals[c.phi], st)
	}
	v := st.h[c.obj]
	if v == nil {
		v = c.obj.init
	}
	x := getField(v, c.obj.typ, c.path)
	if _, isMap := c.typ.Underlying().(*types.Map); isMap && c.obj.typ == c.typ {
		return x // map object: content is frozen already
	}
	return fr.freeze(x, st)
}

// setOnce: the value a flag or separator has after the first round, if every
// round sets it to the same.
func (c *comp) setOnce(bg *Node, comps []*comp, counter *Atom) *Node {
	if c.phi == nil || !isStringT(c.typ) && !isBoolT(c.typ) {
		return nil
	}
	n := ite(bg, c.next, nDead)
	live := nDead
	for _, l := range leavesOf(n) {
		if l.leaf(LDead) || l.leaf(LPanic) || l.leaf(LAny) {
			continue
		}
		if live != nDead && live != l {
			return nil
		}
		live = l
	}
	if live == nDead || live.k != NLeaf || live.lk != LStr && live != nTrue && live != nFalse {
		return nil
	}
	for _, d := range comps {
		if d.ph != nil && nodeMentions(live, d.ph, map[int]bool{}) {
			return nil
		}
	}
	if counter != nil && nodeMentions(live, counter, map[int]bool{}) {
		return nil
	}
	return live
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (fr *frame) summarise(li *loopInfo, l *natLoop, es []*edge) []*edge {
	g0, st0 := joinEdges(es)
	fr.phisAt(l.header, es, st0, l)
	var phis []*ssa.Phi
	init := map[*ssa.Phi]*Node{}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		init[p] = fr.env[p]
	}
	var comps []*comp
	for _, p := range phis {
		comps = append(comps, &comp{phi: p, typ: p.Type(), init: fr.noNil(fr.freeze(init[p], st0), p.Type()), cur: init[p]})
	}
	known := map[*Obj]bool{}
	addObj := func(o *Obj) {
		if known[o] {
			return
		}
		known[o] = true
		v := st0.get(o)
		fieldsOf(o.typ, nil, func(t types.Type, path []int) {
			x := getField(v, o.typ, path)
			c := &comp{obj: o, path: path, typ: t, cur: x}
			if _, isMap := t.Underlying().(*types.Map); isMap && len(path) == 0 {
				c.init = x
			} else {
				c.init = fr.noNil(fr.freeze(x, st0), t)
			}
			comps = append(comps, c)
		})
	}
	comps = append(comps, &comp{tr: true, typ: traceType, init: st0.tr, cur: st0.tr})
	var counter *Atom
	bindN++
	uid := bindN
	nph := 0
	phObjs := map[*Obj]*comp{}

	placeholder := func(c *comp) {
		nph++
		if c.tr {
			c.ph = mkAtom("ph", nil, nil, fmt.Sprintf("%d.%d", uid, nph))
			c.ph.typ = traceType
			c.cur = atomValue(c.ph)
			return
		}
		var lo, hi I
		c.pos = false
		if n, sg, ok := intInfo(c.typ); ok && sg && n == 64 && !c.any && nonNegative(c.init) {
			c.pos = true
			lo, hi = b0, subI(pow2(63), b1)
		}
		c.ph = mkAtomT("ph", lo, hi, c.typ, fmt.Sprintf("%d.%d", uid, nph))
		if m, isMap := c.typ.Underlying().(*types.Map); isMap && c.obj != nil && len(c.path) == 0 {
			_ = m
			c.cur = mkMapV(c.ph, nil)
			return
		}
		if k, ok := backing(c); ok {
			// element storage of a slice: a sequence of unknown elements
			c.cur = mkSeqV(winSeq(k, c.ph, linC(b0), lenOf(c.ph)), false)
			return
		}
		c.cur = valueOf(c.ph, c.typ)
		for _, lf := range leavesOf(c.cur) {
			switch {
			case lf.lk == LSlice || lf.lk == LMap:
				phObjs[lf.obj] = c
			}
		}
	}

	var exits, back []*edge
	var bodySt *State
	round := 0
	for {
		round++
		if round > 60 {
			failf("loop analysis in %s does not converge", fr.fn)
		}
		// header state
		st := st0.clone()
		st.mut = map[*Obj]bool{}
		for _, c := range comps {
			switch {
			case c.tr:
				st.tr = c.cur
			case c.obj != nil:
				st.h[c.obj] = setField(st.get(c.obj), c.obj.typ, c.path, c.cur)
			}
		}
		fr.clearLoop(l, st)
		for _, c := range comps {
			if c.phi != nil {
				fr.env[c.phi] = c.cur
			}
		}
		nd := len(fr.defers)
		bodySt = st.clone()
		ex := fr.evalRegion(li, l.header, l, []*edge{{to: l.header, guard: nTrue, st: st.clone()}})
		if len(fr.defers) != nd {
			failf("defer in a loop of %s", fr.fn)
		}
		exits, back = nil, nil
		for _, e := range ex {
			if e.to == l.header {
				back = append(back, e)
			} else {
				exits = append(exits, fr.publish(li, l, e))
			}
		}
		if len(back) == 0 {
			// never iterates
			break
		}
		bg, bst := joinEdges(back)
		vals := map[*ssa.Phi]*Node{}
		for _, p := range phis {
			var v *Node
			for i := len(back) - 1; i >= 0; i-- {
				x := fr.edgeVal(p, back[i])
				if v == nil {
					v = x
				} else {
					v = iteAny(back[i].guard, x, v)
				}
			}
			vals[p] = v
		}
		changed := false
		// objects modified by the body
		for o, v := range bst.h {
			if w, ok := bodySt.h[o]; ok && w == v {
				continue
			}
			if _, ok := st0.h[o]; !ok && (o.init == nil || o.fresh) {
				continue // allocated in the body
			}
			if phObjs[o] != nil {
				continue // content of a placeholder slice: part of its value
			}
			if o.opq != nil && o.opq.op == "ph" {
				continue
			}
			if o.opq != nil && o.init != nil {
				if _, in0 := st0.h[o]; !in0 && o.opq.bl.has(0) {
					continue
				}
			}
			if dependsOnPh(o, comps) {
				continue
			}
			if !known[o] {
				addObj(o)
				changed = true
			}
		}
		if changed {
			continue
		}
		for _, c := range comps {
			c.next = fr.noNil(fr.compValue(c, vals, bst), c.typ)
			if c.ph != nil && c.pos && c.iv == nil && !nonNegative(ite(bg, c.next, nDead)) {
				c.any = true
				placeholder(c)
				changed = true
				continue
			}
			if c.ph != nil || c.iv != nil {
				continue
			}
			cv := c.init
			if ite(bg, c.next, nDead) != ite(bg, cv, nDead) {
				placeholder(c)
				changed = true
			}
		}
		if changed {
			continue
		}
		// induction variables
		for _, c := range comps {
			if c.ph == nil || c.iv != nil {
				continue
			}
			if once := c.setOnce(bg, comps, counter); once != nil {
				// the initial value in the first round, another one from then on
				if counter == nil {
					counter = mkAtom("k", b0, maxLen, fmt.Sprint(uid))
					counter.typ = types.Typ[types.Int]
				}
				c.iv = b0
				c.ph = nil
				c.cur = ite(ltL(linA(counter), linC(b1)), c.init, once)
				changed = true
				continue
			}
			if _, _, ok := intInfo(c.typ); !ok || isByteT(c.typ) {
				continue
			}
			nx := ite(bg, c.next, nDead)
			step, ok := ivStep(nx, c.ph)
			if !ok {
				continue
			}
			if counter == nil {
				counter = mkAtom("k", b0, maxLen, fmt.Sprint(uid))
				counter.typ = types.Typ[types.Int]
			}
			c.iv = step
			c.ph = nil
			s := step
			c.cur = liftLin(c.init, func(x *Lin) *Node {
				return wrapArith(linAdd(x, linScale(linA(counter), s)), c.typ)
			})
			changed = true
		}
		if !changed {
			break
		}
	}
	if len(back) == 0 {
		// the body never loops back under the assumptions made: they hold
		var out []*edge
		for _, e := range exits {
			e.guard = and(g0, e.guard)
			out = append(out, e)
		}
		return out
	}
	bg, _ := joinEdges(back)
	// recurrence
	var vars []*Atom
	var next, inits []*Node
	var typs []types.Type
	if counter != nil {
		vars = append(vars, counter)
		typs = append(typs, types.Typ[types.Int])
		next = append(next, mkInt(linAddI(linA(counter), b1)))
		inits = append(inits, mkI(0))
	}
	for _, c := range comps {
		if c.ph == nil {
			continue
		}
		vars = append(vars, c.ph)
		typs = append(typs, c.typ)
		next = append(next, rawNode(c.next))
		inits = append(inits, rawNode(c.init))
	}
	filled, bg := appendForms(vars, next, inits, counter, bg, g0, func(n *Node) *Node {
		return apply1(n, func(x *Node) *Node {
			if x.lk != LSlice || x.obj.init == nil && st0.h[x.obj] == nil || phObjs[x.obj] != nil {
				return x
			}
			for _, c := range comps {
				if c.obj == x.obj {
					return x // changed by the body
				}
			}
			return fr.freeze(x, st0)
		})
	})
	rec := &recurrence{vars: vars, typs: typs, cont: bg, next: next, inits: inits}
	if debugLoop {
		fmt.Printf("LOOP in %s header %s: vars %d rounds %d\n  cont %v\n", fr.fn, l.header, len(vars), round, bg)
		for i, v := range vars {
			fmt.Printf("   %v (%v) init %v next %v\n", v, typs[i], inits[i], next[i])
		}
	}
	fin := rec.solve()
	if debugLoop {
		for i, v := range vars {
			fmt.Printf("   => %v = %v\n", v, fin[i])
		}
	}
	m := map[*Atom]any{}
	for i, v := range vars {
		m[v] = fin[i]
	}
	// translate the exits
	var out []*edge
	rest := nFalse
	sort.SliceStable(exits, func(i, j int) bool { return exits[i].guard.height < exits[j].guard.height })
	for i, e := range exits {
		mm := m
		if counter != nil {
			n := countedExit(bg, e.guard, counter)
			if n == nil && len(filled) > 0 {
				n = countedExit(under(bg, g0), under(e.guard, g0), counter)
			}
			if n != nil {
				mm = map[*Atom]any{}
				for k, v := range m {
					mm[k] = v
				}
				mm[counter] = substNode(n, m)
			}
		}
		gm := m
		if len(filled) > 0 {
			m1 := map[*Atom]any{}
			for k, v := range mm {
				m1[k] = v
			}
			gm = map[*Atom]any{}
			for k, v := range m {
				gm[k] = v
			}
			for _, f := range filled {
				m1[f.v] = f.whole(mm[f.v].(*Node), mm[counter].(*Node))
				gm[f.v] = f.whole(m[f.v].(*Node), m[counter].(*Node))
				for _, tm := range lenOf(f.v).ts {
					gm[tm.a] = mkInt(f.n)
				}
			}
			mm = m1
		}
		t := &substT{m: mm, memo: map[int]*Node{}}
		fr.exitObjs(t, phObjs, comps, bodySt, e)
		var ng *Node
		if len(exits) > 1 {
			// which exit is taken is decided with the general final values
			gt := &substT{m: gm, memo: map[int]*Node{}}
			gt.objs, gt.newObjs = t.objs, t.newObjs
			ng = careSimp(gt.node(e.guard), not(gt.node(bg)), map[[2]int]*Node{})
			if ng == nil {
				ng = nFalse
			}
			ng = and(ng, not(rest))
		}
		if i == len(exits)-1 {
			ng = not(rest)
		}
		rest = or(rest, ng)
		ne := &edge{from: e.from, to: e.to, guard: and(g0, ng), st: &State{h: map[*Obj]*Node{}, ov: map[ssa.Value]*Node{}, mut: map[*Obj]bool{}}, panic: e.panic}
		for o, v := range e.st.h {
			if phObjs[o] != nil {
				continue
			}
			if no := t.objs[o]; no != nil {
				o = no
			}
			ne.st.h[o] = t.node(under(v, e.guard))
		}
		for o, c := range t.newObjs {
			ne.st.h[o] = c
		}
		for v, x := range e.st.ov {
			ne.st.ov[v] = t.tup(under(x, e.guard))
		}
		ne.st.tr = t.node(under(e.st.tr, e.guard))
		for _, r := range e.ret {
			ne.ret = append(ne.ret, t.tup(under(r, e.guard)))
		}
		for o := range st0.mut {
			ne.st.mut[o] = true
		}
		fr.addMut(ne.st.mut, e.st.mut, phObjs, init, st0)
		for _, b := range back {
			fr.addMut(ne.st.mut, b.st.mut, phObjs, init, st0)
		}
		if ne.guard != nFalse {
			out = append(out, ne)
		}
	}
	return out
}

// under simplifies a value that only matters where guard holds.
func under(n, guard *Node) *Node {
	if guard == nTrue || n == nil {
		return n
	}
	switch n.k {
	case NAgg:
		fs := make([]*Node, len(n.kids))
		same := true
		for i, k := range n.kids {
			fs[i] = under(k, guard)
			same = same && fs[i] == k
		}
		if same {
			return n
		}
		if n.id == -1 {
			return tuple(fs...)
		}
		return mkAgg(n.names, fs)
	case NDec:
		if r := careSimp(n, guard, map[[2]int]*Node{}); r != nil {
			return r
		}
	}
	return n
}

// careSimp simplifies n where care holds (anything elsewhere); nil if it never does.
func careSimp(n, care *Node, memo map[[2]int]*Node) *Node {
	if care == nFalse || care.leaf(LDead) {
		return nil
	}
	if n.k != NDec || care == nTrue {
		return n
	}
	key := [2]int{n.id, care.id}
	if r, ok := memo[key]; ok {
		return r
	}
	top := n.subj
	if care.k == NDec && care.subj.id < top.id {
		top = care.subj
	}
	cs := cellsOf(top, []*Node{n, care})
	ns, cares := make([]*Node, len(cs)), make([]*Node, len(cs))
	same := true
	for i, c := range cs {
		pins := c.pins()
		ns[i], cares[i] = cofactor(n, c, pins), cofactor(care, c, pins)
		same = same && (ns[i] == n || cares[i] == nFalse)
	}
	var r *Node
	if same {
		any := nFalse
		for _, c := range cares {
			any = or(c, any)
		}
		r = careSimp(n, any, memo)
	} else {
		kids := make([]*Node, len(cs))
		var last *Node
		for i := range cs {
			kids[i] = careSimp(ns[i], cares[i], memo)
			if kids[i] == nil {
				kids[i] = last
			}
			last = kids[i]
		}
		for i := len(cs) - 1; i >= 0; i-- {
			if kids[i] == nil {
				kids[i] = last
			}
			last = kids[i]
		}
		if last != nil {
			r = combine(top, cs, kids)
		}
	}
	memo[key] = r
	return r
}

// backing: the component is the element storage of a slice.
func backing(c *comp) (byte, bool) {
	if c.obj == nil || len(c.path) > 0 {
		return 0, false
	}
	switch c.typ.Underlying().(type) {
	case *types.Slice, *types.Array:
	default:
		return 0, false
	}
	for _, lf := range leavesOf(c.init) {
		if lf.lk == LSeqV {
			for _, l2 := range leavesOf(c.cur) {
				if l2.lk == LSlice {
					return 0, false
				}
			}
			return lf.seq.kind, true
		}
	}
	return 0, false
}

func (fr *frame) addMut(dst, src map[*Obj]bool, phObjs map[*Obj]*comp, init map[*ssa.Phi]*Node, st0 *State) {
	for o := range src {
		c := phObjs[o]
		if c == nil {
			dst[o] = true
			continue
		}
		var v *Node
		if c.phi != nil {
			v = init[c.phi]
		} else if c.obj != nil {
			v = getField(st0.get(c.obj), c.obj.typ, c.path)
		}
		if v == nil || v.k == NAgg {
			continue
		}
		for _, lf := range leavesOf(v) {
			if lf.obj != nil && lf.obj.foreign {
				dst[lf.obj] = true
			}
		}
	}
}

// tup substitutes in values that may be multi-result aggregates.
func (t *substT) tup(n *Node) *Node {
	if n == nil {
		return nil
	}
	if n.k == NAgg && n.id == -1 {
		ks := make([]*Node, len(n.kids))
		for i, k := range n.kids {
			ks[i] = t.tup(k)
		}
		return &Node{k: NAgg, names: n.names, kids: ks, id: -1}
	}
	return t.node(n)
}

// dependsOnPh: the object is (part of) a placeholder's value.
func dependsOnPh(o *Obj, comps []*comp) bool {
	if o.opq == nil {
		return false
	}
	for _, c := range comps {
		if c.ph != nil && atomMentions(o.opq, c.ph) {
			return true
		}
	}
	return false
}

func atomMentions(a, b *Atom) bool {
	if a == b {
		return true
	}
	if !a.bl.has(b.id) {
		return false
	}
	for _, x := range a.args {
		switch x := x.(type) {
		case *Atom:
			if atomMentions(x, b) {
				return true
			}
		case *Lin:
			for _, t := range x.ts {
				if atomMentions(t.a, b) {
					return true
				}
			}
		}
	}
	return false
}

// exitObjs prepares the replacement of placeholder slices and maps by
// objects holding the final content.
func (fr *frame) exitObjs(t *substT, phObjs map[*Obj]*comp, comps []*comp, header *State, e *edge) {
	t.slices = map[*Obj]func(n *Node) *Node{}
	t.objs = map[*Obj]*Obj{}
	t.newObjs = map[*Obj]*Node{}
	for o, c := range phObjs {
		if c.ph == nil {
			continue
		}
		o := o
		content := e.st.h[o]
		if content == nil {
			content = o.init
		}
		var made *Obj
		mk := func() *Obj {
			if made == nil {
				made = newObj("loop result", o.typ, nil)
				made.fresh = true
				made.init = fr.freezeIn(t, content, e.st)
				t.newObjs[made] = made.init
			}
			return made
		}
		whole := linC(b0)
		_ = whole
		t.slices[o] = func(n *Node) *Node {
			no := mk()
			if n.lk == LMap {
				return mkMapP(no)
			}
			isn := nFalse
			if isZero(n.lin) {
				isn = intBool(t.node(mkInt(linA(mkAtom("isnil", b0, b1, o.opq)))))
			}
			var r *Node
			if n.path == nil {
				r = liftLin2(t.lin(n.lin), t.lin(n.lin2), func(a, b *Lin) *Node { return mkSlice(no, nil, a, b) })
			} else {
				failf("path into placeholder slice")
			}
			return ite(isn, nNil, r)
		}
	}
}

func (fr *frame) freezeIn(t *substT, content *Node, st *State) *Node {
	// contents of slices keep their Go-level elements
	return t.node(content)
}

// ivStep recognises next == ph + c.
func ivStep(nx *Node, ph *Atom) (I, bool) {
	var step I
	for _, lf := range leavesOf(nx) {
		if lf.lk == LDead || lf.lk == LPanic {
			continue
		}
		if lf.lk != LInt {
			return nil, false
		}
		d := linSub(lf.lin, linA(ph))
		if !d.isConst() || d.k.Sign() == 0 {
			return nil, false
		}
		if step != nil && step.Cmp(d.k) != 0 {
			return nil, false
		}
		step = d.k
	}
	return step, step != nil
}

// countedExit: if the exit is taken only when the counter has reached n (and
// the loop continues only below n), n as a node.
func countedExit(cont, exit *Node, k *Atom) *Node {
	var found *Node
	seen := map[*Node]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if n.k != NDec || seen[n] || found != nil {
			return
		}
		seen[n] = true
		if l := n.subj.lin; l != nil {
			if lim := limitOf(l, n.cuts, cont, exit, k, n.subj); lim != nil {
				found = lim
				return
			}
		}
		for _, c := range n.kids {
			rec(c)
		}
	}
	rec(cont)
	return found
}

func limitOf(l *Lin, cuts []I, cont, exit *Node, k *Atom, s *Subj) *Node {
	var coef I
	for _, t := range l.ts {
		if t.a == k {
			coef = t.c
		} else if t.a.bl.has(k.id) {
			return nil
		}
	}
	if coef == nil || coef.CmpAbs(b1) != 0 {
		return nil
	}
	rest := linSub(l, linScale(linA(k), coef))
	for _, c := range cuts {
		low, high := &cell{s: s, hi: c}, &cell{s: s, lo: c}
		contCell, exitCell := low, high
		if coef.Sign() < 0 {
			contCell, exitCell = high, low
		}
		if cofactor(cont, exitCell, exitCell.pins()) != nFalse {
			continue
		}
		if exit != nil && cofactor(exit, contCell, contCell.pins()) != nFalse {
			continue
		}
		var n *Lin
		if coef.Sign() > 0 {
			n = linAddI(linNeg(rest), c) // k + rest < c
		} else {
			n = linAddI(rest, subI(b1, c)) // rest - k >= c  <=>  k < rest-c+1
		}
		return ite(ltZero(n), mkI(0), mkInt(n))
	}
	return nil
}

// ---------------------------------------------------------------- recurrences

type recurrence struct {
	vars  []*Atom
	typs  []types.Type
	cont  *Node
	next  []*Node
	inits []*Node
}

func (r *recurrence) isBound(bl *bloom) bool {
	for _, v := range r.vars {
		if bl.has(v.id) {
			return true
		}
	}
	return false
}

// mentionsVar: precise test whether n mentions variable i.
func nodeMentions(n *Node, a *Atom, memo map[int]bool) bool {
	if !n.bl.has(a.id) {
		return false
	}
	if r, ok := memo[n.id]; ok {
		return r
	}
	memo[n.id] = false
	r := false
	lin := func(l *Lin) bool {
		if l == nil || !l.bl.has(a.id) {
			return false
		}
		for _, t := range l.ts {
			if atomHas(t.a, a, memo) {
				return true
			}
		}
		return false
	}
	switch {
	case lin(n.lin), lin(n.lin2):
		r = true
	case n.atom != nil && atomHas(n.atom, a, memo):
		r = true
	case n.seq != nil && seqHas(n.seq, a, memo):
		r = true
	case n.subj != nil && (n.subj.lin != nil && lin(n.subj.lin) || n.subj.eq != nil && nodeMentions(n.subj.eq, a, memo)):
		r = true
	}
	for _, p := range n.path {
		r = r || lin(p.idx)
	}
	for _, k := range n.kids {
		if r {
			break
		}
		r = nodeMentions(k, a, memo)
	}
	for _, k := range n.pts {
		if r {
			break
		}
		r = nodeMentions(k, a, memo)
	}
	memo[n.id] = r
	return r
}

func seqHas(s *Seq, a *Atom, memo map[int]bool) bool {
	if !s.bl.has(a.id) {
		return false
	}
	lin := func(l *Lin) bool {
		if l == nil || !l.bl.has(a.id) {
			return false
		}
		for _, t := range l.ts {
			if atomHas(t.a, a, memo) {
				return true
			}
		}
		return false
	}
	for i := range s.ps {
		p := &s.ps[i]
		if lin(p.off) || lin(p.n) || lin(p.lin) || p.base != nil && atomHas(p.base, a, memo) || p.val != nil && nodeMentions(p.val, a, memo) {
			return true
		}
		for _, e := range p.els {
			if nodeMentions(e, a, memo) {
				return true
			}
		}
	}
	return false
}

type atomPair struct{ x, a int }

var atomHasMemo = map[atomPair]bool{}

func atomHas(x, a *Atom, memo map[int]bool) bool {
	if x == a {
		return true
	}
	if !x.bl.has(a.id) {
		return false
	}
	key := atomPair{x.id, a.id}
	if r, ok := atomHasMemo[key]; ok {
		return r
	}
	atomHasMemo[key] = false
	r := false
	for _, y := range x.args {
		if r {
			break
		}
		switch y := y.(type) {
		case *Atom:
			r = atomHas(y, a, memo)
		case *Lin:
			for _, t := range y.ts {
				if atomHas(t.a, a, memo) {
					r = true
				}
			}
		case *Node:
			r = nodeMentions(y, a, map[int]bool{})
		case *Seq:
			r = seqHas(y, a, map[int]bool{})
		case *Loop:
			r = nodeMentions(y.cont, a, map[int]bool{})
			for _, n := range y.next {
				r = r || nodeMentions(n, a, map[int]bool{})
			}
		}
	}
	atomHasMemo[key] = r
	return r
}

// solve returns the final value of every variable.
func (r *recurrence) solve() []*Node {
	for i := range r.next {
		r.next[i] = ite(r.cont, r.next[i], nDead)
	}
	out := make([]*Node, len(r.vars))
	// dependencies
	dep := make([][]bool, len(r.vars))
	cdep := make([]bool, len(r.vars))
	for i := range r.vars {
		dep[i] = make([]bool, len(r.vars))
		for j, v := range r.vars {
			dep[i][j] = nodeMentions(r.next[i], v, map[int]bool{})
		}
	}
	for j, v := range r.vars {
		cdep[j] = nodeMentions(r.cont, v, map[int]bool{})
	}
	for i := range r.vars {
		in := append([]bool(nil), cdep...)
		in[i] = true
		for ch := true; ch; {
			ch = false
			for a := range r.vars {
				if !in[a] {
					continue
				}
				for b := range r.vars {
					if dep[a][b] && !in[b] {
						in[b] = true
						ch = true
					}
				}
			}
		}
		sub := &recurrence{cont: r.cont}
		idx := -1
		for j := range r.vars {
			if in[j] {
				if j == i {
					idx = len(sub.vars)
				}
				sub.vars = append(sub.vars, r.vars[j])
				sub.typs = append(sub.typs, r.typs[j])
				sub.next = append(sub.next, r.next[j])
				sub.inits = append(sub.inits, r.inits[j])
			}
		}
		out[i] = sub.fin(idx, 0)
	}
	return out
}

var finMemo = map[string]*Node{}

func (r *recurrence) keyOf(i int) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:%d;", i, r.cont.id)
	for j := range r.vars {
		fmt.Fprintf(&sb, "%d,%d,%d|", r.vars[j].id, r.next[j].id, r.inits[j].id)
	}
	return sb.String()
}

// fin: final value of variable i.
func (r *recurrence) fin(i, depth int) *Node {
	key := r.keyOf(i)
	if n := finMemo[key]; n != nil {
		return n
	}
	n := r.fin1(i, depth)
	finMemo[key] = n
	return n
}

func (r *recurrence) fin1(i, depth int) *Node {
	if depth > 200 {
		failf("loop recurrence too complex")
	}
	if r.cont == nFalse {
		return r.inits[i]
	}
	// split on decisions of the initial values and on invariant decisions
	var s *Subj
	pick := func(x *Subj) {
		if s == nil || x.id < s.id {
			s = x
		}
	}
	seen := map[*Node]bool{}
	var subs func(n *Node, all bool)
	subs = func(n *Node, all bool) {
		if n.k != NDec || seen[n] {
			return
		}
		seen[n] = true
		if all || !r.subjBound(n.subj) {
			pick(n.subj)
		}
		for _, k := range n.kids {
			subs(k, all)
		}
	}
	subs(r.cont, false)
	for j := range r.vars {
		subs(r.next[j], false)
	}
	for j := range r.vars {
		if r.inits[j].k == NDec {
			seen = map[*Node]bool{}
			subs(r.inits[j], true)
		}
	}
	if s != nil {
		all := append([]*Node{r.cont}, r.next...)
		all = append(all, r.inits...)
		cs := cellsOfDeep(s, all)
		kids := make([]*Node, len(cs))
		for ci, c := range cs {
			pins := c.pins()
			sub := &recurrence{vars: r.vars, typs: r.typs, cont: cofactor(r.cont, c, pins)}
			for j := range r.vars {
				sub.next = append(sub.next, cofactor(r.next[j], c, pins))
				sub.inits = append(sub.inits, cofactor(r.inits[j], c, pins))
			}
			kids[ci] = sub.fin(i, depth+1)
		}
		return combineAny(s, cs, kids)
	}
	for j := range r.vars {
		if in := r.inits[j]; in.lk == LDead || in.lk == LPanic || in.lk == LAny {
			return in
		}
	}
	// variables that never change, and zero-trip loops
	m := map[*Atom]any{}
	for j, v := range r.vars {
		if stable(r.next[j], v) {
			m[v] = r.inits[j]
		}
	}
	if len(m) > 0 {
		if _, ok := m[r.vars[i]]; ok {
			return r.inits[i]
		}
		sub := &recurrence{cont: substNode(r.cont, m)}
		idx := -1
		for j, v := range r.vars {
			if _, gone := m[v]; gone {
				continue
			}
			if j == i {
				idx = len(sub.vars)
			}
			sub.vars = append(sub.vars, v)
			sub.typs = append(sub.typs, r.typs[j])
			sub.next = append(sub.next, substNode(r.next[j], m))
			sub.inits = append(sub.inits, r.inits[j])
		}
		return sub.fin(idx, depth+1)
	}
	full := map[*Atom]any{}
	for j, v := range r.vars {
		full[v] = r.inits[j]
	}
	if substNode(r.cont, full) == nFalse {
		return r.inits[i]
	}
	// closed form of a plain counter
	if r.vars[i].op == "k" && r.cont.k == NDec {
		if n := plainCount(r.cont, r.vars[i]); n != nil {
			return n
		}
	}
	return r.intern(i)
}

// plainCount: the loop is governed by the counter alone.
func plainCount(cont *Node, k *Atom) *Node {
	if len(cont.kids) != 2 || cont.kids[0].k != NLeaf || cont.kids[1].k != NLeaf || cont.subj.lin == nil {
		return nil
	}
	if n := limitOf(cont.subj.lin, cont.cuts, cont, nil, k, cont.subj); n != nil {
		return n
	}
	// m*k + rest < c
	var coef I
	l := cont.subj.lin
	for _, t := range l.ts {
		if t.a == k {
			coef = t.c
		} else if t.a.bl.has(k.id) {
			return nil
		}
	}
	if coef == nil || coef.Sign() <= 0 || cont.kids[0] != nTrue {
		return nil
	}
	rest := linSub(l, linScale(linA(k), coef))
	n := linAddI(linNeg(rest), cont.cuts[0]) // m*k < n : ceil(n/m)
	return ite(ltZero(n), mkI(0), divL(linAddI(n, subI(coef, b1)), coef))
}

func stable(next *Node, v *Atom) bool {
	self := atomValue(v)
	for _, lf := range leavesOf(next) {
		if lf.lk == LDead || lf.lk == LPanic {
			continue
		}
		if lf != self {
			if isByteT(v.typ0()) && lf.lk == LInt {
				if b, o := byteAt(lf.lin); b == v && isZero(o) {
					continue
				}
			}
			return false
		}
	}
	return true
}

func (a *Atom) typ0() types.Type {
	if a.typ == nil {
		return types.Typ[types.Int]
	}
	return a.typ
}

func (r *recurrence) subjBound(s *Subj) bool {
	for _, v := range r.vars {
		if !s.atoms.has(v.id) {
			continue
		}
		if s.lin != nil && nodeMentions(mkInt(s.lin), v, map[int]bool{}) || s.eq != nil && nodeMentions(s.eq, v, map[int]bool{}) {
			return true
		}
	}
	return false
}

// cellsOfDeep: refinement of all occurrences of s anywhere in the diagrams.
func cellsOfDeep(s *Subj, ns []*Node) []*cell {
	var occ []*Node
	seen := map[*Node]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if n.k != NDec || seen[n] || !n.sbl.has(s.id) {
			return
		}
		seen[n] = true
		if n.subj == s {
			occ = append(occ, n)
		}
		for _, k := range n.kids {
			rec(k)
		}
	}
	for _, n := range ns {
		rec(n)
	}
	return cellsOf(s, occ)
}

func combineAny(s *Subj, cs []*cell, kids []*Node) *Node {
	ok := true
	for _, k := range kids {
		if k.k == NDec && k.subj.id <= s.id {
			ok = false
		}
	}
	if ok {
		return fromCells(s, cs, kids)
	}
	r := kids[len(kids)-1]
	for i := len(kids) - 2; i >= 0; i-- {
		var c *Node
		if s.lin != nil {
			c = rawDec(s, []I{cs[i].hi}, nil, []*Node{nTrue, nFalse})
		} else {
			c = rawDec(s, nil, []*Node{cs[i].pt}, []*Node{nTrue, nFalse})
		}
		r = ite(c, kids[i], r)
	}
	return r
}

// intern finds or creates the Loop of the recurrence (up to the order and
// names of its variables) and returns the final value of variable i.
func (r *recurrence) intern(i int) *Node {
	// drop variables not in the closure (constant propagation may shrink it)
	in := make([]bool, len(r.vars))
	in[i] = true
	for j, v := range r.vars {
		if nodeMentions(r.cont, v, map[int]bool{}) {
			in[j] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for a := range r.vars {
			if !in[a] {
				continue
			}
			for b, v := range r.vars {
				if !in[b] && nodeMentions(r.next[a], v, map[int]bool{}) {
					in[b] = true
					ch = true
				}
			}
		}
	}
	q := &recurrence{cont: r.cont}
	idx := -1
	for j := range r.vars {
		if in[j] {
			if j == i {
				idx = len(q.vars)
			}
			q.vars = append(q.vars, r.vars[j])
			q.typs = append(q.typs, r.typs[j])
			q.next = append(q.next, r.next[j])
			q.inits = append(q.inits, r.inits[j])
		}
	}
	tk := make([]string, len(q.vars))
	for j, v := range q.vars {
		tk[j] = varKey(v, q.typs[j])
	}
	sorted := append([]string(nil), tk...)
	sort.Strings(sorted)
	key := strings.Join(sorted, ";")
	for _, L := range loopTab[key] {
		if perm := q.match(L, tk); perm != nil {
			return finOf(L, perm[idx], q.inits, perm)
		}
	}
	loopN++
	L := &Loop{id: loopN, vars: q.vars, typs: q.typs, cont: q.cont, next: q.next, key: key}
	L.bl = q.cont.bl
	L.height = q.cont.height
	for _, n := range q.next {
		L.bl.or(&n.bl)
		L.height = max(L.height, n.height)
	}
	L.height++
	loopTab[key] = append(loopTab[key], L)
	perm := make([]int, len(q.vars))
	for j := range perm {
		perm[j] = j
	}
	return finOf(L, idx, q.inits, perm)
}

func varKey(v *Atom, t types.Type) string {
	if v.op == "k" {
		return "#k"
	}
	if v.lo != nil && v.lo.Sign() == 0 && v.typ != nil {
		if n, s, ok := intInfo(v.typ); ok && s && n == 64 {
			return varType(t) + "+"
		}
	}
	return varType(t)
}

// varType identifies types with the same representation.
func varType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return shapeKey(t, 0)
}

func shapeKey(t types.Type, depth int) string {
	if bufferType(t) {
		return "buffer"
	}
	if depth > 6 || opaqueStruct(t) {
		return typeKey(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var sb strings.Builder
		sb.WriteString("{")
		for i := 0; i < u.NumFields(); i++ {
			fmt.Fprintf(&sb, "%s %s;", u.Field(i).Name(), shapeKey(u.Field(i).Type(), depth+1))
		}
		return sb.String() + "}"
	case *types.Slice:
		if isByteT(u.Elem()) {
			return "bytes"
		}
		return "[]" + shapeKey(u.Elem(), depth+1)
	default:
		return typeKey(u)
	}
}

// free: v occurs in q but is not one of its variables.
func (q *recurrence) free(v *Atom) bool {
	for _, x := range q.vars {
		if x == v {
			return false
		}
	}
	if nodeMentions(q.cont, v, map[int]bool{}) {
		return true
	}
	for _, n := range q.next {
		if nodeMentions(n, v, map[int]bool{}) {
			return true
		}
	}
	return false
}

// match: perm[j] = index in L of variable j.
func (q *recurrence) match(L *Loop, tk []string) []int {
	n := len(q.vars)
	perm := make([]int, n)
	used := make([]bool, n)
	lk := make([]string, n)
	for j := range L.vars {
		lk[j] = varKey(L.vars[j], L.typs[j])
	}
	tries := 0
	var rec func(j int) bool
	rec = func(j int) bool {
		if j == n {
			tries++
			if tries > 5000 {
				return false
			}
			m := map[*Atom]any{}
			for a := range q.vars {
				if q.vars[a] != L.vars[perm[a]] {
					m[q.vars[a]] = atomValue(L.vars[perm[a]])
				}
			}
			for _, v := range L.vars {
				if q.free(v) {
					return false
				}
			}
			t := &substT{m: m, memo: map[int]*Node{}}
			if t.node(q.cont) != L.cont {
				return false
			}
			for a := range q.vars {
				if x, y := t.node(q.next[a]), L.next[perm[a]]; x != y && !sameUnder(y, x) {
					return false
				}
			}
			return true
		}
		for x := 0; x < n; x++ {
			if used[x] || lk[x] != tk[j] {
				continue
			}
			used[x] = true
			perm[j] = x
			if rec(j + 1) {
				return true
			}
			used[x] = false
		}
		return false
	}
	if rec(0) {
		return perm
	}
	return nil
}

// sameUnder: the two forms differ only in what was found unreachable.
func sameUnder(a, b *Node) bool {
	if len(decisionNodes(a, 300)) >= 300 || len(decisionNodes(b, 300)) >= 300 || a.k == NAgg || b.k == NAgg {
		return false
	}
	c := &comparer{}
	return len(c.compare("", a, b, nil)) == 0
}

// decisionNodes: up to max decisions of n.
func decisionNodes(n *Node, max int) (out []*Node) {
	seen := map[*Node]bool{}
	var walk func(n *Node)
	walk = func(n *Node) {
		if seen[n] || len(out) >= max {
			return
		}
		seen[n] = true
		if n.k == NDec {
			out = append(out, n)
			for _, k := range n.kids {
				walk(k)
			}
		}
	}
	walk(n)
	return
}

// nonNegative: every leaf is an integer that cannot be negative.
func nonNegative(n *Node) bool {
	for _, lf := range leavesOf(n) {
		if lf.lk == LDead || lf.lk == LPanic {
			continue
		}
		if lf.lk != LInt {
			return false
		}
		if lo, _ := lf.lin.rng(); lo == nil || lo.Sign() < 0 {
			return false
		}
	}
	return true
}

func finOf(L *Loop, li int, inits []*Node, perm []int) *Node {
	args := make([]any, len(inits)+2)
	args[0], args[1] = L, li
	for j := range inits {
		args[2+perm[j]] = inits[j]
	}
	v := L.vars[li]
	var a *Atom
	if v.op == "k" {
		a = mkAtom("kfin", b0, maxLen, args...)
		a.typ = types.Typ[types.Int]
	} else {
		a = mkAtomT("fin", v.lo, v.hi, L.typs[li], args...)
	}
	return rawNode(atomValue2(a))
}

// atomValue2: raw value of a loop result.
func atomValue2(a *Atom) *Node {
	if a.typ != nil && isByteT(a.typ) {
		return mkInt(byteLin(a, linC(b0)))
	}
	return atomValue(a)
}

// loopAtom rebuilds a loop result under a substitution.
func (t *substT) loopAtom(a *Atom, args []*Node) *Node {
	L := a.args[0].(*Loop)
	r := &recurrence{vars: L.vars, typs: L.typs}
	cont, next := L.cont, L.next
	if t.captures(L.vars) {
		// rename the bound variables apart
		r.vars = nil
		m := map[*Atom]any{}
		for _, v := range L.vars {
			w := freshVar(v)
			r.vars = append(r.vars, w)
			m[v] = atomValue(w)
		}
		cont, next = substNode(cont, m), nil
		for _, n := range L.next {
			next = append(next, substNode(n, m))
		}
	}
	r.cont = t.node(cont)
	for _, n := range next {
		r.next = append(r.next, t.node(n))
	}
	for j := range L.vars {
		r.inits = append(r.inits, args[2+j])
	}
	return r.fin(a.args[1].(int), 0)
}

func freshVar(v *Atom) *Atom {
	bindN++
	var w *Atom
	if v.op == "k" {
		w = mkAtom("k", b0, maxLen, fmt.Sprint("r", bindN))
	} else {
		w = mkAtom("ph", v.lo, v.hi, fmt.Sprintf("r%d", bindN))
	}
	w.typ = v.typ
	return w
}

// captures: a variable of vs is replaced by t, or occurs in a replacement.
func (t *substT) captures(vs []*Atom) bool {
	for _, v := range vs {
		if _, ok := t.m[v]; ok {
			return true
		}
		for _, x := range t.m {
			switch x := x.(type) {
			case *Node:
				if nodeMentions(x, v, map[int]bool{}) {
					return true
				}
			case *Lin:
				if nodeMentions(mkInt(x), v, map[int]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

// loopFacts: the continuation condition is false at the end of the loop.
func loopFact(a *Atom) *Node {
	if a.op != "fin" && a.op != "kfin" {
		return nil
	}
	L := a.args[0].(*Loop)
	m := map[*Atom]any{}
	inits := make([]*Node, len(L.vars))
	perm := make([]int, len(L.vars))
	for j := range L.vars {
		inits[j] = a.args[2+j].(*Node)
		perm[j] = j
	}
	for j, v := range L.vars {
		m[v] = finOf(L, j, inits, perm)
	}
	return not(substNode(L.cont, m))
}

func (l *Loop) String() string { return fmt.Sprintf("L%d", l.id) }

// noNil: the empty slice for nil where the two need not be told apart.
func (fr *frame) noNil(n *Node, t types.Type) *Node {
	if !fr.en.nilEq {
		return n
	}
	if st, ok := t.Underlying().(*types.Struct); ok && n.k == NAgg && len(n.kids) == st.NumFields() {
		ks := make([]*Node, len(n.kids))
		for i, k := range n.kids {
			ks[i] = fr.noNil(k, st.Field(i).Type())
		}
		return mkAgg(n.names, ks)
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok || isByteT(sl.Elem()) {
		return n
	}
	return apply1(n, func(x *Node) *Node {
		if x.lk == LNil || x.lk == LSeqV && x.b {
			return mkSeqV(emptySeq(seqKind(t)), false)
		}
		return x
	})
}

// filledSeq: a loop variable that is a sequence of n copies of v whose
// element k is written in round k. It is handled as the sequence of the
// elements written so far; the remaining n-k elements are still v.
type filledSeq struct {
	v   *Atom
	val *Node
	n   *Lin
	kd  byte
}

func (f *filledSeq) whole(done, k *Node) *Node {
	return apply(func(a []*Node) *Node {
		left := linSub(f.n, a[1].lin)
		rest := mkSeq(f.kd, []Piece{{k: PFill, val: f.val, n: left}})
		if d := seqOf(a[0]); isZero(left) && len(d.ps) == 1 && d.ps[0].k == PWin && isZero(d.ps[0].off) && d.ps[0].n == lenOf(d.ps[0].base) {
			// one element per round and never more than n: a prefix of
			// length n is all of it
			fullLen[d.ps[0].base] = append(fullLen[d.ps[0].base], f.n)
		}
		return mkSeqV(concatSeq(seqOf(a[0]), rest), false)
	}, done, k)
}

// fullLen: lengths known to be the whole of a loop's final sequence.
var fullLen = map[*Atom][]*Lin{}

// appendForms rewrites s[k] = x over a prefilled s to s = append(s, x).
func appendForms(vars []*Atom, next, inits []*Node, counter *Atom, bg, g0 *Node, freeze func(*Node) *Node) (out []*filledSeq, cont *Node) {
	if counter == nil {
		return nil, bg
	}
	for i, v := range vars {
		if v.op != "ph" {
			continue
		}
		in := under(inits[i], g0)
		if in.k != NLeaf || in.lk != LSeqV {
			continue
		}
		s := in.seq
		if len(s.ps) != 1 || s.ps[0].k != PFill {
			continue
		}
		f := &filledSeq{v: v, val: s.ps[0].val, n: s.ps[0].n, kd: s.kind}
		lv := lenOf(v)
		if len(lv.ts) != 1 {
			continue
		}
		lm := map[*Atom]any{lv.ts[0].a: mkInt(f.n)}
		pure := func(n *Node) (*Node, bool) {
			n = substNode(n, lm)
			return n, !nodeMentions(n, v, map[int]bool{})
		}
		ok := true
		self := func(s *Seq) bool {
			return len(s.ps) == 1 && s.ps[0].k == PWin && s.ps[0].base == v && isZero(s.ps[0].off) && (s.ps[0].n == lv || s.ps[0].n == f.n)
		}
		// the round's element
		xs := apply1(substNode(ite(bg, next[i], nDead), lm), func(n *Node) *Node {
			switch {
			case n.leaf(LDead) || n.leaf(LPanic) || n.leaf(LAny):
				return n
			case n.k != NLeaf || n.lk != LSeqV || len(n.seq.ps) != 1:
			case self(n.seq):
				return f.val
			default:
				p := &n.seq.ps[0]
				if p.k == PWin && p.base.op == "upd" && isZero(p.off) && self(p.base.args[0].(*Seq)) && p.base.args[1].(*Lin) == linA(counter) {
					return p.base.args[2].(*Node)
				}
			}
			ok = false
			return nDead
		})
		if !ok || nodeMentions(xs, v, map[int]bool{}) {
			continue
		}
		xs = freeze(xs)
		nx := apply(func(a []*Node) *Node {
			if a[0].leaf(LDead) || a[0].leaf(LPanic) || a[0].leaf(LAny) {
				return a[0]
			}
			return mkSeqV(concatSeq(winSeq(f.kd, v, linC(b0), lv), elemsSeq(f.kd, []*Node{a[0]})), false)
		}, xs)
		others := map[int]*Node{}
		for j, n := range next {
			if j != i {
				x, good := pure(n)
				ok = ok && good
				others[j] = x
			}
		}
		if !ok {
			continue
		}
		g, good := pure(bg)
		if !good {
			continue
		}
		bg = g
		next[i] = nx
		inits[i] = mkSeqV(emptySeq(f.kd), false)
		for j, x := range others {
			next[j] = x
		}
		out = append(out, f)
	}
	return out, bg
}
