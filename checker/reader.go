package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// The goroutine that reads packets. Stream is evaluated with the connection
// opaque; at `go` the started function, its arguments and bindings are recorded.
// The body of its loop is then evaluated for one packet from the state the loop
// is entered in. Parts of the loop's state that differ from packet to packet
// (other than by the history of effects) are replaced by unknowns until the
// state at the back edge is the state at entry, so that one step stands for
// every step.

// chanInfo: a channel made by the code.
type chanInfo struct {
	id      int
	pos     token.Pos
	elem    types.Type
	cap     int64 // -1: not constant
	atom    *Atom
	sent    *Obj // a value was put in
	val     *Obj
	drained *Obj
	closed  *Obj
}

type goRec struct {
	fn      *Node
	args    []*Node
	call    *ssa.CallCommon
	pos     token.Pos
	caller  *ssa.Function
	objsAt  int
	st      *State // when it was started
	fed     *Node  // the channel the parser was given
	fedCtx  *Node
	endSt   *State
	running *Obj

	// result of evaluating one step
	h         *stepHook
	event     *Node // what was handed over, as it is
	eventSt   *State
	eventCh   *Node
	done      *Node // context whose end stops the hand-over
	firstID   int
	loadSpots map[spot]bool
	exitSt    *State
}

// session: what the analysis of Stream keeps.
type session struct {
	chans                   map[*Atom]*chanInfo
	goes                    []*goRec
	open                    *Obj // connection open
	stuck                   *Obj // something waits for ever
	plain                   *Obj // a statement is executed without the caller's context
	cancels                 map[*Atom]*Obj
	cur                     *goRec // the reader being evaluated
	watch                   bool
	after                   map[spot]bool   // read by others after the start of the reader
	readerCalls, otherCalls map[string]bool // methods of the connection
	n                       int
}

func newSession() *session {
	b := func(n string) *Obj { return newObj(n, types.Typ[types.Bool], nFalse) }
	return &session{chans: map[*Atom]*chanInfo{}, cancels: map[*Atom]*Obj{}, after: map[spot]bool{},
		readerCalls: map[string]bool{}, otherCalls: map[string]bool{}, open: b("connection"), stuck: b("stuck"), plain: b("plain")}
}

func (s *session) makeChan(in *ssa.MakeChan) *Node {
	s.n++
	el := in.Type().Underlying().(*types.Chan).Elem()
	b := func(n string) *Obj { return newObj(fmt.Sprintf("chan%d.%s", s.n, n), types.Typ[types.Bool], nFalse) }
	ci := &chanInfo{id: s.n, pos: in.Pos(), elem: el, cap: -1, sent: b("sent"), drained: b("drained"), closed: b("closed")}
	ci.val = newObj(fmt.Sprintf("chan%d.value", s.n), el, zeroVal(el))
	if c, ok := in.Size.(*ssa.Const); ok {
		ci.cap = c.Int64()
	}
	ci.atom = mkAtomT("chan", nil, nil, in.Type(), s.n)
	s.chans[ci.atom] = ci
	return mkOpq(ci.atom, in.Type())
}

func (s *session) info(ch *Node) *chanInfo {
	if ch.lk == LOpq {
		return s.chans[ch.atom]
	}
	return nil
}

// send: v is put into channel ch.
func (fr *frame) send(chs, v *Node, st *State) {
	s := fr.en.sess
	fr.forLeaves(chs, st, func(ch *Node, st *State) *Node {
		ci := s.info(ch)
		if ci == nil || ci.cap < 1 {
			// nobody need take it
			st.set(s.stuck, nTrue)
			return nil
		}
		st.set(s.stuck, or(st.get(s.stuck), st.get(ci.sent)))
		st.set(ci.sent, nTrue)
		st.set(ci.val, copyOf(v, st))
		return nil
	})
}

func (fr *frame) closeChan(chs *Node, st *State) {
	s := fr.en.sess
	fr.forLeaves(chs, st, func(ch *Node, st *State) *Node {
		if ci := s.info(ch); ci != nil {
			st.set(ci.closed, nTrue)
		}
		return nil
	})
}

// receive: from a channel the reader fills.
func (fr *frame) receive(chs *Node, el types.Type, st *State) (v, ok *Node) {
	s := fr.en.sess
	r := fr.forLeaves(chs, st, func(ch *Node, st *State) *Node {
		if ch.lk == LDead || ch.lk == LAny || ch.lk == LPanic {
			return tuple(spreadT(nDead, el), nDead)
		}
		ci := s.info(ch)
		if ci == nil {
			st.set(s.stuck, nTrue)
			return tuple(spreadT(nDead, el), nDead)
		}
		has := and(st.get(ci.sent), not(st.get(ci.drained)))
		shut := and(not(has), st.get(ci.closed))
		st.set(s.stuck, or(st.get(s.stuck), and(not(has), not(st.get(ci.closed)))))
		v := ite(has, st.get(ci.val), ite(shut, zeroVal(el), spreadT(nDead, el)))
		st.set(ci.drained, or(st.get(ci.drained), has))
		return tuple(v, ite(has, nTrue, ite(shut, nFalse, nDead)))
	})
	return r.kids[0], r.kids[1]
}

// ctxRoot strips the contexts derived with a cancel function (or a value).
func ctxRoot(n *Node) (root *Node, derived bool) {
	for n.lk == LOpq && n.atom.op == "app" {
		name, _ := n.atom.args[0].(string)
		arg, _ := n.atom.args[len(n.atom.args)-1].(*Node)
		switch name {
		case "context.WithCancel", "context.WithCancelCause":
			derived = true
		default:
			return n, derived
		}
		n = arg
	}
	return n, derived
}

// ctxErr: whether a context has ended, at this point of the history.
func (fr *frame) ctxErr(ctx *Node, st *State) *Node {
	errT := types.Universe.Lookup("error").Type()
	root, derived := ctxRoot(ctx)
	if derived {
		// it ends when the caller cancels or when Stream is done
		return appNode("the end of Stream or of its context", 0, errT, []*Node{st.tr, root})
	}
	return appNode("the end of the context", 0, errT, []*Node{st.tr, root})
}

func (fr *frame) cancelled(f *Node, st *State) {
	s := fr.en.sess
	// f is the second result of WithCancel; the context is the first
	args := f.atom.args
	ctx := appAtom(args[0].(string), 0, nil, []*Node{args[len(args)-1].(*Node)})
	o := s.cancels[ctx]
	if o == nil {
		o = newObj("cancelled", types.Typ[types.Bool], nFalse)
		s.cancels[ctx] = o
	}
	st.set(o, nTrue)
}

// ended: the context has been cancelled, or one it is derived from.
func (s *session) ended(ctx *Node, st *State) *Node {
	r := nFalse
	for ctx.lk == LOpq && ctx.atom.op == "app" {
		if o := s.cancels[ctx.atom]; o != nil {
			r = or(r, st.get(o))
		}
		n, _ := ctx.atom.args[len(ctx.atom.args)-1].(*Node)
		if n == nil {
			break
		}
		ctx = n
	}
	return r
}

// selectSend: the reader offers an event until its context ends.
func (fr *frame) selectSend(in *ssa.Select, st *State) *Node {
	s := fr.en.sess
	if s == nil || s.cur == nil {
		failf("select that sends in %s", fr.fn)
	}
	g := s.cur
	send, recv := -1, -1
	for i, x := range in.States {
		if x.Dir == types.SendOnly {
			send = i
		} else {
			recv = i
		}
	}
	if len(in.States) != 2 || send < 0 || recv < 0 || !in.Blocking {
		failf("the select in %s is not a hand-over that ends with a context", fr.fn)
	}
	ch := fr.get(in.States[send].Chan, st)
	done := fr.freeze(fr.get(in.States[recv].Chan, st), st)
	if done.k != NLeaf || done.lk != LOpq || done.atom.op != "app" || done.atom.args[0] != any("method:Done") {
		failf("the select in %s does not end with a context", fr.fn)
	}
	ctx := done.atom.args[len(done.atom.args)-1].(*Node)
	v := fr.get(in.States[send].Send, st)
	if g.event != nil {
		failf("two hand-overs in one step of %s", fr.fn)
	}
	g.event, g.eventSt, g.eventCh, g.done = v, st.clone(), ch, ctx
	root, _ := ctxRoot(ctx)
	handed := intBool(mkInt(linA(mkAtomT("handed over", b0, b1, types.Typ[types.Bool], st.tr, root))))
	idx := ite(handed, mkI(int64(send)), mkI(int64(recv)))
	el := in.States[recv].Chan.Type().Underlying().(*types.Chan).Elem()
	return tuple(idx, nFalse, zeroVal(el))
}

// readerLoop evaluates one step of the reader.
func (fr *frame) readerLoop(li *loopInfo, l *natLoop, es []*edge) []*edge {
	h := fr.en.step
	g := fr.en.sess.cur
	h.done = true
	_, st0 := joinEdges(es)
	fr.phisAt(l.header, es, st0, l)
	type key struct {
		phi *ssa.Phi
		obj *Obj
	}
	entry := map[key]*Node{}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
			entry[key{phi: p}] = fr.env[p]
		}
	}
	var objs []*Obj
	for o := range st0.h {
		objs = append(objs, o)
		entry[key{obj: o}] = st0.h[o]
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	g.firstID = objN
	unknown := map[key]*Node{}
	for round := 0; ; round++ {
		if round > 20 {
			failf("the state of the loop in %s is not bounded", fr.fn)
		}
		st := st0.clone()
		fr.clearLoop(l, st)
		for _, p := range phis {
			fr.env[p] = entry[key{phi: p}]
			if u := unknown[key{phi: p}]; u != nil {
				fr.env[p] = u
			}
		}
		for _, o := range objs {
			if u := unknown[key{obj: o}]; u != nil {
				st.h[o] = u
			}
		}
		g.event, g.eventSt = nil, nil
		g.loadSpots = map[spot]bool{}
		fr.en.loads = g.loadSpots
		ex := fr.evalRegion(li, l.header, l, []*edge{{to: l.header, guard: nTrue, st: st}})
		fr.en.loads = nil
		var exits, back []*edge
		for _, e := range ex {
			if e.to == l.header {
				back = append(back, e)
			} else {
				exits = append(exits, fr.publish(li, l, e))
			}
		}
		h.back, h.backTr = nFalse, nAny
		again := false
		if len(back) > 0 {
			bg, bst := joinEdges(back)
			h.back, h.backTr, h.backSt = bg, bst.tr, bst
			h.backVals = nil
			diff := func(k key, v, w *Node, t types.Type) {
				if unknown[k] != nil || v == w {
					return
				}
				if fr.ahistoric(fr.freeze(v, bst)) == fr.ahistoric(fr.freeze(w, bst)) {
					return
				}
				name := ""
				if k.phi != nil {
					name = k.phi.Comment
				} else {
					name = k.obj.name
				}
				unknown[k] = input("unknown "+name, t)
				again = true
			}
			for _, p := range phis {
				var v *Node
				for i := len(back) - 1; i >= 0; i-- {
					x := fr.edgeVal(p, back[i])
					if v == nil {
						v = x
					} else {
						v = iteAny(back[i].guard, x, v)
					}
				}
				h.backVals = append(h.backVals, v)
				diff(key{phi: p}, v, entry[key{phi: p}], p.Type())
			}
			for _, o := range objs {
				if w := bst.get(o); w != entry[key{obj: o}] {
					diff(key{obj: o}, w, entry[key{obj: o}], o.typ)
				}
			}
			if !again {
				for o, w := range bst.h {
					if _, ok := st0.h[o]; ok || o.id > g.firstID || o.fresh {
						continue
					}
					if o.init != w {
						objs = append(objs, o)
						entry[key{obj: o}] = o.init
						diff(key{obj: o}, w, o.init, o.typ)
					}
				}
			}
		}
		if !again {
			return exits
		}
	}
}

// ahistoric replaces results of effects by ones that do not say when.
func (fr *frame) ahistoric(n *Node) *Node {
	m := map[*Atom]any{}
	empty := mkSeqV(emptySeq('g'), false)
	seen := map[*Atom]bool{}
	var atoms func(n *Node)
	var visit func(a *Atom)
	visit = func(a *Atom) {
		if seen[a] {
			return
		}
		seen[a] = true
		if a.op == "app" {
			if s, ok := a.args[0].(string); ok && len(s) > 4 && s[:4] == "eff:" {
				xs := append([]any{a.args[0], a.args[1], empty}, a.args[3:]...)
				b := mkAtomT("app", a.lo, a.hi, a.typ, xs...)
				if b != a {
					m[a] = mkOpq(b, b.typ)
				}
				return
			}
		}
		for _, x := range a.args {
			switch x := x.(type) {
			case *Atom:
				visit(x)
			case *Node:
				atoms(x)
			}
		}
	}
	memo := map[*Node]bool{}
	atoms = func(n *Node) {
		if n == nil || memo[n] {
			return
		}
		memo[n] = true
		forAtoms(n, visit)
		for _, k := range n.kids {
			atoms(k)
		}
	}
	atoms(n)
	if len(m) == 0 {
		return n
	}
	return substNode(n, m)
}

// forAtoms: the atoms directly in a node.
func forAtoms(n *Node, f func(*Atom)) {
	lin := func(l *Lin) {
		if l != nil {
			for _, t := range l.ts {
				f(t.a)
			}
		}
	}
	if n.subj != nil {
		lin(n.subj.lin)
		if n.subj.eq != nil {
			forAtoms(n.subj.eq, f)
		}
	}
	if n.atom != nil {
		f(n.atom)
	}
	lin(n.lin)
	lin(n.lin2)
	if n.seq != nil {
		for _, p := range n.seq.ps {
			if p.base != nil {
				f(p.base)
			}
			lin(p.off)
			lin(p.n)
			if p.val != nil {
				forAtoms(p.val, f)
			}
			for _, e := range p.els {
				forAtoms(e, f)
			}
		}
	}
}

// runReader evaluates one step of the k-th reader; afterwards the state is the
// one in which it has ended.
func (c *call) runReader(k int) {
	s := c.en.sess
	if k >= len(s.goes) {
		failf("no goroutine is started that reads packets")
	}
	if len(s.goes) > k+1 {
		failf("Stream starts more than one goroutine")
	}
	g := s.goes[k]
	g.endSt = c.st.clone()
	c.en.loads = nil
	g.h = &stepHook{reader: true, back: nFalse, fnFilter: func(f *ssa.Function) bool {
		return f.Pkg != nil && f.Pkg.Pkg.Path() == repoRoot
	}}
	c.en.step, s.cur = g.h, g
	defer func() { c.en.step, s.cur = nil, nil }()
	if g.call.IsInvoke() {
		failf("the goroutine started in %s is not known", g.caller)
	}
	run := c.st.get(g.running)
	st := c.st.clone()
	c.fr.doCall(g.call, g.fn, g.args, st, g.pos)
	if !g.h.done {
		failf("the goroutine started in %s does not read in a loop", g.caller)
	}
	g.exitSt = st
	g.h.back = and(run, g.h.back)
	*c.st = *mergeStates([]*edge{{guard: run, st: st}, {guard: not(run), st: c.st.clone()}})
}

func (c *call) reader() *goRec {
	k := 0
	if l := c.args[0].lin; l != nil && l.isConst() {
		k = int(l.k.Int64())
	}
	if g := c.en.sess.goes; k < len(g) {
		return g[k]
	}
	failf("no goroutine is started that reads packets")
	return nil
}

// sessionQueries: what the drivers can ask about the session.
func sessionQueries(en *Engine) {
	s := en.sess
	q := func(name string, f func(c *call) *Node) { en.bound[repoRoot+".verif"+name] = f }
	q("Run", func(c *call) *Node {
		c.runReader(int(c.args[0].lin.k.Int64()))
		return nil
	})
	q("Mark", func(c *call) *Node { en.effect(c.st, "later", nil); return nil })
	q("Handed", func(c *call) *Node {
		return intBool(mkInt(linA(mkAtomT("handed over", b0, b1, types.Typ[types.Bool], c.st.tr, c.args[0]))))
	})
	q("Goes", func(c *call) *Node { return c.reader().h.back })
	q("Event", func(c *call) *Node {
		g := c.reader()
		if g.event == nil {
			failf("%s hands nothing over", g.fn)
		}
		for o, v := range g.eventSt.h {
			if _, ok := c.st.h[o]; !ok {
				c.st.h[o] = v
			}
		}
		return g.event
	})
	q("Open", func(c *call) *Node { return c.st.get(s.open) })
	q("Stuck", func(c *call) *Node { return c.st.get(s.stuck) })
	q("BackStuck", func(c *call) *Node {
		g := c.reader()
		if g.h.backSt == nil {
			return nFalse
		}
		return and(g.h.back, g.h.backSt.get(s.stuck))
	})
	q("Plain", func(c *call) *Node { return c.st.get(s.plain) })
	q("Started", func(c *call) *Node {
		g := c.reader()
		return c.st.get(g.running)
	})
	q("Unstopped", func(c *call) *Node {
		g := c.reader()
		if g.done == nil {
			failf("%s hands nothing over", g.fn)
		}
		return and(g.endSt.get(g.running), not(s.ended(g.done, g.endSt)))
	})
	q("Fed", func(c *call) *Node {
		g := c.reader()
		if g.fed == nil || g.eventCh == nil {
			return nFalse
		}
		root := nFalse
		if g.fedCtx.k == NLeaf {
			r, _ := ctxRoot(g.fedCtx)
			root = mkBool(r.lk == LOpq && r.atom.op == "in")
		}
		return and(root, eqNode(g.fed, g.eventCh))
	})
	q("Closed", func(c *call) *Node {
		g := c.reader()
		ci := s.info(g.eventCh)
		if ci == nil {
			return nFalse
		}
		return c.st.get(ci.closed)
	})
}

// copyOf: what is sent is seen as it is now.
func copyOf(v *Node, st *State) *Node {
	return apply1(v, func(l *Node) *Node {
		if l.lk != LPtr || len(l.path) > 0 || l.obj.foreign {
			return l
		}
		o := newObj(l.obj.name, l.obj.typ, nil)
		o.fresh = true
		st.h[o] = st.get(l.obj)
		return mkPtr(o, nil)
	})
}
