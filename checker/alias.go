package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// What a delivered transaction shares with anything that lives on.
//
// Three rules. (1) The event the reader hands over is made of memory that the
// reader made in this very round and keeps nothing of. (2) After a step that
// called the handler, nothing that the handler was given can be reached from
// what the event loop keeps, and its contents are as they were at the call.
// (3) Where the data of a value comes from, and that it is stored once: see
// flow.go.

// reach: the objects that can be reached from v, given that g holds.
func reachObjs(v, g *Node, st *State) map[*Obj]bool {
	out := map[*Obj]bool{}
	seen := map[*Node]bool{}
	var obj func(o *Obj)
	var val func(n *Node)
	obj = func(o *Obj) {
		if o == nil || out[o] {
			return
		}
		out[o] = true
		for _, b := range o.from {
			obj(b)
		}
		c := st.h[o]
		if c == nil {
			c = o.init
		}
		if c != nil {
			val(c)
		}
	}
	var walk func(n *Node)
	walk = func(n *Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		switch n.k {
		case NDec, NAgg:
			for _, k := range n.kids {
				walk(k)
			}
			return
		}
		switch n.lk {
		case LPtr, LSlice, LMap:
			obj(n.obj)
		case LSeqV, LStr:
			if n.lk == LSeqV && n.seq != nil {
				for _, p := range n.seq.ps {
					for _, e := range p.els {
						walk(e)
					}
					walk(p.val)
				}
			}
		case LMapV:
			for _, k := range n.kids {
				walk(k)
			}
		case LIface, LTup, LFunc:
			for _, k := range n.kids {
				walk(k)
			}
		}
	}
	val = func(n *Node) {
		if g != nTrue {
			n = maskWith(g, n)
		}
		walk(n)
	}
	val(v)
	return out
}

// maskWith: v where g holds.
func maskWith(g, v *Node) *Node {
	if g == nTrue || v == nil {
		return v
	}
	if v.k == NAgg {
		ks := make([]*Node, len(v.kids))
		for i, k := range v.kids {
			ks[i] = maskWith(g, k)
		}
		return mkAgg(v.names, ks)
	}
	return ite(g, v, nDead)
}

// delivery is a call of the handler in a step.
type delivery struct {
	args []*Node
	st   *State
	mark *Node // value of the ghost when this call was the last
}

func (h *stepHook) deliver(args []*Node, st *State) {
	if h.ghost == nil {
		h.ghost = newObj("delivered", types.Typ[types.Int], mkI(0))
	}
	d := &delivery{args: args, st: st.clone(), mark: mkI(int64(len(h.delivered) + 1))}
	h.delivered = append(h.delivered, d)
	st.set(h.ghost, d.mark)
}

// sharedAfter: what the loop keeps of a delivered transaction.
func (h *stepHook) sharedAfter(next map[string]*Node, st *State, g *Node) {
	for _, d := range h.delivered {
		is := and(g, eqNode(st.get(h.ghost), d.mark))
		if is == nFalse {
			continue
		}
		h.checked++
		given := map[*Obj]bool{}
		for _, a := range d.args {
			for o := range reachObjs(a, is, d.st) {
				given[o] = true
			}
		}
		h.givenObjs += len(given)
		names := make([]string, 0, len(next))
		for n := range next {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			for _, o := range sortedObjs(reachObjs(next[n], is, st)) {
				if given[o] {
					h.shared = append(h.shared, fmt.Sprintf("%s keeps %s of the delivered transaction", n, objDesc(o)))
				}
			}
		}
		for _, o := range sortedObjs(given) {
			a, b := d.st.h[o], st.h[o]
			if a == nil {
				a = o.init
			}
			if b == nil {
				b = o.init
			}
			if a != b && maskWith(is, a) != maskWith(is, b) {
				h.shared = append(h.shared, fmt.Sprintf("%s of the delivered transaction is changed after the handler was called", objDesc(o)))
			}
		}
	}
}

func sortedObjs(m map[*Obj]bool) (out []*Obj) {
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return
}

func objDesc(o *Obj) string {
	if o.typ == nil {
		return o.name
	}
	t := o.typ.String()
	return t[strings.LastIndexByte(t, '/')+1:]
}

// private: the event handed over is the reader's no longer.
func private(prop string, c *Ctx) {
	const rule = "event buffer"
	_, g, ok := c.runSession(prop, rule)
	if !ok {
		return
	}
	where := c.pos(g.pos)
	if g.event == nil {
		c.report(prop, rule, where, "undecided: nothing is handed over")
		return
	}
	ev := reachObjs(g.event, nTrue, g.eventSt)
	n := 0
	for _, o := range sortedObjs(ev) {
		n++
		if o.foreign || o.id <= g.firstID {
			c.report(prop, rule, where, "the event handed over contains memory (%s) that is not made for it", objDesc(o))
		}
	}
	if n == 0 {
		c.report(prop, rule, where, "undecided: the event handed over has no memory")
	}
	if g.h.backSt != nil {
		keep := map[*Obj]bool{}
		for _, v := range g.h.backVals {
			for o := range reachObjs(v, nTrue, g.h.backSt) {
				keep[o] = true
			}
		}
		for o := range g.h.backSt.h {
			if o.id <= g.firstID {
				for p := range reachObjs(g.h.backSt.h[o], nTrue, g.h.backSt) {
					keep[p] = true
				}
			}
		}
		for _, o := range sortedObjs(ev) {
			n++
			if keep[o] {
				c.report(prop, rule, where, "the reader keeps memory (%s) of the event it handed over", objDesc(o))
			}
			a, b := g.eventSt.h[o], g.h.backSt.h[o]
			if b != nil && a != b {
				c.report(prop, rule, where, "the reader changes %s after it handed it over", objDesc(o))
			}
		}
	}
	c.counts["memory of events"] += len(ev)
	c.counts["obligations"] += n
	c.logf("event buffer: %d objects handed over, none shared with the reader", len(ev))
}

// renewed: what is built for the handler is, at the end of a step, memory made
// in this step or the memory that was there for it before; nothing older.
func (h *stepHook) renewed(fr *frame, c *stepComp, next *Node, bodyID int, st *State, g *Node) {
	if !fr.en.handed(c.typ) {
		return
	}
	own := map[*Obj]bool{}
	for o := range reachObjs(h.value(c), nTrue, st) {
		own[o] = true
	}
	for _, o := range sortedObjs(reachObjs(next, g, st)) {
		if o.id <= bodyID && !own[o] && !o.foreign {
			h.shared = append(h.shared, fmt.Sprintf("%s is given memory (%s) that exists since before the loop", c.name, objDesc(o)))
		}
	}
}

// handed: t is a reference to a part of a transaction.
func (en *Engine) handed(t types.Type) bool {
	if en.handedT == nil {
		en.handedT = map[string]bool{}
		var walk func(t types.Type)
		walk = func(t types.Type) {
			k := typeKey(t)
			if en.handedT[k] {
				return
			}
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				en.handedT[k] = true
				walk(u.Elem())
			case *types.Slice:
				en.handedT[k] = true
				walk(u.Elem())
			case *types.Array:
				walk(u.Elem())
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					walk(u.Field(i).Type())
				}
			}
		}
		for _, p := range en.prog.AllPackages() {
			if p.Pkg.Path() == repoRoot {
				walk(types.NewPointer(p.Pkg.Scope().Lookup("Transaction").Type()))
			}
		}
	}
	return en.handedT[typeKey(t)]
}

const aliasText = "Ownership. Rules: the event handed over by the reader refers only to memory made in that round of its loop, which the reader keeps and changes no more; every reference stored in a part of a transaction comes, by backward value flow over the whole module, from memory made by the module (not from package-level variables, the driver or other owners), and is stored once per making; after a step of the event loop that called the handler, nothing reachable from the arguments of the call is reachable from the state of the loop or differs from what it was at the call. Undecided constructs count as violations."
