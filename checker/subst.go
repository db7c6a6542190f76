package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

// ---- failure handling: anything unsupported aborts the analysis of the
// function with a message; the obligation is then undecided (= not shown).

type failure struct{ msg string }

var debugFail = os.Getenv("VERIF_STACK") != ""

func failf(f string, a ...any) {
	if debugFail {
		debug.PrintStack()
	}
	panic(failure{fmt.Sprintf(f, a...)})
}

// substT substitutes atoms by values and/or restricts a subject to a cell.
type substT struct {
	m       map[*Atom]any // *Lin or *Node
	cell    *cell
	memo    map[int]*Node
	amemo   map[*Atom]*Node
	bl      bloom
	blset   bool
	slices  map[*Obj]func(n *Node) *Node // placeholder slices and maps
	objs    map[*Obj]*Obj
	newObjs map[*Obj]*Node
}

func (t *substT) touches(b *bloom) bool {
	if !t.blset {
		for a := range t.m {
			t.bl.add(a.id)
		}
		t.blset = true
	}
	return b.meets(&t.bl)
}

func substNode(n *Node, m map[*Atom]any) *Node {
	return (&substT{m: m, memo: map[int]*Node{}}).node(n)
}

func (t *substT) node(n *Node) *Node {
	need := len(t.m) > 0 && t.touches(&n.bl) || len(t.slices) > 0 && n.objs
	if !need && (t.cell == nil || !n.sbl.has(t.cell.s.id)) {
		return n
	}
	if r := t.memo[n.id]; r != nil {
		return r
	}
	r := t.node1(n)
	t.memo[n.id] = r
	return r
}

func (t *substT) node1(n *Node) *Node {
	switch n.k {
	case NAgg:
		fs := make([]*Node, len(n.kids))
		for i, k := range n.kids {
			fs[i] = t.node(k)
		}
		return mkAgg(n.names, fs)
	case NDec:
		if t.cell != nil && n.subj == t.cell.s {
			p := pickCell(n, t.cell)
			if p.k != NDec || p.subj != n.subj {
				return t.node(p)
			}
			n = p
		}
		s := n.subj
		if s.lin != nil {
			if !t.touches(&s.atoms) {
				kids := make([]*Node, len(n.kids))
				for i, k := range n.kids {
					kids[i] = t.node(k)
				}
				return mkDecIntC(s, n.cuts, kids)
			}
			l := t.lin(s.lin)
			r := t.node(n.kids[len(n.kids)-1])
			for i := len(n.cuts) - 1; i >= 0; i-- {
				c := liftLin(l, func(x *Lin) *Node { return ltZero(linAddI(x, negI(n.cuts[i]))) })
				if c == nFalse {
					continue
				}
				r = ite(c, t.node(n.kids[i]), r)
			}
			return r
		}
		if !t.touches(&s.atoms) {
			kids := make([]*Node, len(n.kids))
			for i, k := range n.kids {
				kids[i] = t.node(k)
			}
			return mkDecEqC(s, n.pts, kids)
		}
		e := t.node(s.eq)
		r := t.node(n.kids[len(n.kids)-1])
		for i := len(n.pts) - 1; i >= 0; i-- {
			c := eqNode(e, t.node(n.pts[i]))
			r = ite(c, t.node(n.kids[i]), r)
		}
		return r
	}
	switch n.lk {
	case LInt:
		return t.lin(n.lin)
	case LStr:
		return toStr(t.seq(n.seq))
	case LSeqV:
		if n.b {
			return apply(func(a []*Node) *Node { return mkSeqV(seqOf(a[0]), true) }, t.seq(n.seq))
		}
		return t.seq(n.seq)
	case LFloat, LOpq:
		return t.atom(n.atom)
	case LMap:
		if f := t.slices[n.obj]; f != nil {
			return f(n)
		}
		return n
	case LSlice:
		if f := t.slices[n.obj]; f != nil {
			return f(n)
		}
		if n.path == nil {
			return liftLin2(t.lin(n.lin), t.lin(n.lin2), func(a, b *Lin) *Node { return mkSlice(n.obj, nil, a, b) })
		}
		p := t.path(n)
		return apply(func(a []*Node) *Node {
			return apply(func(b []*Node) *Node { return mkSlice(n.obj, a[0].path, b[0].lin, b[1].lin) }, t.lin(n.lin), t.lin(n.lin2))
		}, p)
	case LPtr:
		if a := n.obj.opq; a != nil && len(n.path) == 0 && t.touches(&a.bl) {
			return t.atom(a)
		}
		return t.path(n)
	case LIface:
		return apply(func(a []*Node) *Node { return mkIface(n.typ, a[0]) }, t.node(n.kids[0]))
	case LFunc:
		return t.kids(n, func(k []*Node) *Node { return mkFunc(n.fn, k) })
	case LRef:
		return t.kids(n, func(k []*Node) *Node { return mkRef(k[0]) })
	case LTup:
		return t.kids(n, func(k []*Node) *Node { return mkTup(n.names, k) })
	case LMapV:
		f := func(base *Node) *Node {
			return t.kids(n, func(k []*Node) *Node {
				if base == nil {
					return mkMapV(nil, k)
				}
				if base.lk != LMapV {
					failf("map expected")
				}
				return mkMapV(base.atom, append(append([]*Node(nil), base.kids...), k...))
			})
		}
		if n.atom == nil {
			return f(nil)
		}
		return apply(func(a []*Node) *Node { return f(a[0]) }, t.atom(n.atom))
	}
	return n
}

func (t *substT) kids(n *Node, f func([]*Node) *Node) *Node {
	ks := make([]*Node, len(n.kids))
	for i, k := range n.kids {
		ks[i] = t.node(k)
	}
	return apply(f, ks...)
}

func (t *substT) path(n *Node) *Node {
	var idx []*Node
	for _, p := range n.path {
		if p.idx != nil {
			idx = append(idx, t.lin(p.idx))
		}
	}
	return apply(func(a []*Node) *Node {
		out := make([]PathEl, len(n.path))
		j := 0
		for i, p := range n.path {
			out[i] = p
			if p.idx != nil {
				out[i].idx = a[j].lin
				j++
			}
		}
		return mkPtr(n.obj, out)
	}, idx...)
}

func (t *substT) lin(l *Lin) *Node {
	if !t.touches(&l.bl) {
		return mkInt(l)
	}
	acc := linC(l.k)
	var ns []*Node
	var cs []I
	keep := make([]Term, 0, len(l.ts))
	for _, x := range l.ts {
		if v, ok := t.m[x.a]; ok {
			if vl, isl := v.(*Lin); isl {
				acc = linAdd(acc, linScale(vl, x.c))
				continue
			}
		}
		if !t.touches(&x.a.bl) {
			keep = append(keep, x)
			continue
		}
		n := t.atom(x.a)
		if n.leaf(LInt) {
			acc = linAdd(acc, linScale(n.lin, x.c))
			continue
		}
		ns = append(ns, n)
		cs = append(cs, x.c)
	}
	acc = linAdd(acc, internLin(b0, keep))
	r := mkInt(acc)
	for i, n := range ns {
		c := cs[i]
		r = liftLin2(r, n, func(a, b *Lin) *Node { return mkInt(linAdd(a, linScale(b, c))) })
	}
	return r
}

// seq returns a node with LSeqV leaves.
func (t *substT) seq(s *Seq) *Node {
	if !t.touches(&s.bl) {
		return mkSeqV(s, false)
	}
	r := mkSeqV(emptySeq(s.kind), false)
	for i := range s.ps {
		p := &s.ps[i]
		n := t.piece(p, s.kind)
		r = apply(func(a []*Node) *Node { return mkSeqV(concatSeq(seqOf(a[0]), seqOf(a[1])), false) }, r, n)
	}
	return r
}

func (t *substT) piece(p *Piece, kind byte) *Node {
	one := func(q Piece) *Node { return mkSeqV(mkSeq(kind, []Piece{q}), false) }
	switch p.k {
	case PLit:
		return one(*p)
	case PElems:
		els := make([]*Node, len(p.els))
		for i, e := range p.els {
			els[i] = t.node(e)
		}
		return apply(func(a []*Node) *Node {
			return mkSeqV(elemsSeq(kind, append([]*Node(nil), a...)), false)
		}, els...)
	case PWin:
		off, n := t.lin(p.off), t.lin(p.n)
		if t.touches(&p.base.bl) {
			b := t.atom(p.base)
			return apply(func(a []*Node) *Node {
				return seqSlice(seqOf(a[0]), a[1].lin, a[2].lin)
			}, b, off, n)
		}
		return liftLin2(off, n, func(o, l *Lin) *Node { return mkSeqV(winSeq(kind, p.base, o, l), false) })
	case PDec:
		return liftLin(t.lin(p.lin), func(l *Lin) *Node { return one(Piece{k: PDec, lin: l, w: p.w}) })
	case PFill:
		return apply(func(a []*Node) *Node {
			return one(Piece{k: PFill, val: a[0], n: a[1].lin})
		}, t.node(p.val), t.lin(p.n))
	}
	failf("piece %d", p.k)
	return nil
}

func seqOf(n *Node) *Seq {
	if n.k == NLeaf && (n.lk == LSeqV || n.lk == LStr) {
		return n.seq
	}
	if n.leaf(LNil) {
		return emptySeq('b')
	}
	failf("sequence expected, have %s", n)
	return nil
}

func toStr(n *Node) *Node {
	return apply(func(a []*Node) *Node { return mkStr(seqOf(a[0])) }, n)
}

// mkDecIntC / mkDecEqC build a decision whose kids may contain decisions in
// any order (they were rebuilt).
func mkDecIntC(s *Subj, cuts []I, kids []*Node) *Node {
	if hasAgg(kids) != nil {
		failf("aggregate under decision")
	}
	ok := true
	for _, k := range kids {
		if k.k == NDec && k.subj.id <= s.id {
			ok = false
		}
	}
	if ok {
		return mkDecInt(s, cuts, kids)
	}
	return composeDec(s, cuts, nil, kids)
}

func mkDecEqC(s *Subj, pts, kids []*Node) *Node {
	ok := true
	for _, k := range kids {
		if k.k == NDec && k.subj.id <= s.id {
			ok = false
		}
	}
	if ok {
		return mkDecEq(s, pts, kids)
	}
	return composeDec(s, nil, pts, kids)
}

// atom returns the value of a under the substitution.
func (t *substT) atom(a *Atom) *Node {
	if v, ok := t.m[a]; ok {
		switch v := v.(type) {
		case *Lin:
			return mkInt(v)
		case *Node:
			return v
		}
	}
	if !t.touches(&a.bl) {
		return atomValue(a)
	}
	if t.amemo == nil {
		t.amemo = map[*Atom]*Node{}
	}
	if r := t.amemo[a]; r != nil {
		return r
	}
	r := t.atom1(a)
	t.amemo[a] = r
	return r
}

func (t *substT) atom1(a *Atom) *Node {
	// generic: substitute args to nodes, then rebuild
	args := make([]*Node, len(a.args))
	for i, x := range a.args {
		switch x := x.(type) {
		case *Lin:
			args[i] = t.lin(x)
		case *Node:
			args[i] = t.node(x)
		case *Atom:
			args[i] = t.atom(x)
		case *Seq:
			args[i] = t.seq(x)
		}
	}
	switch a.op {
	case "div":
		return liftLin(args[0], func(l *Lin) *Node { return divL(l, a.args[1].(I)) })
	case "and":
		return liftLin2(args[0], args[1], func(x, y *Lin) *Node { return andL(x, y, uint(a.args[2].(int))) })
	case "bit":
		j := a.args[2].(int)
		return apply(func(n []*Node) *Node { return bitOf(n[0], n[1].lin, j) }, args[0], args[1])
	case "len":
		return apply(func(n []*Node) *Node { return mkInt(seqLen(n[0])) }, args[0])
	case "isnil":
		return apply(func(n []*Node) *Node {
			return ite(isNilNode(n[0]), mkI(1), mkI(0))
		}, args[0])
	case "declen":
		w := a.args[1].(int)
		return liftLin(args[0], func(l *Lin) *Node { return mkInt((&Piece{k: PDec, lin: l, w: w}).length()) })
	case "fld":
		return apply(func(n []*Node) *Node { return fieldOf(n[0], a.args[1].(string), a) }, args[0])
	case "elem":
		return apply(func(n []*Node) *Node { return elemOf(n[0], n[1].lin, a) }, args[0], args[1])
	case "seq":
		return args[0]
	case "upd":
		return apply(func(n []*Node) *Node { return seqUpdate(seqOf(n[0]), n[1].lin, n[2]) }, args[0], args[1], args[2])
	case "err":
		return apply(func(n []*Node) *Node { return errOf(n[0]) }, args[0])
	case "eq":
		return apply(func(n []*Node) *Node { return boolInt(eqNode(n[0], n[1])) }, args[0], args[1])
	case "fin", "acc", "kfin":
		return t.loopAtom(a, args)
	case "mget", "mok", "mlen", "mkeys":
		return rebuildMap(a, args)
	}
	if r := rebuilders[opName(a)]; r != nil {
		return apply(func(n []*Node) *Node { return r(a, n) }, nonNil(args)...)
	}
	// uninterpreted application
	return apply(func(n []*Node) *Node {
		xs := make([]any, len(a.args))
		j := 0
		for i, x := range a.args {
			if args[i] == nil {
				xs[i] = x
				continue
			}
			switch x.(type) {
			case *Lin:
				xs[i] = n[j].lin
			case *Seq:
				xs[i] = seqOf(n[j])
			case *Atom:
				at := atomOf(n[j])
				if at == nil {
					failf("cannot substitute into %s: %s", a, n[j])
				}
				xs[i] = at
			default:
				xs[i] = n[j]
			}
			j++
		}
		b := mkAtomT(a.op, a.lo, a.hi, a.typ, xs...)
		return atomValue(b)
	}, nonNil(args)...)
}

func nonNil(ns []*Node) []*Node {
	var out []*Node
	for _, n := range ns {
		if n != nil {
			out = append(out, n)
		}
	}
	return out
}

var rebuilders = map[string]func(a *Atom, args []*Node) *Node{}

func opName(a *Atom) string {
	if a.op == "app" {
		return a.args[0].(string)
	}
	return a.op
}

// atomOf returns the atom a leaf stands for.
func atomOf(n *Node) *Atom {
	if n.k != NLeaf {
		return nil
	}
	switch n.lk {
	case LInt:
		return n.lin.single()
	case LOpq, LFloat:
		return n.atom
	case LStr, LSeqV:
		return seqAsAtom(n.seq)
	case LMapV:
		if len(n.kids) == 0 {
			return n.atom
		}
	}
	return nil
}

func boolInt(b *Node) *Node { return ite(b, mkI(1), mkI(0)) }

func intBool(n *Node) *Node {
	return liftLin(n, func(l *Lin) *Node { return not(ltZero(linAddI(l, bi(-1)))) })
}
