package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// cons is one decision on a path.
type cons struct {
	s      *Subj
	lo, hi I // [lo,hi)
	pt     *Node
	ne     []*Node
}

func (c cons) String() string {
	if c.s.lin != nil {
		switch {
		case c.lo != nil && c.hi != nil && addI(c.lo, b1).Cmp(c.hi) == 0:
			return fmt.Sprintf("%v == %v", c.s.lin, c.lo)
		case c.lo == nil:
			return fmt.Sprintf("%v < %v", c.s.lin, c.hi)
		case c.hi == nil:
			return fmt.Sprintf("%v >= %v", c.s.lin, c.lo)
		}
		return fmt.Sprintf("%v <= %v < %v", c.lo, c.s.lin, c.hi)
	}
	if c.pt != nil {
		return fmt.Sprintf("%v == %v", c.s.eq, c.pt)
	}
	return fmt.Sprintf("%v not in %v", c.s.eq, c.ne)
}

// applyRaw is apply without the short cut for Dead/Any/Panic.
func applyRaw(f func([]*Node) *Node, args ...*Node) *Node {
	memo := map[string]*Node{}
	var rec func(args []*Node) *Node
	rec = func(args []*Node) *Node {
		var top *Subj
		for _, a := range args {
			if a.k == NDec && (top == nil || a.subj.id < top.id) {
				top = a.subj
			}
		}
		if top == nil {
			return f(args)
		}
		key := idsKey(args)
		if r := memo[key]; r != nil {
			return r
		}
		cs := cellsOf(top, args)
		kids := make([]*Node, len(cs))
		for i, c := range cs {
			pins := c.pins()
			as := make([]*Node, len(args))
			for j, a := range args {
				as[j] = cofactor(a, c, pins)
			}
			kids[i] = rec(as)
		}
		r := fromCells(top, cs, kids)
		memo[key] = r
		return r
	}
	return rec(args)
}

// Mismatch is one difference between specification and implementation.
type Mismatch struct {
	Component  string
	Path       []string
	Spec, Impl string
	Pos        token.Pos
}

type comparer struct {
	nilEq  bool
	errAny bool // when the spec says error, other results do not matter
	leafs  int
	pairs  int
	eqHook func(a, b *Node) bool // coinductive equality of loop atoms etc.
}

// same returns the condition under which spec leaf a equals impl leaf b.
func (c *comparer) same(a, b *Node) *Node {
	c.pairs++
	if a == b {
		return nTrue
	}
	switch a.lk {
	case LAny, LDead, LPanic:
		return nTrue
	}
	switch b.lk {
	case LDead, LPanic, LAny:
		return nFalse
	}
	if a.lk == LTup && b.lk == LTup && len(a.kids) == len(b.kids) {
		r := nTrue
		for i := range a.kids {
			r = and(r, c.same(a.kids[i], b.kids[i]))
		}
		return r
	}
	if a.lk == LRef && b.lk == LRef {
		return c.same(a.kids[0], b.kids[0])
	}
	if a.lk == LIface && b.lk == LIface {
		if typeKey(a.typ) != typeKey(b.typ) {
			return nFalse
		}
		return c.same(a.kids[0], b.kids[0])
	}
	// sentinel errors are errors
	isErr := func(n *Node) bool { return n.lk == LErr || n.lk == LIface && implementsErrorT(n.typ) }
	if a.lk == LErr && isErr(b) {
		return nTrue
	}
	seqish := func(n *Node) bool { return n.lk == LSeqV || n.lk == LNil }
	if seqish(a) && seqish(b) {
		an, bn := a.lk == LNil || a.b, b.lk == LNil || b.b
		sa, sb := emptySeq('b'), emptySeq('b')
		if a.lk == LSeqV {
			sa = a.seq
		}
		if b.lk == LSeqV {
			sb = b.seq
		}
		if !c.nilEq && an != bn {
			return nFalse
		}
		if an || bn {
			return and(eqL(sa.length(), linC(b0)), eqL(sb.length(), linC(b0)))
		}
		return c.sameSeq(sa, sb)
	}
	if a.lk == LStr && b.lk == LStr {
		return c.sameSeq(a.seq, b.seq)
	}
	if a.lk != b.lk {
		return nFalse
	}
	switch a.lk {
	case LInt:
		return eqL(a.lin, b.lin)
	case LMapV:
		if a.atom == b.atom && len(a.kids) == len(b.kids) {
			r := nTrue
			for i := range a.kids {
				r = and(r, c.same(a.kids[i], b.kids[i]))
			}
			return r
		}
		return nFalse
	}
	return nFalse
}

func (c *comparer) sameSeq(x, y *Seq) *Node {
	if x == y {
		return nTrue
	}
	// element-wise for equal piece shapes
	if len(x.ps) == len(y.ps) {
		r := nTrue
		for i := range x.ps {
			p, q := &x.ps[i], &y.ps[i]
			if p.k == q.k && p.key() == q.key() {
				continue
			}
			if p.k == PElems && q.k == PElems && len(p.els) == len(q.els) {
				for j := range p.els {
					r = and(r, c.same(p.els[j], q.els[j]))
				}
				continue
			}
			if p.k == PWin && q.k == PWin && p.base == q.base {
				r = and(r, and(eqL(p.off, q.off), eqL(p.n, q.n)))
				continue
			}
			if p.k == PFill && q.k == PFill {
				r = and(r, and(eqL(p.n, q.n), c.same(p.val, q.val)))
				continue
			}
			if p.k == PDec && q.k == PDec && p.w == q.w {
				r = and(r, eqL(p.lin, q.lin))
				continue
			}
			r = nFalse
		}
		if r != nFalse {
			return r
		}
	}
	e := eqSeq(x, y)
	// an undecided equality is not an equality
	return apply1(e, func(l *Node) *Node { return l })
}

// compare walks spec and impl (same shape) and reports differences.
func (c *comparer) compare(name string, spec, impl *Node, pre []cons) []Mismatch {
	if spec.k == NAgg || impl.k == NAgg {
		if spec.k != NAgg {
			if spec.k == NLeaf && (spec.lk == LAny || spec.lk == LDead || spec.lk == LPanic) {
				return nil
			}
			return c.compare(name, spec, tupLeaf(impl), pre)
		}
		if impl.k != NAgg {
			return c.compare(name, tupLeaf(spec), impl, pre)
		}
		var out []Mismatch
		if e := len(spec.kids) - 1; c.errAny && e > 0 && hasErr(spec.kids[e]) {
			// where the reference fails, the other results do not matter
			ks := append([]*Node(nil), spec.kids...)
			for i := range ks[:e] {
				ks[i] = maskErr(ks[i], ks[e])
			}
			spec = &Node{k: NAgg, names: spec.names, kids: ks, id: -1}
		}
		for i := range spec.kids {
			n := fmt.Sprint(i)
			if i < len(spec.names) {
				n = spec.names[i]
			}
			out = append(out, c.compare(name+"."+n, spec.kids[i], impl.kids[i], pre)...)
		}
		return out
	}
	d := applyRaw(func(a []*Node) *Node {
		c.leafs++
		return c.same(a[0], a[1])
	}, spec, impl)
	if d == nTrue {
		return nil
	}
	// search for a feasible path to false
	var out []Mismatch
	budget := 3000
	var walk func(n *Node, path []cons)
	walk = func(n *Node, path []cons) {
		if len(out) > 0 || n == nTrue || budget <= 0 {
			return
		}
		if n.k == NLeaf {
			budget--
			if !feasible(path) {
				return
			}
			m := Mismatch{Component: name}
			sp, im := restrict(spec, path), restrict(impl, path)
			m.Spec, m.Impl = clip(sp.String(), 1500), clip(im.String(), 1500)
			for _, p := range path {
				m.Path = append(m.Path, p.String())
			}
			m.Pos = birthOf(im)
			out = append(out, m)
			return
		}
		for i, k := range n.kids {
			if k == nTrue {
				continue
			}
			walk(k, append(append([]cons(nil), path...), kidCons(n, i)))
		}
	}
	walk(d, pre)
	if len(out) == 0 && budget <= 0 {
		out = append(out, Mismatch{Component: name, Spec: "?", Impl: "undecided: too many candidate paths", Pos: impl.birth})
	}
	return out
}

func hasErr(n *Node) bool {
	if n.k == NAgg {
		return false
	}
	for _, l := range leavesOf(n) {
		if l.lk == LErr {
			return true
		}
	}
	return false
}

func maskErr(v, e *Node) *Node {
	if v.k == NAgg {
		ks := make([]*Node, len(v.kids))
		for i := range ks {
			ks[i] = maskErr(v.kids[i], e)
		}
		return &Node{k: NAgg, names: v.names, kids: ks, id: -1}
	}
	return applyRaw(func(a []*Node) *Node {
		if a[1].lk == LErr {
			return nAny
		}
		return a[0]
	}, v, e)
}

func birthOf(n *Node) token.Pos { return n.birth }

func kidCons(n *Node, i int) cons {
	c := cons{s: n.subj}
	if n.subj.lin != nil {
		if i > 0 {
			c.lo = n.cuts[i-1]
		}
		if i < len(n.cuts) {
			c.hi = n.cuts[i]
		}
		return c
	}
	if i < len(n.pts) {
		c.pt = n.pts[i]
	} else {
		c.ne = n.pts
	}
	return c
}

func restrict(n *Node, path []cons) *Node {
	if n.k == NAgg {
		return n
	}
	for _, p := range path {
		cl := &cell{s: p.s, lo: p.lo, hi: p.hi, pt: p.pt, def: p.ne != nil, excl: p.ne}
		n = cofactor(n, cl, cl.pins())
	}
	return n
}

// feasible: bound propagation over the linear constraints of the path.
func feasible(path []cons) bool {
	if !feasibleLin(path) {
		return false
	}
	// a finished loop's continuation condition is false
	for _, a := range loopResults(path) {
		if f := loopFact(a); f != nil && restrict(f, path) == nFalse {
			return false
		}
	}
	return true
}

// loopResults: the loop results the path mentions.
func loopResults(path []cons) (out []*Atom) {
	seen := map[*Atom]bool{}
	var lin func(l *Lin)
	var atom func(a *Atom)
	lin = func(l *Lin) {
		for _, t := range l.ts {
			atom(t.a)
		}
	}
	atom = func(a *Atom) {
		if seen[a] || len(out) > 20 {
			return
		}
		seen[a] = true
		if a.op == "fin" || a.op == "kfin" {
			out = append(out, a)
		}
		for _, x := range a.args {
			switch x := x.(type) {
			case *Lin:
				lin(x)
			case *Atom:
				atom(x)
			case *Node:
				if x.k == NLeaf && x.lk == LInt {
					lin(x.lin)
				}
			}
		}
	}
	for _, p := range path {
		if p.s.lin != nil {
			lin(p.s.lin)
		}
	}
	return
}

func boundVars(l *Lin, L *Loop) bool {
	for _, v := range L.vars {
		if l.bl.has(v.id) {
			return true
		}
	}
	return false
}

func feasibleLin(path []cons) bool {
	var cs []*Lin
	seen := map[*Atom]bool{}
	var addAtoms func(l *Lin)
	addAtoms = func(l *Lin) {
		for _, t := range l.ts {
			if seen[t.a] {
				continue
			}
			seen[t.a] = true
			if t.a.op == "div" {
				r, c := t.a.args[0].(*Lin), t.a.args[1].(I)
				d := linSub(r, linScale(linA(t.a), c))
				cs = append(cs, d, linAddI(linNeg(d), subI(c, b1)))
				addAtoms(r)
			}
			if t.a.op == "kfin" {
				// a counter never passes the point where the loop must stop
				L := t.a.args[0].(*Loop)
				for _, v := range L.vars {
					if v.op != "k" {
						continue
					}
					if n := countedExit(L.cont, nil, v); n != nil {
						for _, lf := range leavesOf(n) {
							if lf.lk == LInt && lf != mkI(0) && len(leavesOf(n)) <= 2 && !boundVars(lf.lin, L) {
								// k <= max(0, n)
								if lf.lin.nonneg() || n == lf {
									d := linSub(lf.lin, linA(t.a))
									cs = append(cs, d)
									addAtoms(lf.lin)
								}
							}
						}
					}
				}
			}
		}
	}
	var eqs []*Lin
	for _, p := range path {
		if p.s.lin == nil {
			continue
		}
		addAtoms(p.s.lin)
		if p.lo != nil && p.hi != nil && addI(p.lo, b1).Cmp(p.hi) == 0 {
			eqs = append(eqs, linAddI(p.s.lin, negI(p.lo)))
			continue
		}
		if p.lo != nil {
			cs = append(cs, linAddI(p.s.lin, negI(p.lo)))
		}
		if p.hi != nil {
			cs = append(cs, linAddI(linNeg(p.s.lin), subI(p.hi, b1)))
		}
	}
	// equalities: substitute the newest atom with a unit coefficient
	for i := 0; i < len(eqs); i++ {
		e := eqs[i]
		if e.isConst() {
			if e.k.Sign() != 0 {
				return false
			}
			continue
		}
		var piv *Term
		for j := range e.ts {
			if e.ts[j].c.CmpAbs(b1) == 0 && (piv == nil || e.ts[j].a.id > piv.a.id) {
				piv = &e.ts[j]
			}
		}
		if piv == nil {
			cs = append(cs, e, linNeg(e))
			continue
		}
		elim := func(l *Lin) *Lin {
			for _, t := range l.ts {
				if t.a == piv.a {
					m := negI(t.c)
					if piv.c.Sign() < 0 {
						m = t.c
					}
					return linAdd(l, linScale(e, m))
				}
			}
			return l
		}
		for j := i + 1; j < len(eqs); j++ {
			eqs[j] = elim(eqs[j])
		}
		for j := range cs {
			cs[j] = elim(cs[j])
		}
		// the bounds of the eliminated atom remain constraints
		if piv.a.lo != nil {
			cs = append(cs, elim(linAddI(linA(piv.a), negI(piv.a.lo))))
		}
		if piv.a.hi != nil {
			cs = append(cs, elim(linAddI(linNeg(linA(piv.a)), piv.a.hi)))
		}
	}
	return feasLin(cs)
}

func feasLin(cs []*Lin) bool {
	lo, hi := map[*Atom]I{}, map[*Atom]I{}
	for _, l := range cs {
		for _, t := range l.ts {
			lo[t.a], hi[t.a] = t.a.lo, t.a.hi
		}
	}
	// pairwise sums cancelling an atom (one round of elimination)
	n := len(cs)
	if n <= 60 {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				s := linAdd(cs[i], cs[j])
				if len(s.ts) < len(cs[i].ts)+len(cs[j].ts) && len(s.ts) <= max(len(cs[i].ts), len(cs[j].ts)) {
					cs = append(cs, s)
					for _, t := range s.ts {
						if _, ok := lo[t.a]; !ok {
							lo[t.a], hi[t.a] = t.a.lo, t.a.hi
						}
					}
				}
			}
		}
	}
	for round := 0; round < 12; round++ {
		changed := false
		for _, l := range cs {
			// max of l must be >= 0
			mx := l.k
			inf := 0
			var infT Term
			for _, t := range l.ts {
				b := hi[t.a]
				if t.c.Sign() < 0 {
					b = lo[t.a]
				}
				if b == nil {
					inf++
					infT = t
					continue
				}
				mx = addI(mx, mulI(t.c, b))
			}
			if inf == 0 && mx.Sign() < 0 {
				return false
			}
			if inf > 1 {
				continue
			}
			for _, t := range l.ts {
				if inf == 1 && t.a != infT.a {
					continue
				}
				rest := mx
				if inf == 0 {
					b := hi[t.a]
					if t.c.Sign() < 0 {
						b = lo[t.a]
					}
					rest = subI(mx, mulI(t.c, b))
				}
				// t.c*a + rest >= 0
				if t.c.Sign() > 0 {
					v := cdiv(negI(rest), t.c)
					if lo[t.a] == nil || v.Cmp(lo[t.a]) > 0 {
						lo[t.a] = v
						changed = true
					}
				} else {
					v := fdiv(rest, negI(t.c))
					if hi[t.a] == nil || v.Cmp(hi[t.a]) < 0 {
						hi[t.a] = v
						changed = true
					}
				}
				if lo[t.a] != nil && hi[t.a] != nil && lo[t.a].Cmp(hi[t.a]) > 0 {
					return false
				}
			}
		}
		if !changed {
			break
		}
	}
	return true
}

func (m Mismatch) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: required %s, code yields %s", m.Component, m.Spec, m.Impl)
	if len(m.Path) > 0 {
		ps := append([]string(nil), m.Path...)
		sort.Strings(ps)
		if len(ps) > 12 {
			ps = append(ps[:12], "…")
		}
		fmt.Fprintf(&sb, "\n    when %s", strings.Join(ps, " && "))
	}
	return sb.String()
}
