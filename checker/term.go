package main

// Canonical value graphs: hash-consed decision diagrams (DDs) whose leaves are
// linear forms over input atoms, byte/element sequences, pointers, ...

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type I = *big.Int
type bigInt = big.Int

func bi(n int64) I { return big.NewInt(n) }

var (
	b0, b1, b2 = bi(0), bi(1), bi(2)
	maxLen     = subI(pow2(31), b1)
)

func pow2(n uint) I   { return new(big.Int).Lsh(b1, n) }
func addI(a, b I) I   { return new(big.Int).Add(a, b) }
func subI(a, b I) I   { return new(big.Int).Sub(a, b) }
func mulI(a, b I) I   { return new(big.Int).Mul(a, b) }
func negI(a I) I      { return new(big.Int).Neg(a) }
func fdiv(a, b I) I   { q, _ := new(big.Int).DivMod(a, b, new(big.Int)); return q } // b>0: floor
func fmod(a, b I) I   { _, m := new(big.Int).DivMod(a, b, new(big.Int)); return m }
func cdiv(a, b I) I   { return negI(fdiv(negI(a), b)) }
func isPow2(a I) bool { return a.Sign() > 0 && a.TrailingZeroBits() == uint(a.BitLen()-1) }
func minI(a, b I) I {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxI(a, b I) I {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

// ---------------------------------------------------------------- atoms

// Atom is an opaque term: an input, a bit of an input, div(lin,c), an
// uninterpreted application, a loop result, a placeholder.
type Atom struct {
	id     int
	op     string
	args   []any // *Lin, *Node, *Atom, *Loop, string, int
	lo, hi I     // nil = unbounded (int-valued atoms)
	typ    types.Type
	bl     bloom
	height int
	birth  token.Pos
}

type bloom [16]uint64

func (b *bloom) add(id int) {
	h := uint(id) * 2654435761 % 1024
	b[h/64] |= 1 << (h % 64)
}
func (b *bloom) or(c *bloom) {
	for i := range b {
		b[i] |= c[i]
	}
}
func (b *bloom) has(id int) bool {
	h := uint(id) * 2654435761 % 1024
	return b[h/64]&(1<<(h%64)) != 0
}
func (b *bloom) meets(c *bloom) bool {
	for i := range b {
		if b[i]&c[i] != 0 {
			return true
		}
	}
	return false
}

var (
	atomTab  = map[string]*Atom{}
	linTab   = map[string]*Lin{}
	nodeTab  = map[string]*Node{}
	subjTab  = map[string]*Subj{}
	seqTab   = map[string]*Seq{}
	atomN    int
	linN     int
	nodeN    int
	subjN    int
	seqN     int
	curPos   token.Pos // instruction being interpreted
	curPhase string    // "spec" or "impl"
)

func argKey(sb *strings.Builder, a any) {
	switch a := a.(type) {
	case *Lin:
		fmt.Fprintf(sb, "L%d,", a.id)
	case *Node:
		fmt.Fprintf(sb, "N%d,", a.id)
	case *Atom:
		fmt.Fprintf(sb, "A%d,", a.id)
	case *Loop:
		fmt.Fprintf(sb, "M%d,", a.id)
	case *Seq:
		fmt.Fprintf(sb, "Q%d,", a.id)
	case string:
		fmt.Fprintf(sb, "%q,", a)
	case int:
		fmt.Fprintf(sb, "%d,", a)
	case I:
		fmt.Fprintf(sb, "#%s,", a)
	default:
		panic(fmt.Sprintf("argKey %T", a))
	}
}

func mkAtom(op string, lo, hi I, args ...any) *Atom {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('(')
	for _, a := range args {
		argKey(&sb, a)
	}
	k := sb.String()
	if a := atomTab[k]; a != nil {
		return a
	}
	atomN++
	a := &Atom{id: atomN, op: op, args: args, lo: lo, hi: hi, birth: curPos}
	a.bl.add(a.id)
	for _, x := range args {
		switch x := x.(type) {
		case *Lin:
			a.bl.or(&x.bl)
			a.height = max(a.height, x.height)
		case *Node:
			a.bl.or(&x.bl)
			a.height = max(a.height, x.height)
		case *Atom:
			a.bl.or(&x.bl)
			a.height = max(a.height, x.height)
		case *Seq:
			a.bl.or(&x.bl)
			a.height = max(a.height, x.height)
		case *Loop:
			a.bl.or(&x.bl)
			a.height = max(a.height, x.height)
		}
	}
	atomTab[k] = a
	return a
}

// ---------------------------------------------------------------- linear forms

type Term struct {
	a *Atom
	c I
}

type Lin struct {
	id     int
	k      I
	ts     []Term // sorted by atom id, non-zero coefficients
	bl     bloom
	height int
	rdone  bool
	rl, rh I
}

func mkLin(k I, ts []Term) *Lin {
	sort.Slice(ts, func(i, j int) bool { return ts[i].a.id < ts[j].a.id })
	out := ts[:0:0]
	for _, t := range ts {
		if n := len(out); n > 0 && out[n-1].a == t.a {
			out[n-1].c = addI(out[n-1].c, t.c)
		} else {
			out = append(out, t)
		}
	}
	ts = out
	n := 0
	for _, t := range ts {
		if t.c.Sign() != 0 {
			ts[n] = t
			n++
		}
	}
	ts = ts[:n]
	return internLin(k, ts)
}

func internLin(k I, ts []Term) *Lin {
	if len(pinAtom) > 0 {
		for i := range ts {
			if _, ok := pinAtom[ts[i].a]; ok {
				var t2 []Term
				for _, t := range ts {
					if v, ok := pinAtom[t.a]; ok {
						k = addI(k, mulI(t.c, v))
					} else {
						t2 = append(t2, t)
					}
				}
				ts = t2
				break
			}
		}
	}
	buf := make([]byte, 0, 16+12*len(ts))
	buf = k.Append(buf, 36)
	for _, t := range ts {
		buf = append(buf, ';')
		buf = fmt.Appendf(buf, "%d:", t.a.id)
		buf = t.c.Append(buf, 36)
	}
	if l := linTab[string(buf)]; l != nil {
		return l
	}
	linN++
	l := &Lin{id: linN, k: k, ts: ts}
	for _, t := range ts {
		l.bl.or(&t.a.bl)
		l.height = max(l.height, t.a.height)
	}
	linTab[string(buf)] = l
	return l
}

func linC(n I) *Lin       { return internLin(n, nil) }
func linN64(n int64) *Lin { return internLin(bi(n), nil) }
func linA(a *Atom) *Lin   { return internLin(b0, []Term{{a, b1}}) }

func (l *Lin) isConst() bool { return len(l.ts) == 0 }

func linAdd(a, b *Lin) *Lin {
	if a.isConst() && a.k.Sign() == 0 {
		return b
	}
	if b.isConst() && b.k.Sign() == 0 {
		return a
	}
	ts := make([]Term, 0, len(a.ts)+len(b.ts))
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || i < len(a.ts) && a.ts[i].a.id < b.ts[j].a.id:
			ts = append(ts, a.ts[i])
			i++
		case i >= len(a.ts) || b.ts[j].a.id < a.ts[i].a.id:
			ts = append(ts, b.ts[j])
			j++
		default:
			c := addI(a.ts[i].c, b.ts[j].c)
			if c.Sign() != 0 {
				ts = append(ts, Term{a.ts[i].a, c})
			}
			i++
			j++
		}
	}
	return internLin(addI(a.k, b.k), ts)
}

func linScale(a *Lin, c I) *Lin {
	if c.Sign() == 0 {
		return linC(b0)
	}
	if c.Cmp(b1) == 0 {
		return a
	}
	ts := make([]Term, len(a.ts))
	for i, t := range a.ts {
		ts[i] = Term{t.a, mulI(t.c, c)}
	}
	return internLin(mulI(a.k, c), ts)
}
func linNeg(a *Lin) *Lin       { return linScale(a, bi(-1)) }
func linSub(a, b *Lin) *Lin    { return linAdd(a, linNeg(b)) }
func linAddI(a *Lin, k I) *Lin { return internLin(addI(a.k, k), a.ts) }

// rng returns the range of l; nil bounds are infinite.
func (l *Lin) rng() (lo, hi I) {
	if l.rdone {
		return l.rl, l.rh
	}
	l.rl, l.rh = rngRel(l)
	l.rdone = true
	return l.rl, l.rh
}

// rngRel: interval arithmetic plus the remainder facts of div atoms:
// 0 <= r - c*div(r,c) <= c-1.
func rngRel(l *Lin) (lo, hi I) {
	lo, hi = rngPlain(l)
	for _, t := range l.ts {
		if t.a.op != "div" {
			continue
		}
		r, c := t.a.args[0].(*Lin), t.a.args[1].(I)
		try := func(r *Lin, c I) {
			// t.c*d + l' where l' contains -(t.c/c)*r
			if fmod(t.c, c).Sign() != 0 {
				return
			}
			m := negI(fdiv(t.c, c)) // l = m*(r - c*d) + rest
			for _, u := range r.ts {
				found := false
				for _, v := range l.ts {
					if v.a == u.a && v.c.Sign() == mulI(m, u.c).Sign() && v.c.CmpAbs(mulI(m, u.c)) >= 0 {
						found = true
					}
				}
				if !found {
					return
				}
			}
			rest := linSub(l, linScale(linSub(r, linScale(linA(t.a), c)), m))
			if len(rest.ts) >= len(l.ts) {
				return
			}
			rl, rh := rest.rng()
			a, b := b0, mulI(m, subI(c, b1))
			if m.Sign() < 0 {
				a, b = b, a
			}
			if rl != nil && (lo == nil || addI(rl, a).Cmp(lo) > 0) {
				lo = addI(rl, a)
			}
			if rh != nil && (hi == nil || addI(rh, b).Cmp(hi) < 0) {
				hi = addI(rh, b)
			}
		}
		try(r, c)
		for _, v := range l.ts {
			if v.a.op == "div" && v.a != t.a && v.a.args[0].(*Lin) == r {
				c2 := v.a.args[1].(I)
				if fmod(c, c2).Sign() == 0 {
					try(linA(v.a), fdiv(c, c2))
				}
			}
		}
	}
	return
}

func rngPlain(l *Lin) (lo, hi I) {
	lo, hi = l.k, l.k
	for _, t := range l.ts {
		alo, ahi := t.a.lo, t.a.hi
		if t.c.Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil {
			if alo == nil {
				lo = nil
			} else {
				lo = addI(lo, mulI(t.c, alo))
			}
		}
		if hi != nil {
			if ahi == nil {
				hi = nil
			} else {
				hi = addI(hi, mulI(t.c, ahi))
			}
		}
	}
	return
}

func (l *Lin) nonneg() bool {
	lo, _ := l.rng()
	return lo != nil && lo.Sign() >= 0
}

func (l *Lin) single() *Atom { // lin is exactly one atom
	if len(l.ts) == 1 && l.k.Sign() == 0 && l.ts[0].c.Cmp(b1) == 0 {
		return l.ts[0].a
	}
	return nil
}

func isBit(a *Atom) bool {
	return a.lo != nil && a.hi != nil && a.lo.Sign() == 0 && a.hi.Cmp(b1) == 0
}

// ---------------------------------------------------------------- nodes

type NK uint8

const (
	NLeaf NK = iota
	NDec
	NAgg
)

type LK uint8

const (
	LInt LK = iota
	LBool
	LFloat
	LStr   // string value: seq
	LSlice // slice: obj, path, off, len
	LNil   // nil pointer/slice/map/func/chan/interface
	LPtr   // obj + path
	LIface // dyn type + value
	LFunc
	LMap  // obj
	LChan // atom
	LOpq  // opaque non-int atom (pointer identity, interface, func...)
	LErr  // some non-nil error
	LDead // unreachable / don't care for the computation
	LAny  // spec: any value is acceptable
	LSeqV // frozen slice: seq + nilness (str "nil?" flag as kid)
	LRef  // frozen pointer: content
	LMapV // frozen map
	LType
	LPanic
	LTup // tuple of leaves (struct value inside a sequence, map or term)
	LDel // deleted map entry
)

type PathEl struct {
	field int
	idx   *Lin // nil: field
}

type Node struct {
	id     int
	k      NK
	lk     LK
	lin    *Lin
	lin2   *Lin // slice length
	b      bool
	seq    *Seq
	obj    *Obj
	path   []PathEl
	typ    types.Type
	fn     *ssa.Function
	atom   *Atom
	kids   []*Node // dec kids, agg fields, closure bindings, iface value
	subj   *Subj
	cuts   []I
	pts    []*Node
	names  []string
	bl     bloom // atoms
	sbl    bloom // subjects
	nested bool  // leaf that contains decision nodes inside
	height int
	objs   bool // mentions heap objects
	birth  token.Pos
	phase  string
	str    string
}

type Subj struct {
	id    int
	lin   *Lin  // integer subject
	eq    *Node // equality subject (leaf)
	atoms bloom
	pin   bool // lin determines all its (bit) atoms when pinned
}

func subjLin(l *Lin) *Subj {
	k := fmt.Sprintf("L%d", l.id)
	if s := subjTab[k]; s != nil {
		return s
	}
	subjN++
	s := &Subj{id: subjN, lin: l, atoms: l.bl}
	s.pin = pinable(l)
	subjTab[k] = s
	return s
}

func subjEq(n *Node) *Subj {
	k := fmt.Sprintf("E%d", n.id)
	if s := subjTab[k]; s != nil {
		return s
	}
	subjN++
	s := &Subj{id: subjN, eq: n, atoms: n.bl}
	subjTab[k] = s
	return s
}

// pinable: every value of l determines all atoms of l (single atom with
// coefficient 1, or distinct-weight bits with unique decoding).
func pinable(l *Lin) bool {
	if len(l.ts) == 1 {
		return l.ts[0].c.Cmp(b1) == 0
	}
	cs := make([]I, len(l.ts))
	for i, t := range l.ts {
		if !isBit(t.a) || t.c.Sign() <= 0 {
			return false
		}
		cs[i] = t.c
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Cmp(cs[j]) < 0 })
	sum := new(big.Int)
	for _, c := range cs {
		if c.Cmp(sum) <= 0 {
			return false
		}
		sum = addI(sum, c)
	}
	return true
}

func pinned(s *Subj, v I) map[*Atom]any {
	l := s.lin
	if len(l.ts) == 1 {
		return map[*Atom]any{l.ts[0].a: linC(v)}
	}
	ts := append([]Term(nil), l.ts...)
	sort.Slice(ts, func(i, j int) bool { return ts[i].c.Cmp(ts[j].c) > 0 })
	m := map[*Atom]any{}
	r := v
	for _, t := range ts {
		if r.Cmp(t.c) >= 0 {
			m[t.a] = linC(b1)
			r = subI(r, t.c)
		} else {
			m[t.a] = linC(b0)
		}
	}
	if r.Sign() != 0 {
		return nil // impossible value
	}
	return m
}

func (n *Node) init2() *Node {
	n.birth, n.phase = curPos, curPhase
	return n
}

func intern(key string, n *Node) *Node {
	if o := nodeTab[key]; o != nil {
		return o
	}
	nodeN++
	n.id = nodeN
	n.init2()
	acc := func(bl *bloom, h int) { n.bl.or(bl); n.height = max(n.height, h) }
	if n.lin != nil {
		acc(&n.lin.bl, n.lin.height)
	}
	if n.lin2 != nil {
		acc(&n.lin2.bl, n.lin2.height)
	}
	if n.seq != nil {
		acc(&n.seq.bl, n.seq.height)
		n.sbl.or(&n.seq.sbl)
		n.nested = n.nested || n.seq.nested
		n.objs = n.objs || n.seq.objs
	}
	if n.atom != nil {
		acc(&n.atom.bl, n.atom.height)
	}
	for _, p := range n.path {
		if p.idx != nil {
			acc(&p.idx.bl, p.idx.height)
		}
	}
	if n.obj != nil {
		n.objs = true
	}
	if n.subj != nil {
		acc(&n.subj.atoms, 0)
		if n.subj.lin != nil {
			n.height = max(n.height, n.subj.lin.height)
		} else {
			n.height = max(n.height, n.subj.eq.height)
		}
		n.sbl.add(n.subj.id)
	}
	for _, k := range append(append([]*Node(nil), n.kids...), n.pts...) {
		acc(&k.bl, k.height)
		n.sbl.or(&k.sbl)
		n.objs = n.objs || k.objs
		if n.k == NLeaf && (k.k == NDec || k.nested) || n.k != NLeaf && k.nested || n.k == NAgg && k.k == NDec {
			n.nested = true
		}
	}
	nodeTab[key] = n
	return n
}

func mkInt(l *Lin) *Node { return intern(fmt.Sprintf("i%d", l.id), &Node{k: NLeaf, lk: LInt, lin: l}) }
func mkI(v int64) *Node  { return mkInt(linN64(v)) }
func mkBool(b bool) *Node {
	if b {
		return nTrue
	}
	return nFalse
}
func mkStr(s *Seq) *Node { return intern(fmt.Sprintf("s%d", s.id), &Node{k: NLeaf, lk: LStr, seq: s}) }
func mkOpq(a *Atom, t types.Type) *Node {
	return intern(fmt.Sprintf("o%d", a.id), &Node{k: NLeaf, lk: LOpq, atom: a, typ: t})
}
func mkFloat(a *Atom) *Node {
	return intern(fmt.Sprintf("f%d", a.id), &Node{k: NLeaf, lk: LFloat, atom: a})
}
func mkFloatC(s string) *Node { return mkFloat(mkAtom("fconst", nil, nil, s)) }
func mkDel() *Node            { return mkSimple(LDel) }
func mkSimple(lk LK) *Node {
	return intern(fmt.Sprintf("k%d", lk), &Node{k: NLeaf, lk: lk})
}

var (
	nTrue, nFalse, nNil, nErr, nDead, nAny *Node
)

func pathKey(p []PathEl) string {
	var sb strings.Builder
	for _, e := range p {
		if e.idx != nil {
			fmt.Fprintf(&sb, "[%d]", e.idx.id)
		} else {
			fmt.Fprintf(&sb, ".%d", e.field)
		}
	}
	return sb.String()
}

func mkPtr(o *Obj, path []PathEl) *Node {
	return intern(fmt.Sprintf("p%d%s", o.id, pathKey(path)), &Node{k: NLeaf, lk: LPtr, obj: o, path: path})
}
func mkSlice(o *Obj, path []PathEl, off, n *Lin) *Node {
	return intern(fmt.Sprintf("S%d%s:%d,%d", o.id, pathKey(path), off.id, n.id),
		&Node{k: NLeaf, lk: LSlice, obj: o, path: path, lin: off, lin2: n})
}
func mkMapP(o *Obj) *Node { return intern(fmt.Sprintf("m%d", o.id), &Node{k: NLeaf, lk: LMap, obj: o}) }
func mkIface(t types.Type, v *Node) *Node {
	return intern(fmt.Sprintf("I%s|%d", typeKey(t), v.id), &Node{k: NLeaf, lk: LIface, typ: t, kids: []*Node{v}})
}
func mkFunc(f *ssa.Function, binds []*Node) *Node {
	return intern(fmt.Sprintf("F%p%s", f, idsKey(binds)), &Node{k: NLeaf, lk: LFunc, fn: f, kids: binds})
}
func mkSeqV(s *Seq, isnil bool) *Node {
	return intern(fmt.Sprintf("V%d,%v", s.id, isnil), &Node{k: NLeaf, lk: LSeqV, seq: s, b: isnil})
}
func mkRef(c *Node) *Node {
	return intern(fmt.Sprintf("R%d", c.id), &Node{k: NLeaf, lk: LRef, kids: []*Node{c}})
}
func mkTup(names []string, ks []*Node) *Node {
	return intern("U"+strings.Join(names, ",")+idsKey(ks), &Node{k: NLeaf, lk: LTup, names: names, kids: ks})
}
func mkTypeLeaf(t types.Type) *Node {
	return intern("T"+typeKey(t), &Node{k: NLeaf, lk: LType, typ: t})
}
func mkPanic() *Node { return mkSimple(LPanic) }

// mkMapV: base atom (may be nil) plus chronological stores k,v,k,v...
func mkMapV(base *Atom, stores []*Node) *Node {
	b := 0
	if base != nil {
		b = base.id
	}
	return intern(fmt.Sprintf("W%d%s", b, idsKey(stores)), &Node{k: NLeaf, lk: LMapV, atom: base, kids: stores})
}

func mkAgg(names []string, fields []*Node) *Node {
	for _, f := range fields {
		if f.k == NLeaf && f.lk == LAny && len(fields) > 0 {
			all := true
			for _, g := range fields {
				if g != f {
					all = false
				}
			}
			if all {
				return nAny
			}
		}
	}
	return intern("G"+strings.Join(names, ",")+idsKey(fields), &Node{k: NAgg, names: names, kids: fields})
}

func idsKey(ns []*Node) string {
	buf := make([]byte, 0, 8*len(ns))
	for _, n := range ns {
		buf = fmt.Appendf(buf, ",%d", n.id)
	}
	return string(buf)
}

var typeIDs = map[string]string{}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// The case being analysed: pinned atoms and assumed intervals of subjects.
var (
	pinAtom = map[*Atom]I{}
	assumed = map[*Subj]cons{}
)

// assume restricts everything created from now on to the path.
func assume(path []cons) {
	for _, c := range path {
		if c.s.lin == nil {
			if o, ok := assumed[c.s]; ok {
				if o.pt != nil {
					continue
				}
				c.ne = append(append([]*Node(nil), o.ne...), c.ne...)
			}
			assumed[c.s] = c
			continue
		}
		if len(c.s.lin.ts) == 1 && c.s.lin.ts[0].c.Cmp(b1) == 0 {
			a := c.s.lin.ts[0].a
			if c.lo != nil && (a.lo == nil || a.lo.Cmp(c.lo) < 0) {
				a.lo = c.lo
			}
			if c.hi != nil && (a.hi == nil || a.hi.Cmp(c.hi) >= 0) {
				a.hi = subI(c.hi, b1)
			}
			if a.lo != nil && a.hi != nil && a.lo.Cmp(a.hi) == 0 {
				pinAtom[a] = a.lo
			}
			continue
		}
		cl := &cell{s: c.s, lo: c.lo, hi: c.hi}
		for a, v := range cl.pins() {
			pinAtom[a] = v.(*Lin).k
		}
		o, ok := assumed[c.s]
		if ok {
			if o.lo != nil && (c.lo == nil || o.lo.Cmp(c.lo) > 0) {
				c.lo = o.lo
			}
			if o.hi != nil && (c.hi == nil || o.hi.Cmp(c.hi) < 0) {
				c.hi = o.hi
			}
		}
		assumed[c.s] = c
	}
	for _, l := range linTab {
		l.rdone = false
	}
	cofMemo, iteMemo = map[cofKey]*Node{}, map[[3]int]*Node{}
	loopTab, atomHasMemo, finMemo = map[string][]*Loop{}, map[atomPair]bool{}, map[string]*Node{}
}

// resetTerms forgets all terms; ids keep growing.
func resetTerms() {
	atomTab, linTab, nodeTab = map[string]*Atom{}, map[string]*Lin{}, map[string]*Node{}
	subjTab, seqTab = map[string]*Subj{}, map[string]*Seq{}
	cofMemo, iteMemo = map[cofKey]*Node{}, map[[3]int]*Node{}
	loopTab, atomHasMemo, finMemo = map[string][]*Loop{}, map[atomPair]bool{}, map[string]*Node{}
	thawed, opqObjs, rangeObjs = map[string]*Obj{}, map[string]*Obj{}, map[*ssa.Range]*Obj{}
	tabKAtom = nil
	errIdent = false
	pinAtom, assumed = map[*Atom]I{}, map[*Subj]cons{}
	initTerms()
}

func initTerms() {
	nTrue = intern("T", &Node{k: NLeaf, lk: LBool, b: true})
	nFalse = intern("F", &Node{k: NLeaf, lk: LBool, b: false})
	nNil = mkSimple(LNil)
	nErr = mkSimple(LErr)
	nDead = mkSimple(LDead)
	nAny = mkSimple(LAny)
}

func (n *Node) leaf(lk LK) bool { return n.k == NLeaf && n.lk == lk }

// ---------------------------------------------------------------- decisions

// mkDec builds a decision on s. cuts (int) or pts (eq) delimit the cells.
// kids must already be restricted to their cell.
func mkDecInt(s *Subj, cuts []I, kids []*Node) *Node {
	// merge equal neighbours
	var c2 []I
	var k2 []*Node
	for i, k := range kids {
		if i > 0 && k2[len(k2)-1] == k {
			continue
		}
		if i > 0 {
			c2 = append(c2, cuts[i-1])
		}
		k2 = append(k2, k)
	}
	cuts, kids = c2, k2
	if len(kids) == 1 {
		return kids[0]
	}
	// Dead cells take the neighbour's value? keep explicit (canonical).
	// collapse pinned points into their neighbour when substitution agrees
	if s.pin {
		lo, hi := s.lin.rng()
		for i := 0; i < len(kids); i++ {
			var l, h I // cell [l,h)
			if i > 0 {
				l = cuts[i-1]
			} else {
				l = lo
			}
			if i < len(cuts) {
				h = cuts[i]
			} else if hi != nil {
				h = addI(hi, b1)
			}
			if l == nil || h == nil || addI(l, b1).Cmp(h) != 0 {
				continue
			}
			pm := pinned(s, l)
			if pm == nil {
				continue
			}
			for _, j := range []int{i + 1, i - 1} {
				if j < 0 || j >= len(kids) {
					continue
				}
				// other may itself be a pinned point: substitution already
				// removed the atoms there; generalise for bits below.
				if substNode(kids[j], pm) == kids[i] && mentions(kids[j], s) {
					nc := append([]I(nil), cuts...)
					nk := append([]*Node(nil), kids...)
					if j > i {
						nc = append(nc[:i:i], nc[i+1:]...)
						nk = append(nk[:i:i], nk[i+1:]...)
					} else {
						nc = append(nc[:i-1:i-1], nc[i:]...)
						nk = append(nk[:i:i], nk[i+1:]...)
					}
					return mkDecInt(s, nc, nk)
				}
			}
		}
		if len(kids) == 2 && len(s.lin.ts) == 1 && isBit(s.lin.ts[0].a) {
			if z := zipBit(kids[0], kids[1], s.lin.ts[0].a, map[[2]int]*Node{}); z != nil {
				return z
			}
		}
	}
	return rawDec(s, cuts, nil, kids)
}

func mentions(n *Node, s *Subj) bool {
	for _, t := range s.lin.ts {
		if n.bl.has(t.a.id) {
			return true
		}
	}
	return false
}

func mkDecEq(s *Subj, pts []*Node, kids []*Node) *Node {
	def := kids[len(kids)-1]
	var p2, k2 []*Node
	for i, p := range pts {
		if kids[i] != def {
			p2 = append(p2, p)
			k2 = append(k2, kids[i])
		}
	}
	if len(p2) == 0 {
		return def
	}
	k2 = append(k2, def)
	return rawDec(s, nil, p2, k2)
}

func rawDec(s *Subj, cuts []I, pts []*Node, kids []*Node) *Node {
	if a, ok := assumed[s]; ok {
		if s.lin == nil {
			if a.pt != nil {
				for i, p := range pts {
					if p == a.pt {
						return kids[i]
					}
				}
				return kids[len(kids)-1]
			}
			var p2, k2 []*Node
			for i, p := range pts {
				excl := false
				for _, q := range a.ne {
					excl = excl || p == q
				}
				if !excl {
					p2, k2 = append(p2, p), append(k2, kids[i])
				}
			}
			if len(p2) == 0 {
				return kids[len(kids)-1]
			}
			pts, kids = p2, append(k2, kids[len(kids)-1])
		}
	}
	if a, ok := assumed[s]; ok && s.lin != nil {
		i := 0
		for i < len(cuts) && a.lo != nil && cuts[i].Cmp(a.lo) <= 0 {
			i++
		}
		j := i
		for j < len(cuts) && (a.hi == nil || cuts[j].Cmp(a.hi) < 0) {
			j++
		}
		cuts, kids = cuts[i:j], kids[i:j+1]
		if len(kids) == 1 {
			return kids[0]
		}
	}
	bad := false
	for _, k := range kids {
		if k.k == NAgg {
			panic("agg under decision")
		}
		if k.k == NDec && k.subj.id <= s.id {
			bad = true
		}
	}
	if bad {
		return composeDec(s, cuts, pts, kids)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "D%d", s.id)
	for _, c := range cuts {
		fmt.Fprintf(&sb, "<%s", c)
	}
	for _, p := range pts {
		fmt.Fprintf(&sb, "=%d", p.id)
	}
	sb.WriteString(idsKey(kids))
	return intern(sb.String(), &Node{k: NDec, subj: s, cuts: cuts, pts: pts, kids: kids})
}

func composeDec(s *Subj, cuts []I, pts []*Node, kids []*Node) *Node {
	r := kids[len(kids)-1]
	for i := len(kids) - 2; i >= 0; i-- {
		var c *Node
		if s.lin != nil {
			c = rawDec(s, []I{cuts[i]}, nil, []*Node{nTrue, nFalse})
		} else {
			c = rawDec(s, nil, []*Node{pts[i]}, []*Node{nTrue, nFalse})
		}
		r = ite(c, kids[i], r)
	}
	return r
}

// zipBit merges the two cofactors of bit a into one node without a decision
// if they only differ in integer constants.
func zipBit(x, y *Node, a *Atom, memo map[[2]int]*Node) *Node {
	if x == y {
		return x
	}
	k := [2]int{x.id, y.id}
	if r, ok := memo[k]; ok {
		return r
	}
	memo[k] = nil
	var r *Node
	switch {
	case x.k == NLeaf && y.k == NLeaf && x.lk == LInt && y.lk == LInt:
		if l := zipLin(x.lin, y.lin, a); l != nil {
			r = mkInt(l)
		}
	case x.k == NLeaf && y.k == NLeaf && x.lk == y.lk && x.lk == LStr:
		if s := zipSeq(x.seq, y.seq, a); s != nil {
			r = mkStr(s)
		}
	case x.k == NLeaf && y.k == NLeaf && x.lk == y.lk && x.lk == LSeqV && x.b == y.b:
		if s := zipSeq(x.seq, y.seq, a); s != nil {
			r = mkSeqV(s, x.b)
		}
	case x.k == NDec && y.k == NDec && x.subj == y.subj && len(x.kids) == len(y.kids):
		for i := range x.cuts {
			if x.cuts[i].Cmp(y.cuts[i]) != 0 {
				return nil
			}
		}
		for i := range x.pts {
			if x.pts[i] != y.pts[i] {
				return nil
			}
		}
		kids := make([]*Node, len(x.kids))
		for i := range kids {
			kids[i] = zipBit(x.kids[i], y.kids[i], a, memo)
			if kids[i] == nil {
				return nil
			}
		}
		r = rawDec(x.subj, x.cuts, x.pts, kids)
	}
	memo[k] = r
	return r
}

func zipLin(x, y *Lin, a *Atom) *Lin {
	d := linSub(y, x)
	if !d.isConst() {
		return nil
	}
	return linAdd(x, linScale(linA(a), d.k))
}

func zipSeq(x, y *Seq, a *Atom) *Seq {
	if x.kind != y.kind || len(x.ps) != len(y.ps) {
		return nil
	}
	ps := make([]Piece, len(x.ps))
	for i := range ps {
		p, q := x.ps[i], y.ps[i]
		if p.k == q.k && p.key() == q.key() {
			ps[i] = p
			continue
		}
		if p.k == PDec && q.k == PDec && p.w == q.w {
			if l := zipLin(p.lin, q.lin, a); l != nil {
				ps[i] = Piece{k: PDec, lin: l, w: p.w}
				continue
			}
		}
		if p.k == PElems && q.k == PElems && len(p.els) == len(q.els) {
			els := make([]*Node, len(p.els))
			for j := range els {
				els[j] = zipBit(p.els[j], q.els[j], a, map[[2]int]*Node{})
				if els[j] == nil {
					return nil
				}
			}
			ps[i] = Piece{k: PElems, els: els}
			continue
		}
		return nil
	}
	return mkSeq(x.kind, ps)
}

// cell describes one cell of a subject.
type cell struct {
	s      *Subj
	lo, hi I // int: [lo,hi) nil = open
	pt     *Node
	def    bool // eq: default cell
	excl   []*Node
}

func (c *cell) pins() map[*Atom]any {
	if c.s.lin == nil {
		if c.pt != nil && c.s.eq.lk == LOpq {
			return nil
		}
		return nil
	}
	if !c.s.pin {
		return nil
	}
	lo, hi := c.lo, c.hi
	rlo, rhi := c.s.lin.rng()
	if rlo != nil && (lo == nil || lo.Cmp(rlo) < 0) {
		lo = rlo
	}
	if rhi != nil && (hi == nil || hi.Cmp(rhi) > 0) {
		hi = addI(rhi, b1)
	}
	if lo != nil && hi != nil && addI(lo, b1).Cmp(hi) == 0 {
		return pinned(c.s, lo)
	}
	return nil
}

type cofKey struct {
	n  int
	ck string
}

func (c *cell) key() string {
	if c.s.lin != nil {
		return fmt.Sprintf("%d[%v,%v", c.s.id, c.lo, c.hi)
	}
	if c.pt != nil {
		return fmt.Sprintf("%d=%d", c.s.id, c.pt.id)
	}
	return fmt.Sprintf("%d!%s", c.s.id, idsKey(c.excl))
}

var cofMemo = map[cofKey]*Node{}

// cofactor restricts n to the cell.
func cofactor(n *Node, c *cell, pins map[*Atom]any) *Node {
	if n.k == NDec && n.subj == c.s {
		n = pickCell(n, c)
		if n.k == NDec && n.subj == c.s { // cell spans several: only for eq default / refined cuts
			return n
		}
	}
	need := n.sbl.has(c.s.id)
	if !need && pins != nil {
		for a := range pins {
			if n.bl.has(a.id) {
				need = true
				break
			}
		}
	}
	if !need {
		return n
	}
	k := cofKey{n.id, c.key()}
	if r := cofMemo[k]; r != nil {
		return r
	}
	var r *Node
	sub := &substT{m: pins, cell: c, memo: map[int]*Node{}}
	r = sub.node(n)
	cofMemo[k] = r
	return r
}

// cofAgg is cofactor for values that may be aggregates.
func cofAgg(n *Node, c *cell, pins map[*Atom]any) *Node {
	if n.k != NAgg {
		return cofactor(n, c, pins)
	}
	fs := make([]*Node, len(n.kids))
	same := true
	for i, k := range n.kids {
		fs[i] = cofAgg(k, c, pins)
		same = same && fs[i] == k
	}
	if same {
		return n
	}
	return mkAgg(n.names, fs)
}

// pickCell returns the kid of n (a decision on c.s) valid throughout cell c.
func pickCell(n *Node, c *cell) *Node {
	if c.s.lin != nil {
		i := 0
		for i < len(n.cuts) && c.lo != nil && n.cuts[i].Cmp(c.lo) <= 0 {
			i++
		}
		j := i
		for j < len(n.cuts) && (c.hi == nil || n.cuts[j].Cmp(c.hi) < 0) {
			j++
		}
		if i == j {
			return n.kids[i]
		}
		// spans cells: rebuild the restricted decision
		return mkDecInt(n.subj, n.cuts[i:j], n.kids[i:j+1])
	}
	if c.pt != nil {
		for i, p := range n.pts {
			if p == c.pt {
				return n.kids[i]
			}
		}
		return n.kids[len(n.kids)-1]
	}
	var pts, kids []*Node
outer:
	for i, p := range n.pts {
		for _, e := range c.excl {
			if e == p {
				continue outer
			}
		}
		pts = append(pts, p)
		kids = append(kids, n.kids[i])
	}
	kids = append(kids, n.kids[len(n.kids)-1])
	return mkDecEq(n.subj, pts, kids)
}

// cellsOf computes the common refinement of the arguments' partitions of s.
func cellsOf(s *Subj, args []*Node) []*cell {
	if s.lin != nil {
		var cuts []I
		for _, a := range args {
			if a.k == NDec && a.subj == s {
				cuts = append(cuts, a.cuts...)
			}
		}
		sort.Slice(cuts, func(i, j int) bool { return cuts[i].Cmp(cuts[j]) < 0 })
		var cs []*cell
		var lo I
		for _, c := range cuts {
			if lo != nil && lo.Cmp(c) == 0 {
				continue
			}
			cs = append(cs, &cell{s: s, lo: lo, hi: c})
			lo = c
		}
		return append(cs, &cell{s: s, lo: lo})
	}
	seen := map[*Node]bool{}
	var pts []*Node
	for _, a := range args {
		if a.k == NDec && a.subj == s {
			for _, p := range a.pts {
				if !seen[p] {
					seen[p] = true
					pts = append(pts, p)
				}
			}
		}
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i].id < pts[j].id })
	var cs []*cell
	for _, p := range pts {
		cs = append(cs, &cell{s: s, pt: p})
	}
	return append(cs, &cell{s: s, def: true, excl: pts})
}

func fromCells(s *Subj, cs []*cell, kids []*Node) *Node {
	if s.lin != nil {
		var cuts []I
		for _, c := range cs[1:] {
			cuts = append(cuts, c.lo)
		}
		return mkDecInt(s, cuts, kids)
	}
	var pts []*Node
	for _, c := range cs[:len(cs)-1] {
		pts = append(pts, c.pt)
	}
	return mkDecEq(s, pts, kids)
}

// apply lifts f, defined on leaves, to decision diagrams.
func apply(f func([]*Node) *Node, args ...*Node) *Node {
	memo := map[string]*Node{}
	var rec func(args []*Node) *Node
	rec = func(args []*Node) *Node {
		var top *Subj
		for _, a := range args {
			if a.k == NDec && (top == nil || a.subj.id < top.id) {
				top = a.subj
			}
		}
		if top == nil {
			for _, a := range args {
				if a.leaf(LDead) || a.leaf(LAny) || a.leaf(LPanic) {
					return a
				}
			}
			return f(args)
		}
		key := idsKey(args)
		if r := memo[key]; r != nil {
			return r
		}
		cs := cellsOf(top, args)
		kids := make([]*Node, len(cs))
		for i, c := range cs {
			pins := c.pins()
			as := make([]*Node, len(args))
			for j, a := range args {
				as[j] = cofactor(a, c, pins)
			}
			kids[i] = cofAgg(rec(as), c, pins)
		}
		r := combine(top, cs, kids)
		memo[key] = r
		return r
	}
	return rec(args)
}

func hasAgg(kids []*Node) *Node {
	for _, k := range kids {
		if k.k == NAgg {
			return k
		}
	}
	return nil
}

func combine(top *Subj, cs []*cell, kids []*Node) *Node {
	if g := hasAgg(kids); g != nil {
		fs := make([]*Node, len(g.kids))
		for i := range g.kids {
			ks := make([]*Node, len(kids))
			for j, k := range kids {
				ks[j] = aggField(k, i, len(g.kids))
			}
			fs[i] = combine(top, cs, ks)
		}
		return mkAgg(g.names, fs)
	}
	return fromCells(top, cs, kids)
}

func aggField(k *Node, i, n int) *Node {
	if k.k == NAgg {
		if len(k.kids) != n {
			panic("aggregate shape mismatch")
		}
		return k.kids[i]
	}
	if k.k == NDec { // decision over Dead/Any leaves
		return k
	}
	return k // Dead / Any / Panic / opaque
}

var iteMemo = map[[3]int]*Node{}

func ite(c, a, b *Node) *Node {
	switch {
	case c == nTrue:
		return a
	case c == nFalse:
		return b
	case a == b:
		return a
	case a == nTrue && b == nFalse:
		return c
	}
	key := [3]int{c.id, a.id, b.id}
	if r := iteMemo[key]; r != nil {
		return r
	}
	var r *Node
	if g := hasAgg([]*Node{a, b}); g != nil {
		fs := make([]*Node, len(g.kids))
		for i := range fs {
			fs[i] = ite(c, aggField(a, i, len(fs)), aggField(b, i, len(fs)))
		}
		r = mkAgg(g.names, fs)
	} else {
		args := []*Node{c, a, b}
		var top *Subj
		for _, x := range args {
			if x.k == NDec && (top == nil || x.subj.id < top.id) {
				top = x.subj
			}
		}
		if c.k == NLeaf {
			r = c // Dead/Any/Panic condition
		} else {
			cs := cellsOf(top, args)
			kids := make([]*Node, len(cs))
			for i, cl := range cs {
				pins := cl.pins()
				kids[i] = ite(cofactor(c, cl, pins), cofactor(a, cl, pins), cofactor(b, cl, pins))
			}
			r = combine(top, cs, kids)
		}
	}
	iteMemo[key] = r
	return r
}

func and(a, b *Node) *Node { return ite(a, b, nFalse) }
func or(a, b *Node) *Node  { return ite(a, nTrue, b) }
func not(a *Node) *Node    { return ite(a, nFalse, nTrue) }

// ---------------------------------------------------------------- comparisons

// ltConst returns the boolean l < 0 as a decision.
func ltZero(l *Lin) *Node {
	lo, hi := l.rng()
	if hi != nil && hi.Sign() < 0 {
		return nTrue
	}
	if lo != nil && lo.Sign() >= 0 {
		return nFalse
	}
	// l = k + sum; sum < -k
	s, c, flip := normSubj(l)
	r := rawDec(subjLin(s), []I{c}, nil, []*Node{nTrue, nFalse})
	if flip {
		r = not(r)
	}
	return r
}

// normSubj rewrites (l < 0) as (s < c) or, with flip, as !(s < c).
func normSubj(l *Lin) (s *Lin, c I, flip bool) {
	g := new(big.Int)
	for _, t := range l.ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	ts := make([]Term, len(l.ts))
	// sign: positive leading (the largest |coef|, then lowest id)
	lead := 0
	for i, t := range l.ts {
		if t.c.CmpAbs(l.ts[lead].c) > 0 {
			lead = i
		}
	}
	neg := l.ts[lead].c.Sign() < 0
	for i, t := range l.ts {
		q := new(big.Int).Quo(t.c, g)
		if neg {
			q = negI(q)
		}
		ts[i] = Term{t.a, q}
	}
	if !neg {
		// g*s < -k  <=>  s < ceil(-k/g)
		c = cdiv(negI(l.k), g)
	} else {
		// -g*s < -k <=> s > k/g <=> !(s < floor(k/g)+1)
		c = addI(fdiv(l.k, g), b1)
		flip = true
	}
	s = internLin(b0, ts)
	// reduce to a single bit when only its weight matters
	if len(ts) > 1 {
		ord := append([]Term(nil), ts...)
		sort.SliceStable(ord, func(i, j int) bool { return ord[i].c.CmpAbs(ord[j].c) > 0 })
		top := ord[0]
		if isBit(top.a) && top.c.Sign() > 0 {
			lo, hi := b0, b0
			ok := true
			for _, t := range ord[1:] {
				l1, h1 := linScale(linA(t.a), t.c).rng()
				if l1 == nil || h1 == nil {
					ok = false
					break
				}
				lo, hi = addI(lo, l1), addI(hi, h1)
			}
			// rest in [lo,hi]; bit=0: s<c iff rest<c ; bit=1: rest < c-w
			if ok && hi.Cmp(c) < 0 && lo.Cmp(subI(c, top.c)) >= 0 {
				return internLin(b0, []Term{{top.a, b1}}), b1, flip
			}
		}
	}
	return
}

func ltL(a, b *Lin) *Node { return ltZero(linSub(a, b)) }
func eqL(a, b *Lin) *Node {
	d := linSub(a, b)
	if d.isConst() {
		return mkBool(d.k.Sign() == 0)
	}
	lo, hi := d.rng()
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return nFalse
	}
	// gcd test
	g := new(big.Int)
	for _, t := range d.ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if fmod(d.k, g).Sign() != 0 {
		return nFalse
	}
	return and(not(ltZero(d)), ltZero(linAddI(d, bi(-1))))
}

// eqSubjNode: equality of an opaque leaf with a constant leaf.
func eqPoint(x, pt *Node) *Node {
	return rawDec(subjEq(x), nil, []*Node{pt}, []*Node{nTrue, nFalse})
}
