package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---------------------------------------------------------------- objects

// Obj is an abstract memory object. Content of structs: NAgg; arrays and
// slice backing stores: LSeqV; scalars: the value; maps: LMapV; bytes.Buffer
// and friends: LSeqV of bytes.
type Obj struct {
	id      int
	name    string
	typ     types.Type // type of the content
	init    *Node
	opq     *Atom // opaque identity (input object)
	foreign bool  // belongs to the caller / input: writes are recorded
	fresh   bool
	key     *Node // frozen content it was thawed from
	own     *ownerRef
	once    bool
	from    []*Obj // appended to: may share its memory
}

type ownerRef struct {
	m   *Obj
	key *Node
}

var objN int

func newObj(name string, t types.Type, init *Node) *Obj {
	objN++
	return &Obj{id: objN, name: name, typ: t, init: init}
}

// ---------------------------------------------------------------- typed atoms

func sortOf(t types.Type) byte {
	if t == nil {
		return 'o'
	}
	if bufferType(t) {
		return 's'
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0, u.Info()&types.IsBoolean != 0:
			return 'i'
		case u.Info()&types.IsString != 0:
			return 's'
		case u.Info()&types.IsFloat != 0:
			return 'f'
		}
	case *types.Slice, *types.Array:
		return 's'
	case *types.Map:
		return 'm'
	}
	return 'o'
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// elemType of a string / slice / array type.
func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

func seqKind(t types.Type) byte {
	if bufferType(t) {
		return 'b'
	}
	if e := elemType(t); e != nil && isByteT(e) {
		return 'b'
	}
	return 'g'
}

// mkAtomT makes an atom whose value has Go type t.
func mkAtomT(op string, lo, hi I, t types.Type, args ...any) *Atom {
	if lo == nil && hi == nil && t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			lo, hi = b0, b1
		} else if ok && b.Info()&types.IsInteger != 0 {
			lo, hi = typeRange(t)
		}
	}
	a := mkAtom(op, lo, hi, args...)
	if a.typ == nil {
		a.typ = t
	}
	return a
}

// atomValue: raw value (bools as 0/1 integers, sequences as windows).
func atomValue(a *Atom) *Node {
	switch a.op {
	case "div", "and", "bit", "len", "isnil", "declen", "err", "eq", "mok", "mlen", "kfin":
		return mkInt(linA(a))
	case "seq":
		return mkSeqV(winSeq(a.args[1].(string)[0], a, linC(b0), lenOf(a)), false)
	case "upd":
		return mkSeqV(winSeq(a.args[3].(string)[0], a, linC(b0), lenOf(a)), false)
	}
	switch a.sort() {
	case 'i':
		return mkInt(linA(a))
	case 's':
		k := byte('g')
		if a.typ != nil {
			k = seqKind(a.typ)
		}
		return mkSeqV(winSeq(k, a, linC(b0), lenOf(a)), false)
	case 'f':
		return mkFloat(a)
	case 'm':
		return mkMapV(a, nil)
	}
	return mkOpq(a, a.typ)
}

func (a *Atom) sort() byte {
	switch a.op {
	case "div", "and", "bit", "len", "isnil", "declen", "err", "eq", "mok", "mlen", "kfin":
		return 'i'
	case "seq", "upd":
		return 's'
	}
	if a.typ == nil {
		if a.lo != nil || a.hi != nil {
			return 'i'
		}
		return 'o'
	}
	return sortOf(a.typ)
}

// valueOf: Go-level value of a typed atom.
func valueOf(a *Atom, t types.Type) *Node {
	if t == nil {
		failf("untyped atom %s", a)
	}
	if opaqueStruct(t) {
		return mkOpq(a, t)
	}
	if bufferType(t) {
		return mkSeqV(winSeq('b', a, linC(b0), lenOf(a)), false)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		names := make([]string, u.NumFields())
		fs := make([]*Node, u.NumFields())
		for i := range fs {
			names[i] = u.Field(i).Name()
			fs[i] = valueOf(mkAtomT("fld", nil, nil, u.Field(i).Type(), a, names[i]), u.Field(i).Type())
		}
		return mkAgg(names, fs)
	case *types.Tuple:
		failf("tuple value")
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return intBool(mkInt(linA(a)))
		case u.Info()&types.IsInteger != 0:
			if u.Kind() == types.Uint8 {
				return mkInt(byteLin(a, linC(b0)))
			}
			return mkInt(linA(a))
		case u.Info()&types.IsString != 0:
			return mkStr(winSeq('b', a, linC(b0), lenOf(a)))
		case u.Info()&types.IsFloat != 0:
			return mkFloat(a)
		}
	case *types.Slice:
		o := opaqueSliceObj(a, t)
		return mkSlice(o, nil, linC(b0), lenOf(a))
	case *types.Array:
		return mkSeqV(winSeq(seqKind(t), a, linC(b0), linN64(u.Len())), false)
	case *types.Map:
		return mkMapP(opaqueMapObj(a, t))
	}
	if isErrorType(t) && errIdent {
		return ite(intBool(mkInt(linA(mkAtom("err", b0, b1, mkOpq(a, t))))), mkOpq(mkAtomT("nonnil", nil, nil, t, mkOpq(a, t)), t), nNil)
	}
	if isErrorType(t) {
		return ite(intBool(mkInt(linA(mkAtom("err", b0, b1, mkOpq(a, t))))), nErr, nNil)
	}
	return mkOpq(a, t)
}

// errIdent: errors keep their identity.
var errIdent bool

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

var opqObjs = map[string]*Obj{}

func opaqueSliceObj(a *Atom, t types.Type) *Obj {
	k := fmt.Sprintf("s%d", a.id)
	if o := opqObjs[k]; o != nil {
		return o
	}
	o := newObj("slice of "+a.String(), t, mkSeqV(winSeq(seqKind(t), a, linC(b0), lenOf(a)), false))
	o.opq, o.foreign = a, true
	opqObjs[k] = o
	return o
}

func opaqueMapObj(a *Atom, t types.Type) *Obj {
	k := fmt.Sprintf("m%d", a.id)
	if o := opqObjs[k]; o != nil {
		return o
	}
	o := newObj("map "+a.String(), t, mkMapV(a, nil))
	o.opq, o.foreign = a, true
	opqObjs[k] = o
	return o
}

// opaquePtrObj is the object an opaque pointer points to.
func opaquePtrObj(n *Node, elem types.Type) *Obj {
	k := fmt.Sprintf("p%d", n.id)
	if o := opqObjs[k]; o != nil {
		return o
	}
	o := newObj("*"+n.String(), elem, nil)
	if st, ok := elem.Underlying().(*types.Struct); ok && !bufferType(elem) && !opaqueStruct(elem) {
		names := make([]string, st.NumFields())
		fs := make([]*Node, st.NumFields())
		for i := range fs {
			names[i] = st.Field(i).Name()
			fs[i] = valueOf(mkAtomT("fld", nil, nil, st.Field(i).Type(), n.atom, names[i]), st.Field(i).Type())
		}
		o.init = mkAgg(names, fs)
	} else {
		o.init = valueOf(mkAtomT("fld", nil, nil, elem, n.atom, "*"), elem)
	}
	o.opq, o.foreign = n.atom, true
	opqObjs[k] = o
	return o
}

// byteLin: the byte at off of base, as its bits.
func byteLin(base *Atom, off *Lin) *Lin {
	l := linC(b0)
	for j := 0; j < 8; j++ {
		l = linAdd(l, linScale(linA(mkAtom("bit", b0, b1, base, off, j)), pow2(uint(j))))
	}
	return l
}

func matFor(t types.Type) func(*Atom, *Lin) *Node {
	return func(a *Atom, off *Lin) *Node {
		if t == nil || isByteT(t) {
			return mkInt(byteLin(a, off))
		}
		return valueOfElem(a, off, t)
	}
}

func valueOfElem(a *Atom, off *Lin, t types.Type) *Node {
	return valueOf(mkAtomT("elem", nil, nil, t, a, off), t)
}

// ---- pieces used by substitution

func bitOf(n *Node, off *Lin, j int) *Node {
	if n.leaf(LInt) { // bit of an integer value used as a byte
		if a := n.lin.single(); a != nil {
			return mkInt(linA(mkAtom("bit", b0, b1, a, off, j)))
		}
		return liftLin(divL(n.lin, pow2(uint(j))), func(q *Lin) *Node { return lowBits(q, 1) })
	}
	if n.leaf(LOpq) {
		return mkInt(linA(mkAtom("bit", b0, b1, n.atom, off, j)))
	}
	e := seqIndex(seqOf(n), off, matFor(nil))
	return liftLin(e, func(l *Lin) *Node {
		return liftLin(divL(l, pow2(uint(j))), func(q *Lin) *Node { return lowBits(q, 1) })
	})
}

func seqLen(n *Node) *Lin {
	switch n.lk {
	case LNil:
		return linC(b0)
	case LMapV:
		failf("len of map as seq")
	}
	return seqOf(n).length()
}

// fieldOf extracts field name of a value standing for a base atom.
func fieldOf(n *Node, name string, a *Atom) *Node {
	switch n.lk {
	case LRef:
		return fieldOf(n.kids[0], name, a)
	case LTup:
		if name == "*" {
			return rawOf(n)
		}
		for i, x := range n.names {
			if x == name {
				return rawOf(n.kids[i])
			}
		}
		failf("no field %s in %s", name, n)
	case LOpq, LMapV, LStr, LSeqV:
		b := atomOf(n)
		if b == nil {
			failf("field of %s", n)
		}
		return atomValue(mkAtomT("fld", a.lo, a.hi, a.typ, b, name))
	case LNil:
		return nDead
	case LInt:
		if name == "*" {
			return n
		}
		if b := n.lin.single(); b != nil {
			return atomValue(mkAtomT("fld", a.lo, a.hi, a.typ, b, name))
		}
	case LPtr:
		return atomValue(mkAtomT("fld", a.lo, a.hi, a.typ, mkAtom("objptr", nil, nil, n), name))
	}
	if name == "*" {
		return rawOf(n)
	}
	failf("field %s of %s", name, n)
	return nil
}

// rawOf turns a frozen value into the raw form used inside atoms.
func rawOf(n *Node) *Node {
	if n.k == NLeaf && n.lk == LBool {
		return boolInt(n)
	}
	if n.k == NLeaf && n.lk == LStr {
		return mkSeqV(n.seq, false)
	}
	return n
}

func elemOf(n *Node, i *Lin, a *Atom) *Node {
	if n.leaf(LNil) {
		return nDead
	}
	s := seqOf(n)
	// element atoms are raw: rebuild the element and strip to the raw form
	e := seqIndexRaw(s, i, a.typ)
	return e
}

func seqIndexRaw(s *Seq, i *Lin, t types.Type) *Node {
	return apply(func(x []*Node) *Node { return rawOf(x[0]) },
		seqIndex(s, i, func(b *Atom, off *Lin) *Node {
			if isByteT(t) {
				return mkInt(byteLin(b, off))
			}
			return atomValue(mkAtomT("elem", nil, nil, t, b, off))
		}))
}

func errOf(n *Node) *Node {
	switch n.lk {
	case LErr:
		return mkI(1)
	case LNil:
		return mkI(0)
	}
	return mkInt(linA(mkAtom("err", b0, b1, n)))
}

// ---------------------------------------------------------------- equality

func isNilNode(n *Node) *Node {
	return apply(func(a []*Node) *Node {
		x := a[0]
		switch x.lk {
		case LNil:
			return nTrue
		case LSlice:
			if x.obj.opq != nil && x.path == nil && isZero(x.lin) {
				return intBool(mkInt(linA(mkAtom("isnil", b0, b1, x.obj.opq))))
			}
			return nFalse
		case LSeqV:
			return mkBool(x.b)
		case LMap:
			return nFalse
		case LOpq:
			if x.atom.op == "nonnil" || x.atom.op == "objptr" || x.atom.op == "chan" {
				return nFalse
			}
			return eqPoint(x, nNil)
		}
		return nFalse
	}, n)
}

func eqNode(x, y *Node) *Node {
	if x == y && !hasDead(x) {
		return nTrue
	}
	if x.k == NAgg || y.k == NAgg {
		if x.k != NAgg || y.k != NAgg {
			if x.k == NLeaf && x.lk == LDead || y.k == NLeaf && y.lk == LDead {
				return nDead
			}
			failf("comparison of aggregate with %s", y)
		}
		r := nTrue
		for i := range x.kids {
			r = and(r, eqNode(x.kids[i], y.kids[i]))
		}
		return r
	}
	return apply(func(a []*Node) *Node { return eqLeaf(a[0], a[1]) }, x, y)
}

func hasDead(n *Node) bool { return n.k != NLeaf }

// upperEq: upper(x) == "ABC" says the same as lower(x) == "abc".
func upperEq(x, y *Node) (*Node, *Node) {
	up := func(n *Node) *Node {
		if n.lk != LStr && n.lk != LSeqV || len(n.seq.ps) != 1 || n.seq.ps[0].k != PWin {
			return nil
		}
		a := n.seq.ps[0].base
		if a.op != "app" || len(a.args) != 3 || a.args[0] != any("str:ToUpper") || seqAsAtom(n.seq) != a {
			return nil
		}
		arg, _ := a.args[2].(*Node)
		return arg
	}
	if up(x) == nil {
		x, y = y, x
	}
	arg := up(x)
	if arg == nil || y.lk != LStr {
		return x, y
	}
	lit, ok := y.seq.lit()
	if !ok {
		return x, y
	}
	for _, c := range []byte(lit) {
		if c >= 'a' && c <= 'z' || c >= 0x80 {
			return x, y
		}
	}
	return appNode("str:ToLower", 0, types.Typ[types.String], []*Node{arg}), mkStr(litSeq(strings.ToLower(lit)))
}

func eqLeaf(x, y *Node) *Node {
	if x == y {
		return nTrue
	}
	if x0, y0 := upperEq(x, y); x0 != x && x0 != y {
		return eqNode(x0, y0)
	}
	if x.lk == LNil {
		return isNilNode(y)
	}
	if y.lk == LNil {
		return isNilNode(x)
	}
	switch {
	case x.lk == LInt && y.lk == LInt:
		return eqL(x.lin, y.lin)
	case x.lk == LBool && y.lk == LBool:
		return nFalse
	case x.lk == LStr && y.lk == LStr, x.lk == LSeqV && y.lk == LSeqV:
		return eqSeq(x.seq, y.seq)
	case x.lk == LPtr && y.lk == LPtr:
		if x.obj != y.obj {
			return nFalse
		}
		if len(x.path) == len(y.path) {
			r := nTrue
			for i := range x.path {
				p, q := x.path[i], y.path[i]
				if p.idx != nil && q.idx != nil {
					r = and(r, eqL(p.idx, q.idx))
				} else if p != q {
					return nFalse
				}
			}
			return r
		}
		return nFalse
	case x.lk == LFunc || y.lk == LFunc, x.lk == LType && y.lk == LType:
		return nFalse
	case x.lk == LErr && y.lk == LErr:
		return intBool(mkInt(linA(mkAtom("eq", b0, b1, x, y))))
	case x.lk == LIface && y.lk == LIface:
		if typeKey(x.typ) != typeKey(y.typ) {
			return nFalse
		}
		return eqNode(x.kids[0], y.kids[0])
	case x.lk == LTup && y.lk == LTup && len(x.kids) == len(y.kids):
		r := nTrue
		for i := range x.kids {
			r = and(r, eqNode(x.kids[i], y.kids[i]))
		}
		return r
	}
	if errIdent && (ownError(x) || ownError(y)) {
		return nFalse
	}
	cx, cy := constLeaf(x), constLeaf(y)
	if cx && cy {
		return nFalse
	}
	if cy {
		return eqPoint(x, y)
	}
	if cx {
		return eqPoint(y, x)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return intBool(mkInt(linA(mkAtom("eq", b0, b1, x, y))))
}

// ownError: an error variable of the package under analysis.
func ownError(n *Node) bool {
	if n.lk != LOpq || n.atom.op != "nonnil" {
		return false
	}
	_, ok := n.atom.args[0].(string)
	return ok
}

func constLeaf(n *Node) bool {
	switch n.lk {
	case LNil, LType, LFunc:
		return true
	case LStr, LSeqV:
		_, ok := n.seq.lit()
		return ok
	case LOpq:
		return n.atom.op == "global"
	case LFloat:
		return n.atom.op == "fconst"
	}
	return false
}

func eqSeq(x, y *Seq) *Node {
	// strip common prefix pieces
	px, py := x.ps, y.ps
	for len(px) > 0 && len(py) > 0 && px[0].k == py[0].k && px[0].key() == py[0].key() {
		px, py = px[1:], py[1:]
	}
	for len(px) > 0 && len(py) > 0 && px[len(px)-1].key() == py[len(py)-1].key() && px[len(px)-1].k == py[len(py)-1].k {
		px, py = px[:len(px)-1], py[:len(py)-1]
	}
	x, y = mkSeqRaw(x.kind, px), mkSeqRaw(y.kind, py)
	if x == y {
		return nTrue
	}
	lx, ly := x.length(), y.length()
	le := eqL(lx, ly)
	if le == nFalse {
		return nFalse
	}
	if len(x.ps) == 0 || len(y.ps) == 0 {
		return le
	}
	if lx.isConst() && ly.isConst() && lx.k.Cmp(bi(40)) <= 0 && lx.k.Sign() >= 0 {
		allKnown := func(s *Seq) bool {
			for _, p := range s.ps {
				if p.k == PDec {
					return false
				}
			}
			return true
		}
		if allKnown(x) && allKnown(y) && x.kind == 'b' && (smallSeq(x) || smallSeq(y)) {
			r := nTrue
			for i := int64(0); i < lx.k.Int64(); i++ {
				r = and(r, eqNode(seqIndex(x, linN64(i), matFor(nil)), seqIndex(y, linN64(i), matFor(nil))))
			}
			return r
		}
	}
	nx, ny := mkSeqV(x, false), mkSeqV(y, false)
	if _, ok := y.lit(); ok {
		return eqPoint(nx, ny)
	}
	if _, ok := x.lit(); ok {
		return eqPoint(ny, nx)
	}
	if nx.id > ny.id {
		nx, ny = ny, nx
	}
	return intBool(mkInt(linA(mkAtom("eq", b0, b1, nx, ny))))
}

func smallSeq(s *Seq) bool { _, ok := s.lit(); return ok && len(s.ps) > 0 }

// ---------------------------------------------------------------- leaf tuples

// tupLeaf distributes decisions of an aggregate to the top: the result is a
// decision over LTup leaves.
func tupLeaf(n *Node) *Node {
	if n.k == NAgg {
		ks := make([]*Node, len(n.kids))
		for i, k := range n.kids {
			ks[i] = tupLeaf(k)
		}
		return apply(func(a []*Node) *Node { return mkTup(n.names, append([]*Node(nil), a...)) }, ks...)
	}
	return n
}

// untup is the inverse of tupLeaf for a struct type.
func untup(n *Node, t types.Type) *Node {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || bufferType(t) || opaqueStruct(t) {
		return n
	}
	if n.k == NAgg {
		return n
	}
	names := make([]string, st.NumFields())
	fs := make([]*Node, st.NumFields())
	for i := range fs {
		names[i] = st.Field(i).Name()
		f := apply(func(a []*Node) *Node {
			switch a[0].lk {
			case LTup:
				return a[0].kids[i]
			}
			failf("tuple expected, have %s", a[0])
			return nil
		}, n)
		fs[i] = untup(f, st.Field(i).Type())
	}
	return mkAgg(names, fs)
}

// ---------------------------------------------------------------- maps

// mapGet returns (value, ok) for the map value (LMapV leaf or LNil).
func mapGet(m, key *Node, kt, vt types.Type) (val, ok *Node) {
	val = apply(func(a []*Node) *Node { v, _ := mapGet1(a[0], a[1], vt); return v }, m, key)
	ok = apply(func(a []*Node) *Node { _, o := mapGet1(a[0], a[1], vt); return o }, m, key)
	return
}

func mapGet1(m, key *Node, vt types.Type) (val, ok *Node) {
	zero := tupLeaf(zeroVal(vt))
	if m.lk == LNil {
		return zero, nFalse
	}
	if m.lk != LMapV {
		failf("map expected, have %s", m)
	}
	val, ok = zero, nFalse
	if m.atom != nil {
		okA := mkAtom("mok", b0, b1, m.atom, key)
		ok = intBool(mkInt(linA(okA)))
		val = ite(ok, tupLeaf(frozenOf(mkAtomT("mget", nil, nil, vt, m.atom, key), vt)), zero)
	}
	for i := 0; i+1 < len(m.kids); i += 2 {
		e := eqNode(key, m.kids[i])
		if m.kids[i+1].leaf(LDel) {
			val, ok = ite(e, zero, val), ite(e, nFalse, ok)
			continue
		}
		val, ok = ite(e, m.kids[i+1], val), ite(e, nTrue, ok)
	}
	return
}

// mapHas: whether a key is present (without naming its value).
func mapHas(m, key *Node) *Node {
	if m.lk == LNil {
		return nFalse
	}
	if m.lk != LMapV {
		failf("map expected, have %s", m)
	}
	ok := nFalse
	if m.atom != nil {
		ok = intBool(mkInt(linA(mkAtom("mok", b0, b1, m.atom, key))))
	}
	for i := 0; i+1 < len(m.kids); i += 2 {
		ok = ite(eqNode(key, m.kids[i]), mkBool(!m.kids[i+1].leaf(LDel)), ok)
	}
	return ok
}

// frozenOf: frozen leaf form of an opaque value of type t.
func frozenOf(a *Atom, t types.Type) *Node {
	if opaqueStruct(t) || bufferType(t) {
		return valueOf(a, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		names := make([]string, u.NumFields())
		fs := make([]*Node, u.NumFields())
		for i := range fs {
			names[i] = u.Field(i).Name()
			fs[i] = frozenOf(mkAtomT("fld", nil, nil, u.Field(i).Type(), a, names[i]), u.Field(i).Type())
		}
		return mkAgg(names, fs)
	case *types.Slice:
		return mkSeqV(winSeq(seqKind(t), a, linC(b0), lenOf(a)), false)
	case *types.Map:
		return mkMapV(a, nil)
	}
	return valueOf(a, t)
}

// mapPut appends a store; a store to the same key replaces the former one.
func mapPut(m, key, val *Node) *Node {
	return apply(func(a []*Node) *Node {
		mm := a[0]
		if mm.lk == LNil {
			return nDead
		}
		var ks []*Node
		for i := 0; i+1 < len(mm.kids); i += 2 {
			if mm.kids[i] != a[1] {
				ks = append(ks, mm.kids[i], mm.kids[i+1])
			}
		}
		return mkMapV(mm.atom, append(ks, a[1], a[2]))
	}, m, key, val)
}

func rebuildMap(a *Atom, args []*Node) *Node {
	switch a.op {
	case "mget":
		// guarded by the key's presence wherever it occurs
		v, _ := mapGetPresent(args[0], args[1], a.typ)
		return apply(func(n []*Node) *Node { return rawOf(n[0]) }, v)
	case "mok":
		return apply(func(n []*Node) *Node { return boolInt(mapHas(n[0], n[1])) }, args[0], args[1])
	case "mlen":
		return apply(func(n []*Node) *Node { return mkInt(mapLen(n[0])) }, args[0])
	case "mkeys":
		return apply(func(n []*Node) *Node {
			return atomValue(mkAtomT("mkeys", nil, nil, a.typ, n[0]))
		}, args[0])
	}
	return nil
}

func mapLen(m *Node) *Lin {
	if m.lk == LNil {
		return linC(b0)
	}
	if m.atom == nil && len(m.kids) == 0 {
		return linC(b0)
	}
	return linA(mkAtom("mlen", b0, maxLen, m))
}

// ---------------------------------------------------------------- zero values

func zeroVal(t types.Type) *Node {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return nFalse
		case u.Info()&types.IsInteger != 0:
			return mkI(0)
		case u.Info()&types.IsString != 0:
			return mkStr(litSeq(""))
		case u.Info()&types.IsFloat != 0:
			return mkFloatC("0")
		}
	case *types.Struct:
		if bufferType(t) {
			return mkSeqV(emptySeq('b'), false)
		}
		if opaqueStruct(t) {
			if typeKey(t) == "sync/atomic.Value" {
				return nNil
			}
			return mkOpq(mkAtom("zero", nil, nil, typeKey(t)), t)
		}
		names := make([]string, u.NumFields())
		fs := make([]*Node, u.NumFields())
		for i := range fs {
			names[i] = u.Field(i).Name()
			fs[i] = zeroVal(u.Field(i).Type())
		}
		return mkAgg(names, fs)
	case *types.Array:
		k := seqKind(t)
		return mkSeqV(mkSeq(k, []Piece{{k: PFill, val: tupLeaf(zeroVal(u.Elem())), n: linN64(u.Len())}}), false)
	case *types.Tuple:
		fs := make([]*Node, u.Len())
		names := make([]string, u.Len())
		for i := range fs {
			fs[i] = zeroVal(u.At(i).Type())
			names[i] = fmt.Sprint(i)
		}
		return mkAgg(names, fs)
	}
	return nNil
}

// opaqueStruct: library structs without visible structure.
func opaqueStruct(t types.Type) bool {
	switch typeKey(t) {
	case "time.Time", "sync/atomic.Value", "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup":
		return true
	}
	return false
}

// bufferType: library types modelled by their byte content.
func bufferType(t types.Type) bool {
	s := typeKey(t)
	return s == "bytes.Buffer" || s == "strings.Builder"
}

// ---------------------------------------------------------------- printing

func (a *Atom) String() string {
	var sb strings.Builder
	if a.op == "bit" {
		return fmt.Sprintf("%s[%s].%d", a.args[0], a.args[1], a.args[2])
	}
	switch a.op {
	case "in", "ph":
		return fmt.Sprint(a.args[0])
	case "app":
		fmt.Fprintf(&sb, "%v#%v(", a.args[0], a.args[1])
		for i, x := range a.args[2:] {
			if i > 0 {
				sb.WriteString(", ")
			}
			fmt.Fprint(&sb, x)
		}
		sb.WriteByte(')')
		return clip(sb.String(), 300)
	case "fld":
		return fmt.Sprintf("%v.%v", a.args[0], a.args[1])
	case "elem":
		return fmt.Sprintf("%v[%v]", a.args[0], a.args[1])
	case "len":
		return fmt.Sprintf("len(%v)", a.args[0])
	case "div":
		return fmt.Sprintf("(%v)/%v", a.args[0], a.args[1])
	}
	sb.WriteString(a.op)
	sb.WriteByte('(')
	for i, x := range a.args {
		if i > 0 {
			sb.WriteString(", ")
		}
		fmt.Fprint(&sb, x)
	}
	sb.WriteByte(')')
	return clip(sb.String(), 300)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (l *Lin) String() string {
	if len(l.ts) == 0 {
		return l.k.String()
	}
	var sb strings.Builder
	// group bits of one byte
	ts := l.ts
	used := map[int]bool{}
	first := true
	put := func(c I, s string) {
		if c.Sign() < 0 {
			sb.WriteString("-")
		} else if !first {
			sb.WriteString("+")
		}
		first = false
		abs := new(bigInt).Abs(c)
		if abs.Cmp(b1) != 0 {
			fmt.Fprintf(&sb, "%v*", abs)
		}
		sb.WriteString(s)
	}
	for i, t := range ts {
		if used[i] {
			continue
		}
		if t.a.op == "bit" {
			// find the whole byte with consistent scale
			base, off, j := t.a.args[0].(*Atom), t.a.args[1].(*Lin), t.a.args[2].(int)
			if j == 0 {
				idx := []int{i}
				for m := 1; m < 8; m++ {
					for q := range ts {
						if ts[q].a.op == "bit" && ts[q].a.args[0] == any(base) && ts[q].a.args[1] == any(off) && ts[q].a.args[2] == any(m) && ts[q].c.Cmp(mulI(t.c, pow2(uint(m)))) == 0 {
							idx = append(idx, q)
						}
					}
				}
				if len(idx) == 8 {
					for _, q := range idx {
						used[q] = true
					}
					put(t.c, fmt.Sprintf("%v[%v]", base, off))
					continue
				}
			}
		}
	}
	for i, t := range ts {
		if !used[i] {
			put(t.c, t.a.String())
		}
	}
	if l.k.Sign() != 0 {
		if l.k.Sign() > 0 {
			sb.WriteByte('+')
		}
		sb.WriteString(l.k.String())
	}
	return clip(sb.String(), 400)
}

func (p *Piece) String() string {
	switch p.k {
	case PLit:
		return fmt.Sprintf("%q", p.s)
	case PElems:
		return fmt.Sprint(p.els)
	case PWin:
		return fmt.Sprintf("%v[%v:+%v]", p.base, p.off, p.n)
	case PDec:
		return fmt.Sprintf("dec%d(%v)", p.w, p.lin)
	case PFill:
		return fmt.Sprintf("fill(%v × %v)", p.val, p.n)
	}
	return "?"
}

func (s *Seq) String() string {
	var xs []string
	for i := range s.ps {
		xs = append(xs, s.ps[i].String())
	}
	return "⟨" + clip(strings.Join(xs, " "), 500) + "⟩"
}

func (n *Node) String() string {
	switch n.k {
	case NAgg:
		var xs []string
		for i, k := range n.kids {
			xs = append(xs, n.names[i]+": "+k.String())
		}
		return "{" + clip(strings.Join(xs, ", "), 800) + "}"
	case NDec:
		var sb strings.Builder
		if n.subj.lin != nil {
			fmt.Fprintf(&sb, "case(%v)[", n.subj.lin)
			for i, k := range n.kids {
				if i < len(n.cuts) {
					fmt.Fprintf(&sb, "<%v: %v; ", n.cuts[i], k)
				} else {
					fmt.Fprintf(&sb, "else: %v]", k)
				}
			}
		} else {
			fmt.Fprintf(&sb, "case(%v)[", n.subj.eq)
			for i, k := range n.kids {
				if i < len(n.pts) {
					fmt.Fprintf(&sb, "=%v: %v; ", n.pts[i], k)
				} else {
					fmt.Fprintf(&sb, "else: %v]", k)
				}
			}
		}
		return clip(sb.String(), 800)
	}
	switch n.lk {
	case LInt:
		return n.lin.String()
	case LBool:
		return fmt.Sprint(n.b)
	case LStr:
		return "str" + n.seq.String()
	case LSeqV:
		if n.b {
			return "nilseq"
		}
		return "seq" + n.seq.String()
	case LSlice:
		return fmt.Sprintf("slice(%s#%d%s,%v,%v)", n.obj.name, n.obj.id, pathKey(n.path), n.lin, n.lin2)
	case LPtr:
		return fmt.Sprintf("&%s#%d%s", n.obj.name, n.obj.id, pathKey(n.path))
	case LMap:
		return fmt.Sprintf("map#%d", n.obj.id)
	case LNil:
		return "nil"
	case LOpq, LFloat:
		return n.atom.String()
	case LErr:
		return "error"
	case LDead:
		return "unreachable"
	case LAny:
		return "any"
	case LPanic:
		return "panic"
	case LIface:
		return fmt.Sprintf("%s(%v)", typeKey(n.typ), n.kids[0])
	case LFunc:
		return n.fn.Name()
	case LRef:
		return "&" + n.kids[0].String()
	case LTup:
		var xs []string
		for i, k := range n.kids {
			xs = append(xs, n.names[i]+": "+k.String())
		}
		return "(" + clip(strings.Join(xs, ", "), 800) + ")"
	case LMapV:
		return clip(fmt.Sprintf("map{%v + %v}", n.atom, n.kids), 500)
	case LDel:
		return "deleted"
	}
	return "?"
}
