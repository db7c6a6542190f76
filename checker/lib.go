package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- calls

// forLeaves runs f for every leaf of x under its condition and merges states.
func (fr *frame) forLeaves(x *Node, st *State, f func(lf *Node, st *State) *Node) *Node {
	if x.k == NLeaf {
		return f(x, st)
	}
	leaves := leavesOf(x)
	var es []*edge
	var vals []*Node
	for _, lf := range leaves {
		s2 := st.clone()
		v := f(lf, s2)
		vals = append(vals, v)
		es = append(es, &edge{guard: leafIs(x, lf), st: s2})
	}
	var r *Node
	for i := len(vals) - 1; i >= 0; i-- {
		if vals[i] == nil {
			continue
		}
		if r == nil {
			r = vals[i]
		} else {
			r = iteShape(es[i].guard, vals[i], r)
		}
	}
	*st = *mergeStates(es)
	return r
}

// iteShape merges values one of which may be a bare Dead/Panic leaf.
func iteShape(g, a, b *Node) *Node {
	if a.k == NAgg && a.id == -1 || b.k == NAgg && b.id == -1 {
		n := len(a.kids)
		names := a.names
		if a.k != NAgg {
			n, names = len(b.kids), b.names
		}
		ks := make([]*Node, n)
		for i := range ks {
			ks[i] = iteShape(g, aggField(a, i, n), aggField(b, i, n))
		}
		return &Node{k: NAgg, names: names, kids: ks, id: -1}
	}
	return ite(g, a, b)
}

func deadResult(rt *types.Tuple) *Node {
	switch rt.Len() {
	case 0:
		return nil
	case 1:
		return spreadT(nDead, rt.At(0).Type())
	}
	ks := make([]*Node, rt.Len())
	names := make([]string, rt.Len())
	for i := range ks {
		ks[i] = spreadT(nDead, rt.At(i).Type())
		names[i] = fmt.Sprint(i)
	}
	return &Node{k: NAgg, names: names, kids: ks, id: -1}
}

func tuple(ns ...*Node) *Node {
	names := make([]string, len(ns))
	for i := range names {
		names[i] = fmt.Sprint(i)
	}
	return &Node{k: NAgg, names: names, kids: ns, id: -1}
}

func zeroResult(rt *types.Tuple) *Node {
	switch rt.Len() {
	case 0:
		return nil
	case 1:
		return zeroVal(rt.At(0).Type())
	}
	ks := make([]*Node, rt.Len())
	for i := range ks {
		ks[i] = zeroVal(rt.At(i).Type())
	}
	return tuple(ks...)
}

// doCall interprets a call.
func (fr *frame) doCall(cc *ssa.CallCommon, fn *Node, args []*Node, st *State, pos token.Pos) *Node {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return fr.builtin(b.Name(), cc, args, st)
	}
	rt := cc.Signature().Results()
	if cc.IsInvoke() {
		return fr.forLeaves(fn, st, func(r *Node, st *State) *Node {
			switch r.lk {
			case LIface:
				m := fr.en.prog.LookupMethod(r.typ, cc.Method.Pkg(), cc.Method.Name())
				if m == nil {
					failf("no method %s on %s", cc.Method.Name(), r.typ)
				}
				self := thaw(untup(r.kids[0], r.typ), r.typ)
				return fr.callFn(m, nil, append([]*Node{self}, args...), st, pos)
			case LNil:
				return deadResult(rt)
			case LDead, LPanic, LAny:
				return deadResult(rt)
			case LErr:
				if cc.Method.Name() == "Error" {
					return fr.app("errtext", types.Typ[types.String], st, r)
				}
			case LOpq:
				it := typeKey(cc.Value.Type())
				if t := fr.en.devirt[it]; t != nil {
					m := fr.en.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
					if m != nil {
						self := valueOf(mkAtomT("cast", nil, nil, t, r.atom, typeKey(t)), t)
						return fr.callFn(m, nil, append([]*Node{self}, args...), st, pos)
					}
				}
				key := it + "." + cc.Method.Name()
				fz := []*Node{r}
				for _, a := range args {
					fz = append(fz, fr.freeze(a, st))
				}
				if fr.en.session && key == "context.Context.Err" {
					return fr.ctxErr(r, st)
				}
				if fr.en.effects[key] {
					return fr.en.effect(st, cc.Method.Name(), rt, fz...)
				}
				return appTuple("method:"+cc.Method.Name(), rt, fz)
			}
			failf("method %s on %s", cc.Method.Name(), r)
			return nil
		})
	}
	return fr.forLeaves(fn, st, func(f *Node, st *State) *Node {
		switch f.lk {
		case LFunc:
			return fr.callFn(f.fn, f.kids, args, st, pos)
		case LNil, LDead, LPanic, LAny:
			return deadResult(rt)
		case LOpq:
			fz := []*Node{f}
			for _, a := range args {
				fz = append(fz, fr.freeze(a, st))
			}
			if fr.en.session && strings.HasPrefix(fmt.Sprint(f), "context.") {
				fr.cancelled(f, st)
				return fr.en.effect(st, "cancel", rt, fz...)
			}
			if h := fr.en.step; h != nil && h.watch {
				h.deliver(args, st)
			}
			return fr.en.effect(st, "callback", rt, fz...)
		}
		failf("call of %s", f)
		return nil
	})
}

func (fr *frame) callFn(f *ssa.Function, binds, args []*Node, st *State, pos token.Pos) *Node {
	en := fr.en
	if n, ok := strings.CutPrefix(f.Name(), "repl_"); ok && f.Pkg != nil && f.Pkg.Pkg.Path() == "verifload/spec" {
		// stands for the unexported function of package replication
		g := en.prog.ImportedPackage(repoRepl).Func(n)
		if g == nil || !types.Identical(g.Signature, f.Signature) {
			failf("package replication has no function %s with signature %s", n, f.Signature)
		}
		f = g
	}
	name := f.String()
	c := &call{en: en, fr: fr, fn: f, name: name, args: args, st: st, pos: pos}
	if f.Signature.Recv() != nil {
		c.argT = append(c.argT, f.Signature.Recv().Type())
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		c.argT = append(c.argT, f.Signature.Params().At(i).Type())
	}
	c.resT = f.Signature.Results()
	if b := en.bound[name]; b != nil {
		return b(c)
	}
	if en.hook != nil {
		if r, ok := en.hook(c); ok {
			return r
		}
	}
	if l := libs[name]; l != nil {
		return l(c)
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if en.ignore[pkg] {
		return zeroResult(c.resT)
	}
	if en.inline(f, pkg) && len(f.Blocks) > 0 {
		if p := curPos; true {
			defer func() { curPos = p }()
		}
		n := 0
		for _, g := range en.stack {
			if g == f {
				n++
			}
		}
		if n > 0 && n >= en.recDepth {
			return en.recursion(c)
		}
		nf := &frame{en: en, fn: f, env: map[ssa.Value]*Node{}}
		return nf.evalFunc(args, binds, st)
	}
	return c.pure("call:" + name)
}

// inline: functions whose body is interpreted.
func (en *Engine) inline(f *ssa.Function, pkg string) bool {
	switch pkg {
	case repoRoot, repoRepl, "verifload/spec", "encoding/binary", "math/bits", "":
		return true
	case "bytes":
		if f.Name() == "NewReader" {
			return true
		}
		r := f.Signature.Recv()
		return r != nil && typeKey(r.Type()) == "*bytes.Reader" && (f.Name() == "Read" || f.Name() == "ReadByte" || f.Name() == "Len")
	case "math":
		return f.Name() == "Abs"
	}
	return strings.HasPrefix(pkg, "verifload") || f.Pkg == nil && f.Synthetic != ""
}

const (
	repoRoot = "github.com/Breeze0806/gobinlog"
	repoRepl = "github.com/Breeze0806/gobinlog/replication"
)

// pure: uninterpreted function of values.
func (c *call) pure(name string) *Node {
	fz := make([]*Node, len(c.args))
	for i, a := range c.args {
		for _, l := range leavesOf(a) {
			if l.lk == LPtr && !implementsError(l.obj.typ) && l.obj.opq == nil {
				failf("%s: call of %s with a pointer to local data is not modelled", c.fr.fn, c.name)
			}
		}
		fz[i] = c.fr.freeze(a, c.st)
	}
	return appTuple(name, c.resT, fz)
}

// ---------------------------------------------------------------- builtins

func (fr *frame) builtin(name string, cc *ssa.CallCommon, args []*Node, st *State) *Node {
	switch name {
	case "len":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			return apply(func(a []*Node) *Node { return mkInt(mapLen(a[0])) }, fr.mapContent(args[0], st))
		}
		return fr.lenNode(args[0], cc.Args[0].Type(), st)
	case "cap":
		return fr.app("cap", types.Typ[types.Int], st, args[0])
	case "append":
		t := cc.Args[0].Type()
		if len(args) == 1 {
			return args[0]
		}
		for _, l := range leavesOf(args[0]) {
			if l.lk == LSlice && l.obj.foreign {
				st.mut[l.obj] = true
			}
		}
		base := fr.seqValueK(args[0], t, st)
		add := fr.seqValueK(args[1], t, st)
		content := apply(func(a []*Node) *Node {
			return mkSeqV(concatSeq(seqOf(a[0]), seqOf(a[1])), false)
		}, base, add)
		// appending nothing to nil stays nil
		isn := isNilNode(args[0])
		r := fr.freshSlice(content, t, st)
		if o := leavesOf(r); len(o) > 0 && o[0].lk == LSlice {
			for _, l := range leavesOf(args[0]) {
				if l.lk == LSlice {
					// it may have room for what is added
					o[0].obj.from = append(o[0].obj.from, l.obj)
				}
			}
		}
		if isn != nFalse {
			empty := apply(func(a []*Node) *Node { return eqL(seqOf(a[0]).length(), linC(b0)) }, add)
			r = ite(and(isn, empty), nNil, r)
		}
		return r
	case "copy":
		src := fr.seqValueK(args[1], cc.Args[0].Type(), st)
		sl := apply(func(a []*Node) *Node { return mkInt(seqOf(a[0]).length()) }, src)
		dl := fr.lenNode(args[0], cc.Args[0].Type(), st)
		n := liftLin2(dl, sl, func(a, b *Lin) *Node { return ite(ltL(a, b), mkInt(a), mkInt(b)) })
		leaves := leavesOf(args[0])
		for _, lf := range leaves {
			if lf.lk != LSlice {
				continue
			}
			old := loadPath(st.get(lf.obj), lf.obj.typ, lf.path)
			nw := apply(func(a []*Node) *Node {
				o, s, k := seqOf(a[0]), seqOf(a[1]), a[2].lin
				return concat3(seqSlice(o, linC(b0), lf.lin), seqSlice(s, linC(b0), k),
					seqSlice(o, linAdd(lf.lin, k), linSub(linSub(o.length(), lf.lin), k)))
			}, old, src, n)
			full := storePath(st.get(lf.obj), lf.obj.typ, lf.path, nw)
			if len(leaves) > 1 {
				full = ite(leafIs(args[0], lf), full, st.get(lf.obj))
			}
			st.set(lf.obj, full)
		}
		return n
	case "delete":
		key := fr.freeze(args[1], st)
		for _, lf := range leavesOf(args[0]) {
			if lf.lk != LMap {
				continue
			}
			old := st.get(lf.obj)
			nw := mapPut(old, key, mkDel())
			st.set(lf.obj, ite(leafIs(args[0], lf), nw, old))
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		failf("panic builtin")
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = liftLin2(r, a, func(x, y *Lin) *Node {
				if name == "max" {
					x, y = y, x
				}
				if name == "max" {
					return ite(ltL(x, y), mkInt(y), mkInt(x))
				}
				return ite(ltL(x, y), mkInt(x), mkInt(y))
			})
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	case "close":
		if fr.en.session {
			fr.closeChan(args[0], st)
			return nil
		}
		fr.en.effect(st, "close", nil, fr.freeze(args[0], st))
		return nil
	case "clear":
		for _, lf := range leavesOf(args[0]) {
			if lf.lk == LMap {
				st.set(lf.obj, ite(leafIs(args[0], lf), mkMapV(nil, nil), st.get(lf.obj)))
			} else if lf.lk != LNil {
				failf("clear of %s", lf)
			}
		}
		return nil
	}
	failf("builtin %s", name)
	return nil
}

func concat3(xs ...*Node) *Node {
	return apply(func(a []*Node) *Node {
		s := seqOf(a[0])
		for _, x := range a[1:] {
			s = concatSeq(s, seqOf(x))
		}
		return mkSeqV(s, false)
	}, xs...)
}

func (fr *frame) seqValueK(x *Node, t types.Type, st *State) *Node {
	k := seqKind(t)
	return apply(func(a []*Node) *Node {
		if a[0].lk == LNil {
			return mkSeqV(emptySeq(k), false)
		}
		return a[0]
	}, fr.seqValue0(x, k, st))
}

func (fr *frame) seqValue0(x *Node, k byte, st *State) *Node {
	return apply(func(a []*Node) *Node {
		if a[0].lk == LNil {
			return mkSeqV(emptySeq(k), false)
		}
		return fr.seqValue(a[0], st)
	}, x)
}

func (fr *frame) lenNode(x *Node, t types.Type, st *State) *Node {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return mkI(p.Elem().Underlying().(*types.Array).Len())
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return mkI(a.Len())
	}
	return apply(func(a []*Node) *Node {
		switch a[0].lk {
		case LNil:
			return mkI(0)
		case LSlice:
			return mkInt(a[0].lin2)
		case LStr, LSeqV:
			return mkInt(a[0].seq.length())
		}
		if c, ok := t.Underlying().(*types.Chan); ok {
			return fr.app("chanlen", c, st, a[0])
		}
		failf("len of %s", a[0])
		return nil
	}, x)
}

// ---------------------------------------------------------------- text

// decText: decimal text of an integer, zero padded to width w (sign counts).
func decText(l *Lin, w int) *Node {
	neg := ltZero(l)
	mk := func(l *Lin, w int) *Node {
		return mkSeqV(mkSeq('b', []Piece{{k: PDec, lin: l, w: w}}), false)
	}
	p := mk(l, max(w, 1))
	if neg == nFalse {
		return p
	}
	n := apply(func(a []*Node) *Node { return mkSeqV(concatSeq(litSeq("-"), seqOf(a[0])), false) }, mk(linNeg(l), max(w-1, 1)))
	if neg == nTrue {
		return n
	}
	return ite(neg, n, p)
}

// decText2: at least p digits, the sign does not count.
func decText2(l *Lin, p int) *Node {
	return ite(ltZero(l), concat3(mkSeqV(litSeq("-"), false), decText(linNeg(l), p)), decText(l, p))
}

func decNode(x *Node, w int) *Node {
	return liftLin(x, func(l *Lin) *Node { return decText(l, w) })
}

// sprintf returns the text of a format call as a node with LSeqV leaves.
func (c *call) sprintf(format, args *Node) *Node {
	f, ok := "", false
	if format.leaf(LStr) {
		f, ok = format.seq.lit()
	}
	if !ok {
		if format.k == NDec {
			return apply(func(a []*Node) *Node { return c.sprintf(a[0], args) }, format)
		}
		failf("%s: format is not a constant", c.fr.fn)
	}
	av := c.fr.seqValueK(args, types.NewSlice(types.NewInterfaceType(nil, nil)), c.st)
	return apply(func(a []*Node) *Node {
		s := seqOf(a[0])
		var els []*Node
		for _, p := range s.ps {
			if p.k != PElems {
				failf("%s: variadic format arguments", c.fr.fn)
			}
			els = append(els, p.els...)
		}
		out := mkSeqV(emptySeq('b'), false)
		put := func(n *Node) { out = concat3(out, n) }
		lit := func(s string) { put(mkSeqV(litSeq(s), false)) }
		next := 0
		arg := func() *Node {
			if next >= len(els) {
				failf("%s: missing format argument", c.fr.fn)
			}
			next++
			return els[next-1]
		}
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				j := i
				for j < len(f) && f[j] != '%' {
					j++
				}
				lit(f[i:j])
				i = j - 1
				continue
			}
			j := i + 1
			flags := ""
			for j < len(f) && strings.IndexByte("+-# 0", f[j]) >= 0 {
				flags += string(f[j])
				j++
			}
			var width *Node
			if j < len(f) && f[j] == '*' {
				width = untup(arg().kids[0], types.Typ[types.Int])
				j++
			} else {
				k := j
				for j < len(f) && f[j] >= '0' && f[j] <= '9' {
					j++
				}
				if j > k {
					w, _ := strconv.Atoi(f[k:j])
					width = mkI(int64(w))
				}
			}
			prec := ""
			if j < len(f) && f[j] == '.' {
				k := j
				j++
				for j < len(f) && f[j] >= '0' && f[j] <= '9' {
					j++
				}
				prec = f[k:j]
			}
			if j >= len(f) {
				failf("bad format")
			}
			verb := f[j]
			if verb == '%' {
				lit("%")
			} else {
				put(c.verb(verb, flags, prec, width, arg()))
			}
			i = j
		}
		return out
	}, av)
}

func (c *call) verb(v byte, flags, prec string, width, x *Node) *Node {
	generic := func() *Node {
		args := []*Node{x}
		if width != nil {
			args = append(args, width)
		}
		return apply(func(a []*Node) *Node { return mkSeqV(seqOf(a[0]), false) },
			c.fr.app("fmt:%"+flags+prec+string(v), types.Typ[types.String], c.st, args...))
	}
	if x.lk != LIface {
		return generic()
	}
	t, val := x.typ, x.kids[0]
	// Stringer / error operands of %v %s
	if v == 'v' || v == 's' {
		if implementsErrorT(t) {
			return generic()
		}
		if m := c.en.prog.MethodSets.MethodSet(t).Lookup(nil, "String"); m != nil {
			mf := c.en.prog.MethodValue(m)
			r := c.fr.callFn(mf, nil, []*Node{thaw(untup(val, t), t)}, c.st, c.pos)
			if flags == "" && prec == "" && width == nil {
				return apply(func(a []*Node) *Node { return mkSeqV(seqOf(a[0]), false) }, r)
			}
			return generic()
		}
	}
	_, _, isInt := intInfo(t)
	switch {
	case isInt && (v == 'd' || v == 'v') && len(prec) > 1 && width == nil && flags == "":
		p, _ := strconv.Atoi(prec[1:])
		return liftLin(val, func(l *Lin) *Node {
			if l.nonneg() {
				return decText(l, max(1, p))
			}
			return decText2(l, max(1, p))
		})
	case isInt && (v == 'd' || v == 'v') && prec == "":
		if width == nil && flags == "" {
			return decNode(val, 1)
		}
		if width != nil && flags == "0" {
			return apply(func(a []*Node) *Node {
				if !a[0].lin.isConst() {
					if r := splitSmall(a[0].lin, 40, func(k I) *Node { return decNode(a[1], max(1, int(k.Int64()))) }); r != nil {
						return r
					}
					return generic()
				}
				return decNode(a[1], max(1, int(a[0].lin.k.Int64())))
			}, width, val)
		}
		if width != nil && flags == "" && width.leaf(LInt) && width.lin.isConst() && width.lin.k.Cmp(b1) <= 0 {
			return decNode(val, 1)
		}
	case isStringT(t) && (v == 's' || v == 'v') && flags == "" && prec == "" && width == nil:
		return apply(func(a []*Node) *Node { return mkSeqV(seqOf(a[0]), false) }, val)
	case v == 's' && flags == "" && prec == "" && width == nil && elemType(t) != nil && isByteT(elemType(t)):
		return apply(func(a []*Node) *Node { return mkSeqV(seqOf(a[0]), false) }, c.fr.seqValueK(val, t, c.st))
	case v == 'x' && flags == "" && prec == "" && width == nil && elemType(t) != nil && isByteT(elemType(t)):
		return hexText(c.fr.seqValueK(val, t, c.st))
	}
	return generic()
}

func hexText(seq *Node) *Node {
	return apply(func(a []*Node) *Node {
		n := seqOf(a[0])
		at := mkAtomT("app", nil, nil, types.Typ[types.String], "hex", 0, mkSeqV(n, false))
		return mkSeqV(winSeq('b', at, linC(b0), linScale(n.length(), b2)), false)
	}, seq)
}

// bufPtr yields the byte content object behind *bytes.Buffer / io.Writer.
func (c *call) withBuffer(p *Node, f func(q *Node, st *State) *Node) *Node {
	return c.fr.forLeaves(p, c.st, func(lf *Node, st *State) *Node {
		if lf.lk == LIface {
			lf = lf.kids[0]
		}
		if lf.lk == LNil || lf.lk == LDead || lf.lk == LPanic {
			return deadResult(c.resT)
		}
		if lf.lk == LPtr && !bufferType(pathType(lf.obj.typ, lf.path)) {
			failf("%s: writer of type %s is not modelled", c.fr.fn, lf.obj.typ)
		}
		return f(lf, st)
	})
}

func pathType(t types.Type, p []PathEl) types.Type {
	for _, e := range p {
		if e.idx != nil {
			t = elemType(t)
		} else {
			t = t.Underlying().(*types.Struct).Field(e.field).Type()
		}
	}
	return t
}

func (c *call) bufAppend(p *Node, text func(st *State) *Node, res func(n *Lin) *Node) *Node {
	return c.withBuffer(p, func(q *Node, st *State) *Node {
		bt := bufT
		if q.lk == LPtr {
			bt = pathType(q.obj.typ, q.path)
		}
		old := c.fr.load(q, bt, st)
		tx := text(st)
		c.fr.store(q, concat3(old, tx), bt, st)
		if res == nil {
			return nil
		}
		n := apply(func(a []*Node) *Node { return mkInt(seqOf(a[0]).length()) }, tx)
		if !n.leaf(LInt) {
			return tuple(n, nNil)
		}
		return res(n.lin)
	})
}

var bufT types.Type

func nErrRes(n *Lin) *Node { return tuple(mkInt(n), nNil) }

func strSeq(n *Node) *Node {
	return apply(func(a []*Node) *Node { return mkSeqV(seqOf(a[0]), false) }, n)
}

// ---------------------------------------------------------------- models

var libs = map[string]func(c *call) *Node{}

func lib(name string, f func(c *call) *Node) { libs[name] = f }

func constInt(n *Node) (int64, bool) {
	if n.leaf(LInt) && n.lin.isConst() && n.lin.k.IsInt64() {
		return n.lin.k.Int64(), true
	}
	return 0, false
}

func init() {
	errf := func(c *call) *Node { return nErr }
	lib("errors.New", errf)
	lib("fmt.Errorf", errf)
	lib("errors.Is", func(c *call) *Node {
		return c.fr.eq(c.args[0], c.args[1], c.st)
	})
	lib("fmt.Sprintf", func(c *call) *Node { return toStr(c.sprintf(c.args[0], c.args[1])) })
	lib("fmt.Sprint", func(c *call) *Node { return c.pure("fmt.Sprint") })
	lib("fmt.Appendf", func(c *call) *Node {
		base := c.fr.seqValueK(c.args[0], byteSlice, c.st)
		return c.fr.freshSlice(concat3(base, c.sprintf(c.args[1], c.args[2])), byteSlice, c.st)
	})
	lib("fmt.Fprintf", func(c *call) *Node {
		return c.bufAppend(c.args[0], func(st *State) *Node {
			d := *c
			d.st = st
			return d.sprintf(c.args[1], c.args[2])
		}, nErrRes)
	})
	lib("fmt.Printf", func(c *call) *Node { return zeroResult(c.resT) })
	lib("fmt.Println", func(c *call) *Node { return zeroResult(c.resT) })
	for _, b := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		lib(b+".WriteString", func(c *call) *Node {
			return c.bufAppend(c.args[0], func(st *State) *Node { return strSeq(c.args[1]) }, nErrRes)
		})
		lib(b+".Write", func(c *call) *Node {
			return c.bufAppend(c.args[0], func(st *State) *Node { return c.fr.seqValueK(c.args[1], byteSlice, st) }, nErrRes)
		})
		lib(b+".WriteByte", func(c *call) *Node {
			return c.bufAppend(c.args[0], func(st *State) *Node {
				return apply(func(a []*Node) *Node { return mkSeqV(elemsSeq('b', []*Node{a[0]}), false) }, c.args[1])
			}, func(*Lin) *Node { return nNil })
		})
		lib(b+".WriteRune", func(c *call) *Node {
			return c.bufAppend(c.args[0], func(st *State) *Node {
				return liftLin(c.args[1], func(l *Lin) *Node {
					if _, h := l.rng(); l.nonneg() && h != nil && h.Cmp(bi(127)) <= 0 {
						return mkSeqV(elemsSeq('b', []*Node{mkInt(l)}), false)
					}
					return strSeq(c.fr.app("rune2string", types.Typ[types.String], st, mkInt(l)))
				})
			}, nErrRes)
		})
		lib(b+".Len", func(c *call) *Node {
			return c.withBuffer(c.args[0], func(q *Node, st *State) *Node {
				return apply(func(a []*Node) *Node { return mkInt(seqOf(a[0]).length()) }, c.fr.load(q, bufT, st))
			})
		})
		lib(b+".String", func(c *call) *Node {
			return c.withBuffer(c.args[0], func(q *Node, st *State) *Node { return toStr(c.fr.load(q, bufT, st)) })
		})
		lib(b+".Bytes", func(c *call) *Node {
			return c.withBuffer(c.args[0], func(q *Node, st *State) *Node {
				r := c.fr.load(q, bufT, st)
				if r.k == NLeaf && r.lk == LSeqV && len(r.seq.ps) == 0 {
					return c.emptyBuf(r, st)
				}
				return c.fr.freshSlice(r, byteSlice, st)
			})
		})
		lib(b+".Grow", func(c *call) *Node { return nil })
		lib(b+".Reset", func(c *call) *Node {
			return c.withBuffer(c.args[0], func(q *Node, st *State) *Node {
				c.fr.store(q, mkSeqV(emptySeq('b'), false), bufT, st)
				return nil
			})
		})
		lib(b+".Truncate", func(c *call) *Node {
			return c.withBuffer(c.args[0], func(q *Node, st *State) *Node {
				old := c.fr.load(q, bufT, st)
				c.fr.store(q, apply(func(a []*Node) *Node { return seqSlice(seqOf(a[0]), linC(b0), a[1].lin) }, old, c.args[1]), bufT, st)
				return nil
			})
		})
	}
	newBuf := func(c *call) *Node {
		content := c.fr.seqValueK(c.args[0], c.argT[0], c.st)
		o := newObj("buffer", bufT, content)
		o.fresh = true
		c.st.h[o] = content
		return mkPtr(o, nil)
	}
	lib("bytes.NewBuffer", newBuf)
	lib("bytes.NewBufferString", newBuf)

	// strconv
	lib("strconv.Itoa", func(c *call) *Node { return toStr(decNode(c.args[0], 1)) })
	fmtInt := func(c *call) *Node {
		if b, ok := constInt(c.args[1]); ok && b == 10 {
			return toStr(decNode(c.args[0], 1))
		}
		return c.pure("strconv.FormatInt")
	}
	lib("strconv.FormatInt", fmtInt)
	lib("strconv.FormatUint", fmtInt)
	appInt := func(c *call) *Node {
		base := c.fr.seqValueK(c.args[0], byteSlice, c.st)
		if b, ok := constInt(c.args[2]); ok && b == 10 {
			return c.fr.freshSlice(concat3(base, decNode(c.args[1], 1)), byteSlice, c.st)
		}
		failf("strconv.AppendInt with base")
		return nil
	}
	lib("strconv.AppendInt", appInt)
	lib("strconv.AppendUint", appInt)
	lib("strconv.FormatFloat", func(c *call) *Node {
		return toStr(floatText(c, c.args[0], c.args[1], c.args[2], c.args[3]))
	})
	lib("strconv.AppendFloat", func(c *call) *Node {
		base := c.fr.seqValueK(c.args[0], byteSlice, c.st)
		return c.fr.freshSlice(concat3(base, floatText(c, c.args[1], c.args[2], c.args[3], c.args[4])), byteSlice, c.st)
	})
	for _, n := range []string{"ParseInt", "ParseUint"} {
		n := n
		lib("strconv."+n, func(c *call) *Node { return c.pure("strconv." + n) })
	}
	lib("strconv.Atoi", func(c *call) *Node {
		d := *c
		d.args = []*Node{c.args[0], mkI(10), mkI(0)}
		return d.pure("strconv.ParseInt")
	})
	lib("strconv.Quote", func(c *call) *Node { return c.pure("strconv.Quote") })

	// math
	lib("math.Float32frombits", func(c *call) *Node { return c.pure("f32bits") })
	lib("math.Float64frombits", func(c *call) *Node { return c.pure("f64bits") })

	// hex
	lib("encoding/hex.EncodeToString", func(c *call) *Node {
		return toStr(hexText(c.fr.seqValueK(c.args[0], byteSlice, c.st)))
	})
	lib("encoding/hex.Encode", func(c *call) *Node {
		src := hexText(c.fr.seqValueK(c.args[1], byteSlice, c.st))
		writeSlice(c, c.args[0], src)
		return apply(func(a []*Node) *Node { return mkInt(seqOf(a[0]).length()) }, src)
	})
	lib("encoding/hex.Decode", func(c *call) *Node {
		src := c.fr.seqValueK(c.args[1], byteSlice, c.st)
		// decoded bytes, valid when err == nil; on error the destination is
		// partially written, which callers must not rely on.
		res := apply(func(a []*Node) *Node {
			at := mkAtomT("app", nil, nil, types.Typ[types.String], "unhex", 0, a[0])
			return mkSeqV(winSeq('b', at, linC(b0), divOf(seqOf(a[0]).length(), b2)), false)
		}, src)
		writeSlice(c, c.args[0], res)
		return tuple(apply(func(a []*Node) *Node { return mkInt(seqOf(a[0]).length()) }, res),
			appNode("unhexerr", 0, types.Universe.Lookup("error").Type(), []*Node{src}))
	})
	lib("encoding/hex.DecodeString", func(c *call) *Node {
		src := strSeq(c.args[0])
		res := apply(func(a []*Node) *Node {
			at := mkAtomT("app", nil, nil, types.Typ[types.String], "unhex", 0, a[0])
			return mkSeqV(winSeq('b', at, linC(b0), divOf(seqOf(a[0]).length(), b2)), false)
		}, src)
		return tuple(c.fr.freshSlice(res, byteSlice, c.st), appNode("unhexerr", 0, types.Universe.Lookup("error").Type(), []*Node{src}))
	})

	// bytes / strings
	lib("bytes.Equal", func(c *call) *Node {
		return eqNode(c.fr.seqValueK(c.args[0], byteSlice, c.st), c.fr.seqValueK(c.args[1], byteSlice, c.st))
	})
	seqFn := func(goName, name string) {
		lib(goName, func(c *call) *Node {
			fz := make([]*Node, len(c.args))
			for i, a := range c.args {
				if et := elemType(c.argT[i]); et != nil && isByteT(et) {
					fz[i] = c.fr.seqValueK(a, c.argT[i], c.st)
				} else {
					fz[i] = c.fr.freeze(a, c.st)
				}
			}
			if r := scanConst(name, c.resT, fz); r != nil {
				return r
			}
			if name == "str:Compare" {
				return apply(func(a []*Node) *Node {
					at := mkAtom("app", bi(-1), b1, name, 0, a[0], a[1])
					at.typ = types.Typ[types.Int]
					return mkInt(linA(at))
				}, fz...)
			}
			return appTuple(name, c.resT, fz)
		})
	}
	for _, n := range []string{"IndexByte", "Index", "IndexAny", "Contains", "HasPrefix", "HasSuffix", "TrimRight", "TrimLeft", "TrimSpace", "Trim", "ToLower", "ToUpper", "Compare", "LastIndexByte", "LastIndex", "Split", "SplitN", "Fields", "ContainsAny", "TrimPrefix", "TrimSuffix", "Count", "Replace", "ReplaceAll", "Repeat", "Title", "Cut"} {
		seqFn("bytes."+n, "str:"+n)
		seqFn("strings."+n, "str:"+n)
	}
	lib("strings.Join", func(c *call) *Node { return c.pure("str:Join") })
	lib("strings.EqualFold", func(c *call) *Node {
		lower := func(x *Node) *Node {
			if x.leaf(LStr) {
				if s, ok := x.seq.lit(); ok {
					return mkStr(litSeq(strings.ToLower(s)))
				}
			}
			return appNode("str:ToLower", 0, types.Typ[types.String], []*Node{strSeq(x)})
		}
		return eqNode(lower(c.args[0]), lower(c.args[1]))
	})
	// time
	lib("time.Unix", func(c *call) *Node { return c.pure("time.Unix") })
	lib("(time.Time).Local", func(c *call) *Node {
		if a := c.args[0]; a.leaf(LOpq) && a.atom.op == "app" && a.atom.args[0] == any("time.Unix") {
			return a
		}
		return c.pure("time.Local")
	})
	timeInt := func(c *call, part string, lo, hi int64) *Node {
		return apply(func(a []*Node) *Node {
			at := mkAtom("app", bi(lo), bi(hi), "time."+part, 0, a[0])
			at.typ = types.Typ[types.Int]
			return mkInt(linA(at))
		}, c.args[0])
	}
	parts := map[string][2]int64{"Year": {1969, 2106}, "Month": {1, 12}, "Day": {1, 31}, "Hour": {0, 23}, "Minute": {0, 59}, "Second": {0, 59}}
	part := func(c *call, p string) *Node { return timeInt(c, p, parts[p][0], parts[p][1]) }
	for p := range parts {
		p := p
		lib("(time.Time)."+p, func(c *call) *Node { return part(c, p) })
	}
	lib("(time.Time).Date", func(c *call) *Node { return tuple(part(c, "Year"), part(c, "Month"), part(c, "Day")) })
	lib("(time.Time).Clock", func(c *call) *Node {
		return tuple(part(c, "Hour"), part(c, "Minute"), part(c, "Second"))
	})
	tfmt := func(c *call, layout *Node) *Node {
		l, ok := "", false
		if layout.leaf(LStr) {
			l, ok = layout.seq.lit()
		}
		if !ok {
			failf("time layout is not a constant")
		}
		out := mkSeqV(emptySeq('b'), false)
		toks := []struct {
			s, p string
			w    int
		}{{"2006", "Year", 4}, {"01", "Month", 2}, {"02", "Day", 2}, {"15", "Hour", 2}, {"04", "Minute", 2}, {"05", "Second", 2}}
	next:
		for i := 0; i < len(l); {
			for _, t := range toks {
				if strings.HasPrefix(l[i:], t.s) {
					out = concat3(out, decNode(part(c, t.p), t.w))
					i += len(t.s)
					continue next
				}
			}
			if strings.IndexByte(" -:T/", l[i]) < 0 {
				failf("time layout %q", l)
			}
			out = concat3(out, mkSeqV(litSeq(l[i:i+1]), false))
			i++
		}
		return out
	}
	lib("(time.Time).Format", func(c *call) *Node { return toStr(tfmt(c, c.args[1])) })
	lib("(time.Time).AppendFormat", func(c *call) *Node {
		return c.fr.freshSlice(concat3(c.fr.seqValueK(c.args[1], byteSlice, c.st), tfmt(c, c.args[2])), byteSlice, c.st)
	})
	// encoding/binary on buffers
	lib("encoding/binary.Write", func(c *call) *Node {
		return c.bufAppend(c.args[0], func(st *State) *Node {
			return apply(func(a []*Node) *Node { return binBytes(c, a[0], a[1], st) }, c.args[1], c.args[2])
		}, func(*Lin) *Node { return nNil })
	})
	lib("encoding/binary.Read", binaryRead)
	lib("sort.Sort", func(c *call) *Node {
		sortModel(c, c.args[0], nil)
		return nil
	})
	lib("sort.Slice", func(c *call) *Node {
		sortModel(c, c.args[0], c.args[1])
		return nil
	})
	lib("(*sync/atomic.Value).Store", func(c *call) *Node {
		c.fr.store(c.args[0], c.args[1], pathElem(c.argT[0]), c.st)
		return nil
	})
	lib("(*sync/atomic.Value).Load", func(c *call) *Node {
		return c.fr.load(c.args[0], pathElem(c.argT[0]), c.st)
	})
}

func pathElem(t types.Type) types.Type { return deref(t) }

var byteSlice = types.NewSlice(types.Typ[types.Uint8])

func (c *call) emptyBuf(r *Node, st *State) *Node {
	// (*bytes.Buffer).Bytes of a buffer never written is nil or empty
	return c.fr.freshSlice(r, byteSlice, st)
}

func divOf(l *Lin, c I) *Lin {
	n := divL(l, c)
	if !n.leaf(LInt) {
		failf("conditional length")
	}
	return n.lin
}

func floatText(c *call, x, fm, prec, bits *Node) *Node {
	f, ok1 := constInt(fm)
	p, ok2 := constInt(prec)
	b, ok3 := constInt(bits)
	if !ok1 || !ok2 || !ok3 {
		failf("float format is not a constant")
	}
	// a float64 that holds a converted float32 printed with bitSize 32
	return strSeq(c.fr.app(fmt.Sprintf("ftext:%c:%d:%d", rune(f), p, b), types.Typ[types.String], c.st, x))
}

// writeSlice stores content at the start of a slice.
func writeSlice(c *call, dst, src *Node) {
	for _, lf := range leavesOf(dst) {
		if lf.lk != LSlice {
			continue
		}
		old := loadPath(c.st.get(lf.obj), lf.obj.typ, lf.path)
		nw := apply(func(a []*Node) *Node {
			o, s := seqOf(a[0]), seqOf(a[1])
			n := s.length()
			return concat3(seqSlice(o, linC(b0), lf.lin), mkSeqV(s, false),
				seqSlice(o, linAdd(lf.lin, n), linSub(linSub(o.length(), lf.lin), n)))
		}, old, src)
		full := storePath(c.st.get(lf.obj), lf.obj.typ, lf.path, nw)
		c.st.set(lf.obj, ite(leafIs(dst, lf), full, c.st.get(lf.obj)))
	}
}

func orderOf(n *Node) string {
	if n.leaf(LIface) {
		s := typeKey(n.typ)
		switch {
		case strings.HasSuffix(s, "littleEndian"):
			return "le"
		case strings.HasSuffix(s, "bigEndian"):
			return "be"
		}
	}
	failf("byte order %s", n)
	return ""
}

func intBytes(l *Lin, n int, order string) *Node {
	var els []*Node
	for i := 0; i < n; i++ {
		k := i
		if order == "be" {
			k = n - 1 - i
		}
		els = append(els, liftLin(divL(l, pow2(uint(8*k))), func(q *Lin) *Node { return lowBits(q, 8) }))
	}
	return apply(func(a []*Node) *Node { return mkSeqV(elemsSeq('b', append([]*Node(nil), a...)), false) }, els...)
}

func binBytes(c *call, order, v *Node, st *State) *Node {
	o := orderOf(order)
	if v.lk != LIface {
		failf("binary.Write of %s", v)
	}
	t, x := v.typ, v.kids[0]
	if n, _, ok := intInfo(t); ok && sizedInt(t) {
		return liftLin(x, func(l *Lin) *Node { return intBytes(l, int(n/8), o) })
	}
	if et := elemType(t); et != nil && isByteT(et) {
		return c.fr.seqValueK(x, t, st)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		y := c.fr.load(x, p.Elem(), st)
		return apply(func(a []*Node) *Node { return binBytes(c, order, mkIface(p.Elem(), a[0]), st) }, tupLeaf(y))
	}
	failf("binary.Write of %s", t)
	return nil
}

func sizedInt(t types.Type) bool {
	b := t.Underlying().(*types.Basic)
	return b.Kind() != types.Int && b.Kind() != types.Uint && b.Kind() != types.Uintptr
}

// binaryRead models binary.Read on a *bytes.Reader ({s, i, prevRune}).
func binaryRead(c *call) *Node {
	o := orderOf(c.args[1])
	r := c.args[0]
	if !r.leaf(LIface) || typeKey(r.typ) != "*bytes.Reader" {
		failf("binary.Read from %s", r)
	}
	p := r.kids[0]
	rt := deref(r.typ)
	rd := c.fr.load(p, rt, c.st)
	data := c.fr.seqValueK(rd.kids[0], byteSlice, c.st)
	pos := rd.kids[1]
	dst := c.args[2]
	if !dst.leaf(LIface) {
		failf("binary.Read into %s", dst)
	}
	dt := deref(dst.typ)
	var size int64
	bits, _, isInt := intInfo(dt)
	switch {
	case isInt && sizedInt(dt):
		size = int64(bits / 8)
	case elemType(dt) != nil && isByteT(elemType(dt)):
		if a, ok := dt.Underlying().(*types.Array); ok {
			size = a.Len()
		} else {
			failf("binary.Read into slice")
		}
	default:
		failf("binary.Read into %s", dt)
	}
	short := apply(func(a []*Node) *Node {
		return ltL(seqOf(a[0]).length(), linAddI(a[1].lin, bi(size)))
	}, data, pos)
	val := apply(func(a []*Node) *Node {
		if !isInt {
			return seqSlice(seqOf(a[0]), a[1].lin, linN64(size))
		}
		var bs []*Node
		for i := int64(0); i < size; i++ {
			k := i
			if o == "be" {
				k = size - 1 - i
			}
			bs = append(bs, seqIndex(seqOf(a[0]), linAddI(a[1].lin, bi(k)), matFor(nil)))
		}
		return apply(func(b []*Node) *Node {
			l := linC(b0)
			for i, x := range b {
				l = linAdd(l, linScale(x.lin, pow2(uint(8*i))))
			}
			return wrapL(l, dt)
		}, bs...)
	}, data, pos)
	old := c.fr.load(dst.kids[0], dt, c.st)
	c.fr.store(dst.kids[0], ite(short, old, val), dt, c.st)
	nw := apply(func(a []*Node) *Node {
		return ite(ltL(seqOf(a[0]).length(), linAddI(a[1].lin, bi(size))), mkInt(seqOf(a[0]).length()), mkInt(linAddI(a[1].lin, bi(size))))
	}, data, pos)
	fs := append([]*Node(nil), rd.kids...)
	fs[1] = nw
	c.fr.store(p, mkAgg(rd.names, fs), rt, c.st)
	return ite(short, nErr, nNil)
}

// sortModel: the slice content becomes sorted(content, less).
func sortModel(c *call, x, less *Node) {
	var t types.Type
	for _, lf := range leavesOf(x) {
		switch {
		case lf.lk == LDead || lf.lk == LPanic:
		case lf.lk != LIface || t != nil && !types.Identical(t, lf.typ):
			failf("sort of %s", x)
		default:
			t = lf.typ
		}
	}
	if t == nil {
		failf("sort of %s", x)
	}
	sl := apply1(x, func(n *Node) *Node {
		if n.lk == LIface {
			return n.kids[0]
		}
		return n
	})
	for _, lf := range leavesOf(sl) {
		if lf.lk != LSlice && lf.lk != LNil {
			failf("sort of %s", lf)
		}
	}
	// the order relation on two symbolic elements
	et := elemType(t)
	if et == nil {
		failf("sort of %s", t)
	}
	pa := mkAtomT("in", nil, nil, types.NewSlice(et), "sort.operands")
	s2 := c.st.clone()
	probe := mkSlice(opaqueSliceObj(pa, t), nil, linC(b0), linN64(2))
	var rel *Node
	if less == nil {
		m := c.en.prog.LookupMethod(t, nil, "Less")
		rel = c.fr.callFn(m, nil, []*Node{probe, mkI(0), mkI(1)}, s2, c.pos)
	} else {
		// closure over the slice variable: evaluated with the content replaced
		o := sl
		if o.lk != LSlice {
			return
		}
		s2.h[o.obj] = s2.get(opaqueSliceObj(pa, t))
		f := less
		rel = c.fr.callFn(f.fn, f.kids, []*Node{mkI(0), mkI(1)}, s2, c.pos)
	}
	relI := boolInt(rel)
	for _, lf := range leavesOf(sl) {
		if lf.lk != LSlice {
			continue
		}
		content := c.fr.freeze(lf, c.st)
		nw := apply(func(a []*Node) *Node {
			s := seqOf(a[0])
			at := mkAtomT("app", nil, nil, types.NewSlice(et), "sorted", 0, mkSeqV(s, false), a[1])
			return mkSeqV(winSeq(s.kind, at, linC(b0), s.length()), false)
		}, content, relLeaf(relI))
		writeSlice(c, lf, nw)
	}
}

// scanConst: TrimRight, IndexByte and friends over a sequence of constant
// length are the decisions of the scan.
func scanConst(name string, resT types.Type, a []*Node) *Node {
	if len(a) != 2 || a[0].k != NLeaf || a[1].k != NLeaf || a[0].lk != LStr && a[0].lk != LSeqV {
		return nil
	}
	s := a[0].seq
	n := s.length()
	if !n.isConst() || n.k.Cmp(bi(64)) > 0 {
		return nil
	}
	ch := int64(-1)
	switch {
	case a[1].lk == LInt && a[1].lin.isConst():
		ch = a[1].lin.k.Int64()
	case a[1].lk == LStr || a[1].lk == LSeqV:
		if l, ok := a[1].seq.lit(); ok && len(l) == 1 {
			ch = int64(l[0])
		}
	}
	if ch < 0 || ch > 255 {
		return nil
	}
	is := func(i int64) *Node {
		return apply(func(b []*Node) *Node { return eqL(b[0].lin, linN64(ch)) }, seqIndex(s, linN64(i), matFor(nil)))
	}
	cut := func(from, to int64) *Node {
		r := seqSlice(s, linN64(from), linN64(to-from))
		if a[0].lk == LStr {
			return toStr(r)
		}
		return r
	}
	c := n.k.Int64()
	switch name {
	case "str:TrimRight":
		for k := c - 1; k >= 0; k-- {
			is(k) // fixes the order of the decisions
		}
		r := cut(0, 0)
		for k := int64(1); k <= c; k++ {
			r = ite(is(k-1), r, cut(0, k))
		}
		return r
	case "str:TrimLeft":
		if a[0].lk != LStr {
			return nil
		}
		r := cut(c, c)
		for k := c - 1; k >= 0; k-- {
			r = ite(is(k), r, cut(k, c))
		}
		return r
	case "str:IndexByte", "str:Index", "str:IndexAny":
		r := mkI(-1)
		for k := c - 1; k >= 0; k-- {
			r = ite(is(k), mkI(k), r)
		}
		return r
	case "str:LastIndexByte", "str:LastIndex":
		r := mkI(-1)
		for k := int64(0); k < c; k++ {
			r = ite(is(k), mkI(k), r)
		}
		return r
	}
	return nil
}

// relLeaf packs a decision into a leaf so that it can be an argument.
func relLeaf(n *Node) *Node {
	return mkOpq(mkAtom("rel", nil, nil, n), nil)
}
