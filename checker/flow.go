package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where the references in a delivered transaction come from: backward value
// flow over the SSA form of the module, through calls, fields (by field),
// elements (by type), channels and closures.

type source struct {
	kind string // fresh, global, driver, library, input, unknown
	v    ssa.Value
}

type flow struct {
	c      *Ctx
	fns    []*ssa.Function
	stores map[string][]ssa.Value // what is stored, by place
	calls  map[*ssa.Function][]ssa.CallInstruction
	impls  func(*ssa.CallCommon) []*ssa.Function
	binds  map[*ssa.FreeVar][]ssa.Value
	memo   map[ssa.Value]map[source]bool
}

func (c *Ctx) flow() *flow {
	a := &flow{c: c, stores: map[string][]ssa.Value{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, impls: c.implementers(), binds: map[*ssa.FreeVar][]ssa.Value{}}
	roots := c.exported()
	if pk := c.w.pk[repoRepl]; pk != nil {
		for _, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok && token.IsExported(f.Name()) {
				roots = append(roots, f)
			}
			if f, ok := m.(*ssa.Function); ok && f.Name() == "init" {
				roots = append(roots, f)
			}
		}
	}
	roots = append(roots, c.parseFunc(), c.w.pk[repoRoot].Func("init"))
	for f := range c.reach(roots...) {
		if strings.HasPrefix(c.w.fset.Position(f.Pos()).Filename, repoDir+"/zz_verif_") {
			continue
		}
		a.fns = append(a.fns, f)
	}
	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].String() < a.fns[j].String() })
	put := func(k string, v ssa.Value) {
		if k != "" {
			a.stores[k] = append(a.stores[k], v)
		}
	}
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					put(place(in.Addr), in.Val)
				case *ssa.MapUpdate:
					put("map "+typeKey(in.Map.Type()), in.Value)
					put("key "+typeKey(in.Map.Type()), in.Key)
				case *ssa.Send:
					put("chan "+typeKey(in.X.Type()), in.X)
				case *ssa.Select:
					for _, s := range in.States {
						if s.Send != nil {
							put("chan "+typeKey(s.Send.Type()), s.Send)
						}
					}
				case *ssa.MakeClosure:
					g := in.Fn.(*ssa.Function)
					for i, fv := range g.FreeVars {
						a.binds[fv] = append(a.binds[fv], in.Bindings[i])
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range a.callees(ci.Common()) {
						a.calls[g] = append(a.calls[g], ci)
					}
				}
			}
		}
	}
	return a
}

func (a *flow) callees(cc *ssa.CallCommon) (out []*ssa.Function) {
	if cc.IsInvoke() {
		return a.impls(cc)
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.Builtin:
		return nil
	}
	// any function of the module with this signature whose value is taken
	for _, f := range a.fns {
		if f.Parent() != nil && types.Identical(f.Signature, cc.Value.Type().Underlying()) {
			out = append(out, f)
		}
	}
	return
}

// place names what an address stands for.
func place(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		t := deref(x.X.Type())
		return "field " + typeKey(t) + "." + t.Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		return "elem " + typeKey(deref(x.Type()))
	case *ssa.Global:
		return "global " + x.String()
	case *ssa.Alloc:
		return fmt.Sprintf("cell %p", x)
	case *ssa.FreeVar:
		return "deref " + typeKey(deref(x.Type()))
	}
	return "deref " + typeKey(deref(addr.Type()))
}

// refs: a value of type t can give access to bytes.
func refs(t types.Type, seen map[string]bool) bool {
	k := typeKey(t)
	if seen[k] {
		return false
	}
	seen[k] = true
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Byte || b.Kind() == types.Uint8
		}
		return refs(u.Elem(), seen)
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Byte || b.Kind() == types.Uint8
		}
		return refs(u.Elem(), seen)
	case *types.Pointer:
		return refs(u.Elem(), seen)
	case *types.Map:
		return refs(u.Elem(), seen)
	case *types.Chan:
		return refs(u.Elem(), seen)
	case *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// sources: where v comes from.
func (a *flow) sources(v ssa.Value, out map[source]bool, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	if !refs(v.Type(), map[string]bool{}) {
		if _, ok := v.(*ssa.Extract); !ok {
			return
		}
	}
	add := func(k string) { out[source{k, v}] = true }
	stored := func(k string) {
		for _, w := range a.stores[k] {
			a.sources(w, out, seen)
		}
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.sources(e, out, seen)
		}
	case *ssa.ChangeType:
		a.sources(x.X, out, seen)
	case *ssa.ChangeInterface:
		a.sources(x.X, out, seen)
	case *ssa.MakeInterface:
		a.sources(x.X, out, seen)
	case *ssa.TypeAssert:
		a.sources(x.X, out, seen)
	case *ssa.Slice:
		a.sources(x.X, out, seen)
	case *ssa.SliceToArrayPointer:
		a.sources(x.X, out, seen)
	case *ssa.Convert:
		if refs(x.X.Type(), map[string]bool{}) {
			a.sources(x.X, out, seen)
		} else {
			add("fresh")
		}
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc, *ssa.MakeChan, *ssa.MakeClosure:
		add("fresh")
	case *ssa.Global:
		add("global")
	case *ssa.FieldAddr:
		a.sources(x.X, out, seen)
	case *ssa.IndexAddr:
		a.sources(x.X, out, seen)
	case *ssa.Field:
		t := x.X.Type()
		stored("field " + typeKey(t) + "." + t.Underlying().(*types.Struct).Field(x.Field).Name())
		a.sources(x.X, out, seen)
	case *ssa.Index:
		a.sources(x.X, out, seen)
	case *ssa.Lookup:
		stored("map " + typeKey(x.X.Type()))
	case *ssa.Next:
		r := x.Iter.(*ssa.Range)
		stored("map " + typeKey(r.X.Type()))
		stored("key " + typeKey(r.X.Type()))
	case *ssa.Range:
	case *ssa.Select:
		for _, s := range x.States {
			if s.Send == nil {
				stored("chan " + typeKey(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.ARROW:
			stored("chan " + typeKey(x.X.Type().Underlying().(*types.Chan).Elem()))
		case token.MUL:
			switch p := x.X.(type) {
			case *ssa.Global:
				add("global")
			case *ssa.FieldAddr, *ssa.IndexAddr:
				stored(place(p))
				// of a package-level table
				if g := rootGlobal(p); g != nil {
					add("global")
				}
			case *ssa.Alloc:
				stored(place(p))
				stored("deref " + typeKey(x.Type()))
			case *ssa.FreeVar:
				for _, b := range a.binds[p] {
					stored(place(b))
				}
				stored(place(p))
			default:
				stored(place(p))
				a.sources(p, out, seen)
			}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			a.call(t, x.Index, out, seen)
		case *ssa.Lookup, *ssa.TypeAssert, *ssa.Next, *ssa.Select, *ssa.UnOp:
			if !refs(v.Type(), map[string]bool{}) {
				return
			}
			a.sources(x.Tuple, out, seen)
		default:
			add("unknown")
		}
	case *ssa.Call:
		a.call(x, -1, out, seen)
	case *ssa.Parameter:
		f := x.Parent()
		i := 0
		for j, p := range f.Params {
			if p == x {
				i = j
			}
		}
		cs := a.calls[f]
		if len(cs) == 0 {
			add("input")
		}
		for _, ci := range cs {
			args := ci.Common().Args
			if ci.Common().IsInvoke() {
				args = append([]ssa.Value{ci.Common().Value}, args...)
			}
			if i < len(args) {
				a.sources(args[i], out, seen)
			}
		}
	case *ssa.FreeVar:
		for _, b := range a.binds[x] {
			a.sources(b, out, seen)
		}
	default:
		add("unknown")
	}
}

func (a *flow) call(x *ssa.Call, idx int, out map[source]bool, seen map[ssa.Value]bool) {
	cc := x.Common()
	var t types.Type = x.Type()
	if tup, ok := t.(*types.Tuple); ok {
		if idx < 0 || idx >= tup.Len() {
			return
		}
		t = tup.At(idx).Type()
	}
	if !refs(t, map[string]bool{}) || isErrorType(t) {
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		if b.Name() == "append" {
			out[source{"fresh", x}] = true
			a.sources(cc.Args[0], out, seen)
		} else if b.Name() == "ssa:wrapnilchk" {
			a.sources(cc.Args[0], out, seen)
		} else {
			out[source{"unknown", x}] = true
		}
		return
	}
	fs := a.callees(cc)
	known := len(fs) > 0
	for _, f := range fs {
		if !a.mine(f) {
			known = false
			continue
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				i := idx
				if i < 0 {
					i = 0
				}
				a.sources(r.Results[i], out, seen)
			}
		}
	}
	if known {
		return
	}
	k := "library"
	pkg := ""
	if cc.IsInvoke() {
		if p := cc.Method.Pkg(); p != nil {
			pkg = p.Path()
		}
		if n, ok := cc.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
	} else if f := cc.StaticCallee(); f != nil {
		if f.Pkg != nil {
			pkg = f.Pkg.Pkg.Path()
		} else if o := f.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		}
	}
	switch {
	case strings.HasPrefix(pkg, driverPkg):
		k = "driver"
	case cc.IsInvoke() && (pkg == repoRoot || pkg == repoRepl):
		k = "driver" // an implementation outside of the module
	case pkg == repoRoot || pkg == repoRepl || pkg == "":
		k = "unknown"
	}
	out[source{k, x}] = true
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for _, w := range args {
		a.sources(w, out, seen)
	}
}

func (a *flow) mine(f *ssa.Function) bool {
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		p = o.Pkg().Path()
	}
	return (p == repoRoot || p == repoRepl || f.Parent() != nil) && len(f.Blocks) > 0
}

// delivered: the named structs of the module that make up a transaction.
func (c *Ctx) deliveredStructs() map[string]*types.Named {
	out := map[string]*types.Named{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch u := t.(type) {
		case *types.Named:
			if st, ok := u.Underlying().(*types.Struct); ok {
				if u.Obj().Pkg() == nil || u.Obj().Pkg().Path() != repoRoot && u.Obj().Pkg().Path() != repoRepl {
					return
				}
				if out[typeKey(u)] != nil {
					return
				}
				out[typeKey(u)] = u
				for i := 0; i < st.NumFields(); i++ {
					walk(st.Field(i).Type())
				}
				return
			}
			walk(u.Underlying())
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			walk(u.Elem())
		}
	}
	walk(c.w.pk[repoRoot].Pkg.Scope().Lookup("Transaction").Type())
	return out
}

// dataFlow: the references stored in a transaction.
func dataFlow(prop string, c *Ctx) {
	a := c.flow()
	ds := c.deliveredStructs()
	var keys []string
	for k := range ds {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	n := 0
	for _, k := range keys {
		st := ds[k].Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if !refs(ft, map[string]bool{}) {
				continue
			}
			name := ds[k].Obj().Name() + "." + st.Field(i).Name()
			if _, ok := ft.Underlying().(*types.Interface); ok {
				c.report(prop, "delivered data", "", "undecided: %s is an interface", name)
			}
			for _, v := range a.stores["field "+k+"."+st.Field(i).Name()] {
				n++
				a.judge(prop, name, v)
			}
		}
	}
	for _, k := range keys {
		for _, t := range []string{k, "*" + k} {
			for _, v := range a.stores["elem "+t] {
				n++
				a.judge(prop, "an element "+ds[k].Obj().Name(), v)
			}
		}
	}
	c.counts["reference stores"] += n
	c.counts["obligations"] += n
	a.unsafeUses(prop)
	a.once(prop, ds)
	c.logf("delivered data: %d stores of references", n)
}

func (a *flow) judge(prop, name string, v ssa.Value) {
	out := map[source]bool{}
	a.sources(v, out, map[ssa.Value]bool{})
	var ss []source
	for s := range out {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].v.Pos() < ss[j].v.Pos() })
	for _, s := range ss {
		a.c.counts["sources"]++
		where := a.c.pos(s.v.Pos())
		switch s.kind {
		case "global":
			a.c.report(prop, "delivered data", where, "%s can refer to package-level memory (%s)", name, s.v)
		case "driver":
			a.c.report(prop, "delivered data", where, "%s can refer to memory of another owner (%s)", name, s.v)
		case "unknown":
			a.c.report(prop, "delivered data", where, "undecided: %s can come from %s", name, s.v)
		}
	}
}

// unsafeUses: strings are as immutable as the language says.
func (a *flow) unsafeUses(prop string) {
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a.c.counts["instructions without unsafe"]++
				if v, ok := in.(ssa.Value); ok {
					if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						a.c.report(prop, "unsafe", a.c.pos(in.Pos()), "%s uses unsafe pointers", f)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "String", "StringData", "Slice", "SliceData", "Add":
							a.c.report(prop, "unsafe", a.c.pos(in.Pos()), "%s uses unsafe.%s", f, bi.Name())
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- stored once

// once: a reference that becomes part of a transaction is stored there once.
func (a *flow) once(prop string, ds map[string]*types.Named) {
	inner := func(t types.Type) bool { // the parts below an event
		for k, d := range ds {
			if n := d.Obj().Name(); n == "Transaction" {
				continue
			}
			if typeKey(t) == k {
				return true
			}
		}
		return false
	}
	type use struct {
		at   ssa.Instruction
		name string
	}
	uses := map[ssa.Instruction][]use{}
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || !refs(s.Val.Type(), map[string]bool{}) {
					continue
				}
				var base ssa.Value
				name := ""
				switch x := s.Addr.(type) {
				case *ssa.FieldAddr:
					t := deref(x.X.Type())
					if !inner(t) {
						continue
					}
					base = x.X
					name = t.(*types.Named).Obj().Name() + "." + t.Underlying().(*types.Struct).Field(x.Field).Name()
				case *ssa.IndexAddr:
					if p, ok := deref(x.Type()).Underlying().(*types.Pointer); !ok || !inner(p.Elem()) {
						continue
					}
					base = x.X
					name = "an element"
				default:
					continue
				}
				a.c.counts["single stores"]++
				a.c.counts["obligations"]++
				w := &walkUp{a: a, prop: prop, name: name, store: s, base: base, seen: map[upKey]bool{}}
				w.up(s.Val, s, loopsAt(a, s, base))
				for _, o := range w.origins {
					uses[o.def] = append(uses[o.def], use{o.at, name})
				}
			}
		}
	}
	for def, us := range uses {
		for i, u := range us {
			for j, v := range us {
				if i != j && u.at != v.at && u.at.Parent() == v.at.Parent() && follows(u.at, v.at, def) {
					a.c.report(prop, "stored once", a.c.pos(v.at.Pos()), "what becomes %s here has become %s before", v.name, u.name)
				}
			}
		}
	}
}

type upKey struct {
	v  ssa.Value
	at ssa.Instruction
}

type originAt struct{ def, at ssa.Instruction }

type walkUp struct {
	a       *flow
	prop    string
	name    string
	store   *ssa.Store
	base    ssa.Value
	seen    map[upKey]bool
	origins []originAt
}

func (w *walkUp) bad(pos token.Pos, f string, args ...any) {
	if !pos.IsValid() {
		pos = w.store.Pos()
	}
	w.a.c.report(w.prop, "stored once", w.a.c.pos(pos), f, args...)
}

// loopsAt: the loops around at that also contain the making of base.
func loopsAt(a *flow, at ssa.Instruction, base ssa.Value) map[*natLoop]bool {
	out := map[*natLoop]bool{}
	var bb *ssa.BasicBlock
	if _, ok := base.(dummyBase); ok {
		bb = at.Block()
	} else if d, ok := base.(ssa.Instruction); ok {
		bb = d.Block()
	}
	en := newEngine(a.c.w)
	for _, l := range en.loopsOf(at.Parent()).loops {
		if bb != nil && l.blocks[at.Block()] && l.blocks[bb] {
			out[l] = true
		}
	}
	return out
}

// up: v is used by at, which is executed once per round of loops.
func (w *walkUp) up(v ssa.Value, at ssa.Instruction, loops map[*natLoop]bool) {
	k := upKey{v, at}
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	origin := func(d ssa.Instruction) {
		for l := range loops {
			if !l.blocks[d.Block()] {
				w.bad(at.Pos(), "%s gets in every round of a loop what is made once (%s)", w.name, v)
			}
		}
		w.origins = append(w.origins, originAt{d, at})
	}
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.Phi:
		for i, e := range x.Edges {
			for l := range loops {
				if l.header == x.Block() && l.blocks[x.Block().Preds[i]] {
					if c, ok := e.(*ssa.Const); !ok || !c.IsNil() {
						if e != v {
							w.bad(at.Pos(), "%s can get what an earlier round of the loop made (%s)", w.name, x.Comment)
						}
					}
				}
			}
			w.up(e, at, loops)
		}
	case *ssa.ChangeType:
		w.up(x.X, at, loops)
	case *ssa.MakeInterface:
		w.up(x.X, at, loops)
	case *ssa.TypeAssert:
		w.up(x.X, at, loops)
	case *ssa.Slice:
		w.up(x.X, at, loops)
	case *ssa.Convert:
		origin(x)
	case *ssa.MakeSlice:
		origin(x)
	case *ssa.Alloc:
		origin(x)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			w.call(c, x.Index, at, loops, origin)
		} else {
			w.bad(x.Pos(), "%s is stored a second time: it is read from %s", w.name, x.Tuple)
		}
	case *ssa.Call:
		w.call(x, 0, at, loops, origin)
	case *ssa.Parameter:
		f := x.Parent()
		if len(loops) > 0 {
			w.bad(at.Pos(), "%s gets the same parameter in every round of a loop", w.name)
		}
		i := 0
		for j, p := range f.Params {
			if p == x {
				i = j
			}
		}
		for _, ci := range w.a.calls[f] {
			args := ci.Common().Args
			if ci.Common().IsInvoke() {
				args = append([]ssa.Value{ci.Common().Value}, args...)
			}
			in := ci.(ssa.Instruction)
			// what the callee builds may be part of what the caller holds
			bb := w.carrier(f, args)
			if i < len(args) {
				w.up(args[i], in, loopsAt(w.a, in, bb))
			}
		}
	case *ssa.FreeVar:
		for _, b := range w.a.binds[x] {
			if in, ok := b.(ssa.Instruction); ok {
				w.origins = append(w.origins, originAt{in, at})
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			w.bad(x.Pos(), "%s is stored a second time: it is received from a channel", w.name)
			return
		}
		switch p := x.X.(type) {
		case *ssa.FieldAddr:
			// the same place, extended
			if fa, ok := w.store.Addr.(*ssa.FieldAddr); ok && at == ssa.Instruction(w.store) && fa.Field == p.Field && samePtr(fa.X, p.X) {
				return
			}
			w.bad(x.Pos(), "%s is stored a second time: it is read from %s", w.name, shortPlace(p))
		case *ssa.IndexAddr, *ssa.Global:
			w.bad(x.Pos(), "%s is stored a second time: it is read from %s", w.name, shortPlace(p))
		case *ssa.Alloc, *ssa.FreeVar:
			cell := p
			var vals []ssa.Value
			if fv, ok := p.(*ssa.FreeVar); ok {
				for _, b := range w.a.binds[fv] {
					vals = append(vals, w.a.stores[place(b)]...)
				}
				vals = append(vals, w.a.stores[place(cell)]...)
			} else {
				vals = w.a.stores[place(cell)]
			}
			for _, s := range vals {
				w.up(s, at, loops)
			}
		default:
			w.bad(x.Pos(), "%s is stored a second time: it is read through %s", w.name, p)
		}
	case *ssa.Lookup:
		w.bad(x.Pos(), "%s is stored a second time: it is read from a map", w.name)
	default:
		w.bad(v.Pos(), "undecided: %s can come from %s", w.name, v)
	}
}

// carrier: the argument the store's base comes from, nil if it is made in f.
func (w *walkUp) carrier(f *ssa.Function, args []ssa.Value) ssa.Value {
	b := w.base
	for {
		switch x := b.(type) {
		case *ssa.FieldAddr:
			b = x.X
			continue
		case *ssa.UnOp:
			b = x.X
			continue
		case *ssa.Parameter:
			for j, p := range f.Params {
				if p == x && j < len(args) {
					return args[j]
				}
			}
		}
		break
	}
	// made by this very call
	return dummyBase{}
}

// dummyBase stands for something made anew where it is used.
type dummyBase struct{ ssa.Value }

func (w *walkUp) call(c *ssa.Call, idx int, at ssa.Instruction, loops map[*natLoop]bool, origin func(ssa.Instruction)) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			origin(c)
			w.up(c.Call.Args[0], at, loops)
			return
		}
	}
	origin(c)
	for _, f := range w.a.callees(&c.Call) {
		if !w.a.mine(f) {
			continue
		}
		// what is returned was given: follow it
		for _, i := range w.a.passes(f, idx) {
			args := c.Call.Args
			if c.Call.IsInvoke() {
				args = append([]ssa.Value{c.Call.Value}, args...)
			}
			if i < len(args) && types.Identical(args[i].Type(), f.Signature.Results().At(idx).Type()) {
				if b, ok := args[i].Type().Underlying().(*types.Slice); ok && isByteT(b.Elem()) && f.Name() == "CellBytes" {
					continue // windows that do not overlap: C09
				}
				w.up(args[i], at, loops)
			}
		}
		// or read from somewhere
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				v := r.Results[idx]
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					switch p := u.X.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
						w.bad(u.Pos(), "%s is stored a second time: it is read from %s", w.name, shortPlace(p))
					}
				}
				if _, ok := v.(*ssa.Lookup); ok {
					w.bad(v.Pos(), "%s is stored a second time: it is read from a map", w.name)
				}
			}
		}
	}
}

// passes: the parameters that f returns as result idx.
func (a *flow) passes(f *ssa.Function, idx int) (out []int) {
	seen := map[ssa.Value]bool{}
	var up func(v ssa.Value)
	up = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				up(e)
			}
		case *ssa.Slice:
			up(x.X)
		case *ssa.ChangeType:
			up(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				up(x.Call.Args[0])
			}
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == x {
					out = append(out, i)
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			up(r.Results[idx])
		}
	}
	return
}

func samePtr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && x.Op == token.MUL && y.Op == token.MUL && samePtr(x.X, y.X)
}

func shortPlace(v ssa.Value) string {
	s := place(v)
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// follows: b can be executed after a without def in between.
func follows(a, b, def ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(bl *ssa.BasicBlock, from int) bool
	walk = func(bl *ssa.BasicBlock, from int) bool {
		for i := from; i < len(bl.Instrs); i++ {
			if bl.Instrs[i] == b {
				return true
			}
			if bl.Instrs[i] == def {
				return false
			}
		}
		for _, s := range bl.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	bl := a.Block()
	for i, in := range bl.Instrs {
		if in == a {
			return walk(bl, i+1)
		}
	}
	return false
}
