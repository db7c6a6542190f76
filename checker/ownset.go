package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Adding to a GTID set never writes to memory that belongs to the set it was
// added to: not to its map or its lists, and not to the spare capacity behind
// a list (which another set derived from it may be using). Forward value flow
// from the receiver, through calls inside the module.

const (
	tOld    = 1 // may be memory of the receiver
	tCapped = 2 // the same, but without spare capacity
)

type owner struct {
	c     *Ctx
	prop  string
	set   string
	sites int
	depth int
	memo  map[string]int
	busy  map[string]bool
}

type ownFrame struct {
	o      *owner
	f      *ssa.Function
	args   []int
	frees  map[*ssa.FreeVar]int
	val    map[ssa.Value]int
	result int
}

func (c *Ctx) ownedSets(prop string, types ...string) {
	for _, t := range types {
		f := c.w.fn(repoRepl, t+".AddGTID")
		o := &owner{c: c, prop: prop, set: t, memo: map[string]int{}, busy: map[string]bool{}}
		args := make([]int, len(f.Params))
		args[0] = tOld
		o.call(f, args, nil)
		c.counts["writes"] += o.sites
		c.logf("%s.AddGTID: %d writes looked at", t, o.sites)
	}
}

func (o *owner) call(f *ssa.Function, args []int, frees map[*ssa.FreeVar]int) int {
	key := f.String()
	for _, a := range args {
		key += string(rune('0' + a))
	}
	if r, ok := o.memo[key]; ok && frees == nil {
		return r
	}
	if o.busy[key] {
		return tOld // recursion
	}
	o.busy[key] = true
	defer delete(o.busy, key)
	fr := &ownFrame{o: o, f: f, args: args, frees: frees, val: map[ssa.Value]int{}}
	for ch := true; ch; {
		ch = fr.pass(false)
	}
	fr.pass(true)
	o.memo[key] = fr.result
	return fr.result
}

func (fr *ownFrame) get(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range fr.f.Params {
			if p == v && i < len(fr.args) {
				return fr.args[i]
			}
		}
		return 0
	case *ssa.FreeVar:
		return fr.frees[v]
	}
	return fr.val[v]
}

func (fr *ownFrame) pass(report bool) bool {
	ch := false
	set := func(v ssa.Value, t int) {
		if fr.val[v]|t != fr.val[v] {
			fr.val[v] |= t
			ch = true
		}
	}
	bad := func(in ssa.Instruction, what string) {
		if report {
			fr.o.c.report(fr.o.prop, "ownership of sets", fr.o.c.pos(in.Pos()), "%s.AddGTID %s", fr.o.set, what)
		}
	}
	count := func() {
		if report {
			fr.o.sites++
		}
	}
	for _, b := range fr.f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				for _, e := range in.Edges {
					set(in, fr.get(e))
				}
			case *ssa.ChangeType:
				set(in, fr.get(in.X))
			case *ssa.ChangeInterface:
				set(in, fr.get(in.X))
			case *ssa.MakeInterface:
				set(in, fr.get(in.X))
			case *ssa.TypeAssert:
				set(in, fr.get(in.X))
			case *ssa.Extract:
				if refs(in.Type(), map[string]bool{}) {
					set(in, fr.get(in.Tuple))
				}
			case *ssa.Slice:
				t := fr.get(in.X)
				if in.Max != nil && t != 0 && in.High != nil && sameValue(in.Max, in.High) {
					t = tCapped
				}
				set(in, t)
			case *ssa.IndexAddr:
				set(in, fr.get(in.X))
			case *ssa.FieldAddr:
				set(in, fr.get(in.X))
			case *ssa.Field:
				set(in, fr.get(in.X))
			case *ssa.Index:
				set(in, fr.get(in.X))
			case *ssa.Range:
				set(in, fr.get(in.X))
			case *ssa.Next:
				set(in, fr.get(in.Iter))
			case *ssa.Lookup:
				if refs(in.Type(), map[string]bool{}) || in.CommaOk {
					set(in, fr.get(in.X)&tOld)
					// what was put into a map made here, under a key that may be this one
					for _, u := range updates(fr.f, in.X) {
						if !differentKey(u, in.Index, in.Block()) {
							set(in, fr.get(u.Value))
						}
					}
				}
			case *ssa.UnOp:
				if in.Op != token.MUL || !refs(in.Type(), map[string]bool{}) {
					continue
				}
				set(in, fr.get(in.X))
				// the contents of a local variable
				if a := rootAlloc(in.X); a != nil {
					for _, s := range storesTo(fr.f, a) {
						set(in, fr.get(s.Val))
					}
				}
			case *ssa.Store:
				count()
				if fr.get(in.Addr) != 0 {
					bad(in, "writes to memory of the set it was added to")
				}
			case *ssa.MapUpdate:
				count()
				if fr.get(in.Map) != 0 {
					bad(in, "changes the map of the set it was added to")
				}
			case *ssa.MakeClosure:
				fs := map[*ssa.FreeVar]int{}
				any := 0
				f := in.Fn.(*ssa.Function)
				for i, bd := range in.Bindings {
					t := fr.get(bd)
					if a, ok := bd.(*ssa.Alloc); ok {
						for _, s := range storesTo(fr.f, a) {
							t |= fr.get(s.Val)
						}
					}
					fs[f.FreeVars[i]] = t
					any |= t
				}
				if report && any != 0 {
					fr.o.call(f, make([]int, len(f.Params)), fs)
				}
			case *ssa.Return:
				for _, r := range in.Results {
					if t := fr.get(r); t|fr.result != fr.result {
						fr.result |= t
						ch = true
					}
				}
			case ssa.CallInstruction:
				fr.callIn(in, set, bad, count, report)
			}
		}
	}
	return ch
}

func (fr *ownFrame) callIn(in ssa.CallInstruction, set func(ssa.Value, int), bad func(ssa.Instruction, string), count func(), report bool) {
	cc := in.Common()
	val, _ := in.(ssa.Value)
	args := cc.Args
	if bi, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		switch bi.Name() {
		case "append":
			count()
			if fr.get(args[0])&tOld != 0 {
				bad(in, "appends to a list of the set it was added to")
			}
			// the elements are copied; a list of references shares what they point to
			if len(args) > 1 && refs(args[1].Type().Underlying().(interface{ Elem() types.Type }).Elem(), map[string]bool{}) {
				set(val, fr.get(args[1]))
			}
		case "copy", "delete", "clear":
			count()
			if fr.get(args[0]) != 0 {
				bad(in, bi.Name()+" on memory of the set it was added to")
			}
		}
		return
	}
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	ts := make([]int, len(args))
	any := 0
	for i, a := range args {
		ts[i] = fr.get(a)
		any |= ts[i]
	}
	if any == 0 {
		return
	}
	var fs []*ssa.Function
	if f := cc.StaticCallee(); f != nil {
		fs = append(fs, f)
	} else if cc.IsInvoke() {
		fs = fr.o.c.implementers()(cc)
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fs = append(fs, mc.Fn.(*ssa.Function))
	}
	res := 0
	for _, f := range fs {
		p := ""
		if f.Pkg != nil {
			p = f.Pkg.Pkg.Path()
		} else if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			p = ob.Pkg().Path()
		}
		if (p == repoRoot || p == repoRepl || f.Parent() != nil) && len(f.Blocks) > 0 {
			if fr.o.depth > 12 {
				continue
			}
			fr.o.depth++
			res |= fr.o.call(f, ts, nil)
			fr.o.depth--
			continue
		}
		if p == "sort" || p == "slices" {
			switch f.Name() {
			case "Search", "SearchInts", "BinarySearch", "BinarySearchFunc", "IsSorted", "SliceIsSorted", "Equal", "EqualFunc", "Index", "IndexFunc", "Contains", "ContainsFunc", "Compare", "Clone":
			case "Sort", "Slice", "Stable", "SliceStable", "Reverse", "SortFunc", "SortStableFunc":
				count()
				bad(in, "sorts memory of the set it was added to")
			default:
				count()
				bad(in, "passes memory of the set it was added to to "+f.String())
			}
		}
	}
	if val != nil && res != 0 {
		set(val, res)
	}
}

// updates: the updates of the map v, made in the same function.
func updates(f *ssa.Function, v ssa.Value) (out []*ssa.MapUpdate) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && mayBeSame(u.Map, v, 0) {
				out = append(out, u)
			}
		}
	}
	return
}

func mayBeSame(a, b ssa.Value, d int) bool {
	ra, rb := mapRoots(a, map[ssa.Value]bool{}), mapRoots(b, map[ssa.Value]bool{})
	for x := range ra {
		if rb[x] {
			return true
		}
	}
	return false
}

func mapRoots(v ssa.Value, seen map[ssa.Value]bool) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	if seen[v] {
		return out
	}
	seen[v] = true
	add := func(w ssa.Value) {
		for x := range mapRoots(w, seen) {
			out[x] = true
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(e)
		}
	case *ssa.ChangeType:
		add(x.X)
	case *ssa.UnOp:
		if a := rootAlloc(x.X); a != nil {
			for _, s := range storesTo(x.Parent(), a) {
				add(s.Val)
			}
			return out
		}
		out[v] = true
	default:
		out[v] = true
	}
	return out
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func storesTo(f *ssa.Function, a *ssa.Alloc) (out []*ssa.Store) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && rootAlloc(s.Addr) == a {
				out = append(out, s)
			}
		}
	}
	return
}

// sameValue: the same register, or two reads of the same unchanged place.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameValue(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != token.MUL || y.Op != token.MUL || !samePlace(x.X, y.X) {
			return false
		}
		// stored to once
		r := rootAlloc(x.X)
		return r != nil && len(storesTo(x.Parent(), r)) <= 1
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		bx, ok1 := x.Call.Value.(*ssa.Builtin)
		by, ok2 := y.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && bx.Name() == "len" && by.Name() == "len" && sameValue(x.Call.Args[0], y.Call.Args[0])
	}
	return false
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && samePlace(x.X, y.X)
}

// differentKey: the update is only reached when its key differs from key.
func differentKey(u *ssa.MapUpdate, key ssa.Value, at *ssa.BasicBlock) bool {
	for _, b := range u.Parent().Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.EQL && c.Op != token.NEQ {
			continue
		}
		if !(sameValue(c.X, u.Key) && sameValue(c.Y, key) || sameValue(c.Y, u.Key) && sameValue(c.X, key)) {
			continue
		}
		s := b.Succs[1]
		if c.Op == token.NEQ {
			s = b.Succs[0]
		}
		if s.Dominates(u.Block()) && len(s.Preds) == 1 {
			return true
		}
	}
	return false
}
