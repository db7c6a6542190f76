package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the reader and the rest of the library share, and what a delivered
// transaction shares with anything else.

const driverPkg = "github.com/Breeze0806/mysql"

// runSession evaluates Stream and one step of its reader.
func (c *Ctx) runSession(prop, rule string) (*Engine, *goRec, bool) {
	resetTerms()
	en := newEngine(c.w)
	en.seen = c.funcs
	setupEngine(en, "session")
	sessionModels(c, en)
	f := c.w.pk[repoRoot].Func("I_C05_Left")
	var args []*Node
	for _, p := range f.Params {
		args = append(args, input(p.Name(), p.Type()))
	}
	curPhase = "impl"
	en.sess.watch = true
	if _, _, err := en.run(f, args); err != nil {
		c.report(prop, rule, c.pos(curPos), "undecided: %v", err)
		return nil, nil, false
	}
	if len(en.sess.goes) != 1 {
		c.report(prop, rule, "", "undecided: %d goroutines are started", len(en.sess.goes))
		return nil, nil, false
	}
	return en, en.sess.goes[0], true
}

// spot is a memory cell: a field of an object, or the object.
type spot struct {
	obj   *Obj
	field int
}

func (s spot) String() string {
	n := s.obj.name
	if st, ok := s.obj.typ.Underlying().(*types.Struct); ok && s.field >= 0 && s.field < st.NumFields() {
		t := s.obj.typ.String()
		return t[strings.LastIndexByte(t, '.')+1:] + "." + st.Field(s.field).Name()
	}
	return n
}

func spotOf(q *Node) spot {
	if len(q.path) > 0 && q.path[0].idx == nil {
		return spot{q.obj, q.path[0].field}
	}
	return spot{q.obj, -1}
}

func overlap(a, b spot) bool {
	return a.obj == b.obj && (a.field == b.field || a.field < 0 || b.field < 0)
}

// changes: the cells whose content differs between two states, of objects that
// exist since before id.
func changes(a, b *State, id int, skip map[*Obj]bool) (out []spot) {
	var objs []*Obj
	for o := range b.h {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		if o.id > id || skip[o] {
			continue
		}
		v := b.h[o]
		w := a.h[o]
		if w == nil {
			w = o.init
		}
		if w == nil || v == w {
			continue
		}
		if v.k == NAgg && w.k == NAgg && len(v.kids) == len(w.kids) {
			for i := range v.kids {
				if v.kids[i] != w.kids[i] {
					out = append(out, spot{o, i})
				}
			}
			continue
		}
		out = append(out, spot{o, -1})
	}
	return
}

func (s *session) cells() map[*Obj]bool {
	m := map[*Obj]bool{s.open: true, s.stuck: true, s.plain: true}
	for _, c := range s.chans {
		m[c.sent], m[c.val], m[c.drained], m[c.closed] = true, true, true, true
	}
	for _, o := range s.cancels {
		m[o] = true
	}
	for _, g := range s.goes {
		m[g.running] = true
	}
	return m
}

// races: nothing is accessed by the reader and by anyone else at the same time.
func races(prop string, c *Ctx) {
	const rule = "data race"
	en, g, ok := c.runSession(prop, rule)
	if !ok {
		return
	}
	skip := en.sess.cells()
	for _, o := range en.once {
		skip[o] = true
	}
	for _, o := range en.cells {
		skip[o] = true
	}
	// reader
	var rw []spot
	states := []*State{g.exitSt}
	if g.h.backSt != nil {
		states = append(states, g.h.backSt)
	}
	for _, st := range states {
		rw = append(rw, changes(g.endSt, st, g.objsAt, skip)...)
	}
	// everyone else, after the reader was started
	ow := changes(g.st, g.endSt, g.objsAt, skip)
	where := c.pos(g.pos)
	n := 0
	for _, w := range rw {
		for r := range en.sess.after {
			n++
			if overlap(w, r) {
				c.report(prop, rule, where, "%s is written by the goroutine started here and read by Stream", w)
			}
		}
		for _, x := range ow {
			n++
			if overlap(w, x) {
				c.report(prop, rule, where, "%s is written by the goroutine started here and by Stream", w)
			}
		}
		if w.obj.foreign || strings.HasSuffix(w.obj.typ.String(), ".Streamer") {
			c.report(prop, rule, where, "%s, which outlives Stream, is written by the goroutine started here", w)
		}
	}
	for r := range g.loadSpots {
		if r.obj.id > g.objsAt {
			continue
		}
		n++
		for _, x := range ow {
			if overlap(r, x) {
				c.report(prop, rule, where, "%s is read by the goroutine started here and written by Stream", r)
			}
		}
		if nm, ok := r.obj.typ.(*types.Named); ok && nm.Obj().Name() == "Streamer" {
			st := nm.Underlying().(*types.Struct)
			for f := range c.streamerStores() {
				if r.field < 0 || st.Field(r.field).Name() == f {
					c.report(prop, rule, where, "Streamer.%s is read by the goroutine started here and written while it runs", f)
				}
			}
		}
	}
	c.counts["shared cells"] += len(g.loadSpots) + len(rw) + len(ow)
	c.counts["obligations"] += n + 1
	// the driver is not safe for concurrent use
	for a := range en.sess.readerCalls {
		for b := range en.sess.otherCalls {
			c.counts["obligations"]++
			if f := c.driverConflict(a, b); f != "" {
				c.report(prop, fmt.Sprintf("driver race %s/%s", b, a), where,
					"DumpConn.%s (called by Stream) and DumpConn.%s (called by the goroutine started here) both access %s without synchronisation", b, a, f)
			}
		}
	}
	// one goroutine, and the handler is called by the parser alone
	c.handlerCalls(prop)
	c.logf("data races: %d cells read and %d written by the reader, %d written by Stream after its start", len(g.loadSpots), len(rw), len(ow))
}

// streamerStores: the fields of Streamer written by the parser.
func (c *Ctx) streamerStores() map[string]bool {
	out := map[string]bool{}
	for f := range c.reach(c.parseFunc()) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if nm, ok := deref(fa.X.Type()).(*types.Named); ok && nm.Obj().Name() == "Streamer" {
							out[nm.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
						}
					}
				}
			}
		}
	}
	return out
}

// reach: functions of the module reachable by static calls and closures.
func (c *Ctx) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	return reachIn(roots, func(f *ssa.Function) bool {
		p := ""
		if f.Pkg != nil {
			p = f.Pkg.Pkg.Path()
		} else if o := f.Object(); o != nil && o.Pkg() != nil {
			p = o.Pkg().Path()
		}
		return p == repoRoot || p == repoRepl || f.Parent() != nil
	}, c.implementers())
}

func reachIn(roots []*ssa.Function, in func(*ssa.Function) bool, invoke func(*ssa.CallCommon) []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !in(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
				if cc, ok := i.(ssa.CallInstruction); ok && cc.Common().IsInvoke() && invoke != nil {
					for _, g := range invoke(cc.Common()) {
						walk(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}

// implementers: the methods of the module an interface call can reach.
func (c *Ctx) implementers() func(*ssa.CallCommon) []*ssa.Function {
	var ts []types.Type
	for _, p := range []string{repoRoot, repoRepl} {
		pk := c.w.pk[p]
		if pk == nil {
			continue
		}
		for _, m := range pk.Members {
			if t, ok := m.(*ssa.Type); ok && !types.IsInterface(t.Type()) {
				ts = append(ts, t.Type(), types.NewPointer(t.Type()))
			}
		}
	}
	return func(cc *ssa.CallCommon) (out []*ssa.Function) {
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for _, t := range ts {
			if types.Implements(t, it) {
				if m := c.w.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); m != nil {
					out = append(out, m)
				}
			}
		}
		return
	}
}

// handlerCalls: goroutines are started in one place and the handler is called
// under the parser only.
func (c *Ctx) handlerCalls(prop string) {
	const rule = "handler calls"
	parse := c.parseFunc()
	under := c.reach(parse)
	send := c.w.pk[repoRoot].Pkg.Scope().Lookup("SendTransactionFunc").Type()
	var all []*ssa.Function
	for f := range c.reach(c.exported()...) {
		all = append(all, f)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	n := 0
	for _, f := range all {
		if strings.HasPrefix(c.w.fset.Position(f.Pos()).Filename, repoDir+"/zz_verif_") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					n++
					if under[f] {
						c.report(prop, rule, c.pos(in.Pos()), "%s starts a goroutine while events are consumed", f)
					}
				}
				cc, ok := in.(ssa.CallInstruction)
				if !ok || cc.Common().IsInvoke() {
					continue
				}
				if types.Identical(cc.Common().Value.Type(), send) {
					n++
					if !under[f] {
						c.report(prop, rule, c.pos(in.Pos()), "%s calls the handler outside the event loop", f)
					}
					if _, ok := in.(*ssa.Call); !ok {
						c.report(prop, rule, c.pos(in.Pos()), "%s does not call the handler in place", f)
					}
				}
			}
		}
	}
	c.counts["handler and goroutine sites"] += n
	c.counts["obligations"] += n
}

// exported: the functions and methods a user can call.
func (c *Ctx) exported() (out []*ssa.Function) {
	pk := c.w.pk[repoRoot]
	for _, m := range pk.Members {
		switch m := m.(type) {
		case *ssa.Function:
			if token.IsExported(m.Name()) && !strings.Contains(m.Name(), "_C") {
				out = append(out, m)
			}
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := c.w.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := c.w.prog.MethodValue(ms.At(i)); f != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	return
}

// driverConflict: a field of the driver that both methods access, one of them
// writing, which is neither atomic nor a lock.
func (c *Ctx) driverConflict(a, b string) string {
	pk := c.w.pk[driverPkg]
	if pk == nil {
		failf("the driver is not loaded")
	}
	acc := func(m string) (r, w map[string]bool) {
		r, w = map[string]bool{}, map[string]bool{}
		f := c.w.fn(driverPkg, "*DumpConn."+m)
		fs := reachIn([]*ssa.Function{f}, func(f *ssa.Function) bool {
			return f.Pkg == pk || f.Pkg == nil && f.Synthetic != ""
		}, nil)
		for f := range fs {
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					nm, ok := deref(fa.X.Type()).(*types.Named)
					if !ok || nm.Obj().Pkg() != pk.Pkg {
						continue
					}
					if nm.Obj().Name() != "mysqlConn" && nm.Obj().Name() != "buffer" {
						continue
					}
					k := nm.Obj().Name() + "." + nm.Underlying().(*types.Struct).Field(fa.Field).Name()
					for _, u := range *fa.Referrers() {
						switch u := u.(type) {
						case *ssa.UnOp:
							r[k] = true
						case *ssa.Store:
							if u.Addr == fa {
								w[k] = true
							}
						}
					}
				}
			}
		}
		return
	}
	ra, wa := acc(a)
	rb, wb := acc(b)
	var out []string
	for k := range wa {
		if rb[k] || wb[k] {
			out = append(out, k)
		}
	}
	for k := range wb {
		if ra[k] && !wa[k] {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}
