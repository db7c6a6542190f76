package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// One-step comparison of an event loop with a reference step function. The
// loop state of the code is related to the state of the reference by roles:
// every component of the loop state that has the type of a state parameter of
// the reference is assumed to hold the same value; that relation is checked to
// hold initially and to be preserved, and dropped for components where it is
// not (greatest fixed point). What remains is an inductive relation, so equal
// steps mean equal behaviour for event sequences of any length.

type role struct {
	param string
	typ   types.Type
	val   *Node // symbolic value at the start of a step
	init  *Node
}

// stepComp is one scalar component of the loop state of the code.
type stepComp struct {
	phi  *ssa.Phi
	obj  *Obj
	path []int
	typ  types.Type
	name string
	init *Node
	role *role
	sub  []int // path within the role
	neg  bool
	free *Node
	next *Node
}

type stepHook struct {
	roles    []*role
	dropped  map[string]bool // components found not to follow their role
	done     bool
	changed  map[string]bool
	comps    []*stepComp
	back     *Node
	backTr   *Node
	backSt   *State
	backVals []*Node
	reader   bool
	fnFilter func(*ssa.Function) bool

	// sharing with what was delivered, see alias.go
	watch              bool
	ghost              *Obj
	delivered          []*delivery
	shared             []string
	checked, givenObjs int
}

func (h *stepHook) wants(fr *frame) bool {
	return !h.done && h.fnFilter(fr.fn)
}

// roleFor finds the role of a component: a leaf of a value of type t at path.
func (h *stepHook) assign(c *stepComp, whole types.Type) {
	if h.dropped[c.name] {
		return
	}
	t := whole
	for i := 0; i <= len(c.path); i++ {
		for _, r := range h.roles {
			if types.Identical(t, r.typ) {
				c.role, c.sub = r, c.path[i:]
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					c.neg = c.init != r.init
				}
				return
			}
		}
		if i < len(c.path) {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			t = st.Field(c.path[i]).Type()
		}
	}
}

func (h *stepHook) value(c *stepComp) *Node {
	if c.role != nil {
		v := getField(c.role.val, c.role.typ, c.sub)
		if c.neg {
			v = not(v)
		}
		return v
	}
	if c.free == nil {
		c.free = input("unrelated "+c.name, c.typ)
	}
	return c.free
}

type spotPath struct {
	obj  *Obj
	name string
}

func (fr *frame) stepLoop(li *loopInfo, l *natLoop, es []*edge) []*edge {
	h := fr.en.step
	h.done = true
	_, st0 := joinEdges(es)
	fr.phisAt(l.header, es, st0, l)
	onames := map[*Obj]string{}
	bodyID := objN
	var comps []*stepComp
	var phis []*ssa.Phi
	seen := map[string]int{}
	add := func(c *stepComp, whole types.Type) {
		seen[c.name]++
		if n := seen[c.name]; n > 1 {
			c.name = fmt.Sprintf("%s#%d", c.name, n)
		}
		h.assign(c, whole)
		comps = append(comps, c)
	}
	pathName := func(t types.Type, p []int) string {
		s := ""
		for _, i := range p {
			st := t.Underlying().(*types.Struct)
			s += "." + st.Field(i).Name()
			t = st.Field(i).Type()
		}
		return s
	}
	frozen := func(v *Node, t types.Type) *Node {
		if _, isMap := t.Underlying().(*types.Map); isMap {
			return fr.mapContent(v, st0)
		}
		return fr.noNil(fr.freeze(v, st0), t)
	}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		v := fr.env[p]
		fieldsOf(p.Type(), nil, func(t types.Type, path []int) {
			add(&stepComp{phi: p, path: path, typ: t, name: p.Comment + pathName(p.Type(), path), init: frozen(getField(v, p.Type(), path), t)}, p.Type())
		})
	}
	known := map[spotPath]bool{}
	addObj := func(o *Obj) {
		v0 := st0.get(o)
		fieldsOf(o.typ, nil, func(t types.Type, path []int) {
			nm := onames[o] + pathName(o.typ, path)
			if k := (spotPath{o, nm}); known[k] || !h.changed[nm] {
				return
			} else {
				known[k] = true
			}
			x := getField(v0, o.typ, path)
			c := &stepComp{obj: o, path: path, typ: t, name: nm}
			if _, isMap := t.Underlying().(*types.Map); isMap && len(path) == 0 {
				c.init = x
			} else {
				c.init = frozen(x, t)
			}
			add(c, o.typ)
		})
	}
	// what another class of events changes is part of the state
	var objs []*Obj
	for o := range st0.h {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	cnt := map[string]int{}
	for _, o := range objs {
		cnt[o.name]++
		onames[o] = fmt.Sprintf("%s.%d", o.name, cnt[o.name])
		addObj(o)
	}
	var exits, back []*edge
	var bodySt *State
	phObj := map[*Obj]bool{}
	for round := 0; ; round++ {
		if round > 20 {
			failf("the state of the event loop in %s is not bounded", fr.fn)
		}
		st := st0.clone()
		st.mut = map[*Obj]bool{}
		st.tr = newState().tr
		fr.clearLoop(l, st)
		vals := map[*ssa.Phi]*Node{}
		phObj = map[*Obj]bool{}
		for _, c := range comps {
			v := h.value(c)
			for _, lf := range leavesOf(v) {
				if lf.lk == LSlice || lf.lk == LMap {
					phObj[lf.obj] = true
				}
				if lf.lk == LMap {
					st.h[lf.obj] = st.get(lf.obj)
				}
			}
			if c.phi != nil {
				if len(c.path) == 0 {
					vals[c.phi] = v
				} else {
					if vals[c.phi] == nil {
						vals[c.phi] = spreadT(nAny, c.phi.Type())
					}
					vals[c.phi] = setField(vals[c.phi], c.phi.Type(), c.path, v)
				}
				continue
			}
			if _, isMap := c.obj.typ.Underlying().(*types.Map); isMap {
				st.h[c.obj] = fr.mapContent(v, st)
				continue
			}
			st.h[c.obj] = setField(st.get(c.obj), c.obj.typ, c.path, v)
		}
		for p, v := range vals {
			fr.env[p] = v
		}
		nd := len(fr.defers)
		h.delivered, h.ghost = nil, nil
		bodySt = st.clone()
		ex := fr.evalRegion(li, l.header, l, []*edge{{to: l.header, guard: nTrue, st: st.clone()}})
		if len(fr.defers) != nd {
			failf("defer in the event loop of %s", fr.fn)
		}
		exits, back = nil, nil
		for _, e := range ex {
			if e.to == l.header {
				back = append(back, e)
			} else {
				exits = append(exits, fr.publish(li, l, e))
			}
		}
		changed := false
		all := append(append([]*edge(nil), back...), exits...)
		for _, e := range all {
			for o, v := range e.st.h {
				if phObj[o] {
					continue
				}
				w, ok := bodySt.h[o]
				if ok && w == v {
					continue
				} else if !ok && (o.init == nil || o.fresh || o.init == v) {
					continue
				}
				if o.opq != nil && o.opq.op == "mget" {
					continue
				}
				if _, ok := st0.h[o]; !ok && !o.foreign {
					continue
				}
				if onames[o] == "" {
					onames[o] = o.name
				}
				if w == nil {
					w = o.init
				}
				fieldsOf(o.typ, nil, func(t types.Type, path []int) {
					nm := onames[o] + pathName(o.typ, path)
					if known[spotPath{o, nm}] || w != nil && getField(w, o.typ, path) == getField(v, o.typ, path) {
						return
					}
					h.changed[nm] = true
					changed = true
				})
				addObj(o)
			}
		}
		if !changed {
			break
		}
	}
	h.comps = comps
	h.back, h.backTr = nFalse, nAny
	if len(back) > 0 {
		bg, bst := joinEdges(back)
		h.back, h.backTr = bg, bst.tr
		fz := func(v *Node, t types.Type) *Node {
			if _, isMap := t.Underlying().(*types.Map); isMap {
				return fr.mapContent(v, bst)
			}
			return fr.noNil(fr.freeze(v, bst), t)
		}
		vals := map[*ssa.Phi]*Node{}
		for _, p := range phis {
			var v *Node
			for i := len(back) - 1; i >= 0; i-- {
				x := fr.edgeVal(p, back[i])
				if v == nil {
					v = x
				} else {
					v = iteAny(back[i].guard, x, v)
				}
			}
			vals[p] = v
		}
		for _, c := range comps {
			if c.phi != nil {
				c.next = fz(getField(vals[c.phi], c.phi.Type(), c.path), c.typ)
			} else if _, isMap := c.obj.typ.Underlying().(*types.Map); isMap {
				c.next = bst.get(c.obj)
			} else {
				c.next = fz(getField(bst.get(c.obj), c.obj.typ, c.path), c.typ)
			}
		}
		if h.watch {
			raw := map[string]*Node{}
			for _, c := range comps {
				if c.phi != nil {
					raw[c.name] = getField(vals[c.phi], c.phi.Type(), c.path)
				} else if _, isMap := c.obj.typ.Underlying().(*types.Map); isMap {
					raw[c.name] = bst.get(c.obj)
				} else {
					raw[c.name] = getField(bst.get(c.obj), c.obj.typ, c.path)
				}
				h.renewed(fr, c, raw[c.name], bodyID, bst, bg)
			}
			for o, v := range bst.h {
				if o != h.ghost && !phObj[o] && (o.id <= bodyID || o.foreign) {
					raw[fmt.Sprintf("%s (%d)", objDesc(o), o.id)] = v
				}
			}
			h.sharedAfter(raw, bst, bg)
		}
	}
	return exits
}

// stepCheck compares the event loop found in impl with the reference step.
type stepCheck struct {
	impl, spec, init, class *ssa.Function
	args                    []*Node // arguments of impl
	states                  []string
	setup                   func(en *Engine)
	kinds                   map[int]bool // classes the property speaks of, nil: all
	drop                    []string     // fields it does not speak of
	skip                    map[string]bool
	changed                 map[string]bool
	watch                   bool // look at what is shared, do not compare
}

func (c *Ctx) step(prop string, k *stepCheck) {
	rule := "step " + prop
	dropped := map[string]bool{}
	k.changed = map[string]bool{}
	why := map[string]map[string]string{}
	comps, classes, checked := 0, 1, map[int]bool{}
restart:
	for round := 0; ; round++ {
		if round > 30 {
			c.report(prop, rule, "", "undecided: no inductive relation found")
			return
		}
		n := len(c.findings)
		for cl := 0; cl < classes; cl++ {
			if x := os.Getenv("VERIF_CLASS"); x != "" && classes > 1 && x != fmt.Sprint(cl) && cl != 15 && cl != 6 {
				continue
			}
			t0 := time.Now()
			again, m := c.stepClass(prop, rule, k, cl, &classes, dropped, why, checked)
			if c.verbose {
				fmt.Printf("  round %d class %d/%d %v\n", round, cl, classes, time.Since(t0).Round(time.Millisecond))
			}
			if again {
				c.findings = c.findings[:n]
				continue restart
			}
			comps = m
		}
		break
	}
	c.counts["obligations"] += classes*comps + 4*len(checked)
	c.counts["step classes"] += len(checked)
	c.logf("step %s: %d event classes, %d of them speak of %s, %d related state components", prop, classes, len(checked), prop, comps)
	if len(c.findings) > 0 {
		for r, w := range why {
			for _, x := range w {
				c.report(prop, rule, "", "state %s is not kept: %s", r, x)
			}
		}
	}
}

// stepClass decides one event class; again: the relation became weaker.
func (c *Ctx) stepClass(prop, rule string, k *stepCheck, cl int, classes *int, dropped map[string]bool, why map[string]map[string]string, checked map[int]bool) (again bool, related int) {
	{
		resetTerms()
		en := newEngine(c.w)
		en.seen = c.funcs
		setupEngine(en, "step")
		en.nilEq = true
		en.drop = map[string]bool{}
		for _, d := range k.drop {
			en.drop[d] = true
		}
		k.setup(en)
		curPhase = "spec"
		byName := map[string]*Node{}
		inputs := func() {
			for _, p := range k.spec.Params {
				byName[p.Name()] = input(p.Name(), p.Type())
			}
		}
		inputs()
		mine := true
		if k.class != nil {
			var as []*Node
			for _, p := range k.class.Params {
				as = append(as, byName[p.Name()])
			}
			pr, _, err := en.run(k.class, as)
			if err != nil {
				c.report(prop, rule, "", "partition could not be evaluated: %v", err)
				return
			}
			ps, kinds := pathsKinds(pr)
			*classes = len(ps)
			mine = k.kinds == nil || k.kinds[kinds[cl]]
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Printf("CLASS %d %v\n", cl, ps[cl])
			}
			assume(ps[cl])
			inputs()
		}
		var specArgs, initArgs, implArgs []*Node
		for _, p := range k.spec.Params {
			specArgs = append(specArgs, byName[p.Name()])
		}
		for _, p := range k.init.Params {
			initArgs = append(initArgs, byName[p.Name()])
		}
		for _, p := range k.impl.Params {
			v := byName[p.Name()]
			if v == nil {
				for _, q := range k.spec.Params {
					if types.Identical(p.Type(), q.Type()) {
						v = byName[q.Name()]
					}
				}
			}
			if v == nil {
				c.report(prop, rule, c.pos(k.impl.Pos()), "undecided: unexpected parameter %s", p)
				return
			}
			implArgs = append(implArgs, v)
		}
		ini, _, err := en.run(k.init, initArgs)
		if err != nil {
			c.report(prop, rule, "", "reference could not be evaluated: %v", err)
			return
		}
		h := &stepHook{dropped: dropped, changed: k.changed, fnFilter: func(f *ssa.Function) bool {
			return f.Pkg != nil && f.Pkg.Pkg.Path() == repoRoot && !strings.HasPrefix(f.Name(), "verif")
		}}
		for i, s := range k.states {
			for _, p := range k.spec.Params {
				if p.Name() == s {
					h.roles = append(h.roles, &role{param: s, typ: p.Type(), val: byName[s], init: (&frame{en: en}).noNil(ini.kids[i], p.Type())})
				}
			}
		}
		sr, sst, err := en.run(k.spec, specArgs)
		if err != nil {
			c.report(prop, rule, "", "reference could not be evaluated: %v", err)
			return
		}
		en.step = h
		h.watch = k.watch
		curPhase = "impl"
		nch := len(k.changed)
		ir, ist, err := en.run(k.impl, implArgs)
		if len(k.changed) > nch {
			return true, 0
		}
		if err != nil {
			c.report(prop, rule, c.pos(curPos), "undecided: %v", err)
			return
		}
		if !h.done {
			c.report(prop, rule, c.pos(k.impl.Pos()), "undecided: no event loop found")
			return
		}
		if k.watch {
			for _, m := range h.shared {
				c.report(prop, rule, c.pos(c.parseFunc().Pos()), "event class %d: %s", cl, m)
			}
			c.counts["deliveries"] += h.checked
			c.counts["objects delivered"] += h.givenObjs
			c.counts["obligations"] += len(h.comps) * (1 + h.checked)
			if h.checked > 0 {
				checked[cl] = true
			}
			return false, len(h.comps)
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			for _, q := range h.comps {
				r := "-"
				if q.role != nil {
					r = q.role.param
				}
				fmt.Printf("COMP %s : %v role %s neg %v\n   init %v\n   next %v\n", q.name, q.typ, r, q.neg, q.init, q.next)
			}
			fmt.Printf("BACK %v\n", h.back)
		}
		if os.Getenv("VERIF_TERMS") != "" {
			fmt.Printf("SPEC %v\nSPECTR %v\nIMPL %v\nIMPLTR %v\nBACKTR %v\n", sr, sst.tr, ir, ist.tr, h.backTr)
		}
		cmp := &comparer{}
		cont := sr.kids[0]
		stateOf := func(r *role) *Node {
			for i, s := range k.states {
				if s == r.param {
					return (&frame{en: en}).noNil(sr.kids[1+i], r.typ)
				}
			}
			return nil
		}
		// relation
		drop := 0
		reason := func(q *stepComp, m Mismatch) {
			dropped[q.name] = true
			drop++
			if why[q.role.param] == nil {
				why[q.role.param] = map[string]string{}
			}
			why[q.role.param][fmt.Sprint(q.sub)] = m.String()
			if c.verbose {
				fmt.Printf("DROP %s: %v\n", q.name, shorten(m.String()))
			}
		}
		for _, q := range h.comps {
			if q.role == nil {
				continue
			}
			want0 := getField(q.role.init, q.role.typ, q.sub)
			w := getField(stateOf(q.role), q.role.typ, q.sub)
			if q.neg {
				want0, w = not(want0), not(w)
			}
			m := cmp.compare("initial "+q.name, want0, q.init, nil)
			if len(m) == 0 && q.next != nil {
				m = cmp.compare("next "+q.name, iteMask(and(cont, h.back), w), iteMask(h.back, q.next), nil)
			}
			if len(m) > 0 {
				reason(q, m[0])
			}
		}
		if drop > 0 {
			return true, 0
		}
		// the relation is inductive; now the visible behaviour of one step
		for _, q := range h.comps {
			if q.role != nil {
				related++
			}
		}
		if !mine {
			return false, related
		}
		checked[cl] = true
		var ms []Mismatch
		ms = append(ms, cmp.compare("whether the stream goes on", cont, h.back, nil)...)
		stop := not(cont)
		ri := ir
		if ri.k != NAgg || len(ri.kids) != 2 {
			c.report(prop, rule, c.pos(k.impl.Pos()), "undecided: unexpected results")
			return
		}
		stop = and(stop, not(h.back))
		if !k.skip["position"] {
			ms = append(ms, cmp.compare("returned position", iteMask(stop, sr.kids[1]), ri.kids[0], nil)...)
		}
		if !k.skip["error"] {
			ms = append(ms, cmp.compare("whether an error is returned", iteMask(stop, sr.kids[len(sr.kids)-1]), not(isNilNode(ri.kids[1])), nil)...)
		}
		ms = append(ms, cmp.compare("effects", sst.tr, ite(h.back, h.backTr, ist.tr), nil)...)
		for _, m := range ms {
			c.report(prop, rule, c.pos(m.Pos), "%s", shorten(m.String()))
		}
		c.leafs += cmp.leafs
		return false, related
	}
}

// iteMask: v where g holds, anything elsewhere.
func iteMask(g, v *Node) *Node {
	if v.k == NAgg {
		ks := make([]*Node, len(v.kids))
		for i := range ks {
			ks[i] = iteMask(g, v.kids[i])
		}
		return mkAgg(v.names, ks)
	}
	return ite(g, v, nAny)
}

// parseFunc finds the event loop's function by its signature.
func (c *Ctx) parseFunc() *ssa.Function {
	p := c.w.pk[repoRoot]
	want := p.Func("verifStep").Signature
	var found *ssa.Function
	st := p.Pkg.Scope().Lookup("Streamer").Type()
	ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(st))
	for i := 0; i < ms.Len(); i++ {
		f := c.w.prog.MethodValue(ms.At(i))
		sg := f.Signature
		if sg.Params().Len() == 2 && sg.Results().Len() == 2 &&
			types.Identical(sg.Params().At(0).Type(), want.Params().At(1).Type()) &&
			types.Identical(sg.Params().At(1).Type(), want.Params().At(2).Type()) {
			found = f
		}
	}
	if found == nil {
		failf("no method of Streamer takes a context and a channel of events")
	}
	return found
}

// kinds of event classes, as numbered by verifClass
const (
	kTableMap = 4
	kInvalid  = 10
)

var rowKinds = map[int]bool{5: true, 6: true, 7: true, 25: true, 26: true, 27: true, 35: true, 36: true, 37: true}

func stepKinds(more ...int) map[int]bool {
	r := map[int]bool{}
	for k := range rowKinds {
		r[k] = true
	}
	for _, k := range more {
		r[k] = true
	}
	return r
}

var (
	txLabels  = []string{"Transaction.NowPosition", "Transaction.NextPosition"}
	rowImages = []string{"StreamEvent.RowValues", "StreamEvent.RowIdentifies"}
	evLabels  = []string{"StreamEvent.Table", "StreamEvent.Timestamp", "Transaction.Timestamp"}
	noPos     = map[string]bool{"position": true}
	noErr     = map[string]bool{"error": true}
	noBoth    = map[string]bool{"position": true, "error": true}
)

func cat(xs ...[]string) (r []string) {
	for _, x := range xs {
		r = append(r, x...)
	}
	return
}

// stepPlans: what of the behaviour of one step each property speaks of.
var stepPlans = map[string]*stepCheck{
	"C01": {drop: txLabels, skip: noBoth},
	"C02": {drop: cat(txLabels, rowImages, evLabels), skip: noBoth},
	"C03": {drop: cat(rowImages, evLabels), skip: noErr},
	"C04": {drop: cat(txLabels, rowImages, evLabels), skip: noErr},
	"C05": {kinds: map[int]bool{kInvalid: true, 13: true, 14: true, 15: true, 25: true, 26: true, 27: true, 35: true, 36: true, 37: true}, drop: cat(txLabels, rowImages, evLabels), skip: noBoth},
	"C06": {drop: cat(txLabels, rowImages, evLabels), skip: noPos},
	"C09": {kinds: stepKinds(), drop: cat(txLabels, evLabels, []string{"ColumnData.Filed", "ColumnData.Type", "ColumnData.IsEmpty"}), skip: noBoth},
	"C10": {kinds: stepKinds(), drop: cat(txLabels, evLabels, []string{"ColumnData.Filed", "ColumnData.Type", "ColumnData.IsEmpty"}), skip: noBoth},
	"C11": {kinds: stepKinds(), drop: cat(txLabels, evLabels, []string{"ColumnData.Filed", "ColumnData.Type", "ColumnData.IsEmpty"}), skip: noBoth},
	"C12": {kinds: stepKinds(), drop: cat(txLabels, evLabels, []string{"ColumnData.Filed", "ColumnData.Type", "ColumnData.IsEmpty"}), skip: noBoth},
	"C13": {kinds: stepKinds(), drop: cat(txLabels, evLabels, []string{"ColumnData.Filed", "ColumnData.Type"}), skip: noBoth},
	"C14": {kinds: stepKinds(), drop: cat(txLabels, evLabels, []string{"ColumnData.Filed", "ColumnData.Type"}), skip: noBoth},
	"C15": {kinds: stepKinds(kTableMap), drop: cat(txLabels, []string{"StreamEvent.Timestamp", "Transaction.Timestamp", "ColumnData.IsEmpty"}), skip: noPos},
	"C17": {kinds: map[int]bool{kInvalid: true}, drop: cat(txLabels, rowImages, evLabels)},
	"C08": {watch: true},
}

func (c *Ctx) streamStep(prop string) {
	p := c.w.pk[repoRoot]
	k := *stepPlans[prop]
	k.impl, k.spec, k.init, k.class = c.parseFunc(), p.Func("verifStep"), p.Func("verifInit"), p.Func("verifClass")
	k.states = []string{"pos", "buf", "ac", "format", "tables"}
	k.setup = func(en *Engine) { rootModels(c, en) }
	c.step(prop, &k)
}

// rootModels: what is opaque when the root package is analysed.
func rootModels(c *Ctx, en *Engine) {
	repl := c.w.pk[repoRepl]
	be := repl.Pkg.Scope().Lookup("BinlogEvent").Type()
	ev := repl.Func("NewMysql56BinlogEvent")
	if ev == nil {
		failf("NewMysql56BinlogEvent not found")
	}
	ct := dynType(ev)
	en.devirt[typeKey(be)] = ct
	for _, m := range []string{"Format", "Query", "Rotate", "TableMap", "Rows", "StripChecksum", "TableID", "Timestamp", "NextPosition"} {
		f := c.w.prog.LookupMethod(ct, repl.Pkg, m)
		if f == nil {
			failf("no method %s", m)
		}
		m := m
		en.bound[f.String()] = func(c *call) *Node { return c.pure("event." + m) }
	}
	en.bound[repoRepl+".CellBytes"] = func(c *call) *Node { return c.pure("CellBytes") }
	en.bound[repoRoot+".GetStatementCategory"] = func(c *call) *Node { return c.pure("GetStatementCategory") }
	// what a bit of a bitmap says is compared in C09 and C15
	bit := repl.Pkg.Scope().Lookup("Bitmap").Type()
	en.bound["(*"+repoRepl+".Bitmap).Bit"] = func(c *call) *Node {
		b := c.fr.freeze(c.fr.load(c.args[0], bit, c.st), c.st)
		return appTuple("Bitmap.Bit", c.resT, []*Node{tupLeaf(b), c.fr.freeze(c.args[1], c.st)})
	}
	en.effects[repoRoot+".MysqlTableMapper.MysqlTable"] = true
	errorModels(c, en)
}

// errorModels: texts of errors do not matter; atomic values are cells.
func errorModels(c *Ctx, en *Engine) {
	root := c.w.pk[repoRoot]
	et := types.NewPointer(root.Pkg.Scope().Lookup("Error").Type())
	ms := c.w.prog.MethodSets.MethodSet(et)
	for i := 0; i < ms.Len(); i++ {
		f := c.w.prog.MethodValue(ms.At(i))
		if r := f.Signature.Results(); r.Len() == 1 && types.Identical(r.At(0).Type(), et) {
			en.bound[f.String()] = func(c *call) *Node { return c.args[0] }
		}
	}
	cells := map[string]*Obj{}
	en.cells = cells
	cell := func(c *call) *Obj {
		p := onlyPtr(c)
		k := fmt.Sprint(p.obj.id, p.path)
		o := cells[k]
		if o == nil {
			any := types.NewInterfaceType(nil, nil)
			o = newObj("atomic", any, appNode("atomic.Load", 0, any, []*Node{mkI(int64(p.obj.id)), mkStr(litSeq(fmt.Sprint(p.path)))}))
			cells[k] = o
		}
		return o
	}
	en.bound["(*sync/atomic.Value).Load"] = func(c *call) *Node { return c.st.get(cell(c)) }
	en.bound["(*sync/atomic.Value).Store"] = func(c *call) *Node {
		c.st.set(cell(c), c.args[1])
		return nil
	}
}

// onlyPtr: the one thing the receiver can point at.
func onlyPtr(c *call) *Node {
	var p *Node
	for _, l := range leavesOf(c.args[0]) {
		switch {
		case l.lk == LDead || l.lk == LAny || l.lk == LNil || l.lk == LPanic:
		case l.lk != LPtr || p != nil && p != l:
			failf("%s: call of %s on %v", c.fr.fn, c.name, c.args[0])
		default:
			p = l
		}
	}
	if p == nil {
		failf("%s: call of %s on nil", c.fr.fn, c.name)
	}
	return p
}

// sessionModels: the connection to the master is opaque; what is asked of it is
// an effect.
func sessionModels(c *Ctx, en *Engine, shown ...string) {
	errorModels(c, en)
	en.session = true
	en.sess = newSession()
	errIdent = true
	sessionQueries(en)
	// error variables of the package are distinct from errors that come from outside
	for _, m := range c.w.pk[repoRoot].Members {
		if g, ok := m.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
			t := deref(g.Type())
			en.gstate.h[en.globalObj(g)] = mkOpq(mkAtomT("nonnil", nil, nil, t, g.String()), t)
		}
	}
	ss := en.sess
	ctxUsed := func(ctx *Node, st *State) {
		ok := false
		if ctx.k == NLeaf {
			r, _ := ctxRoot(ctx)
			ok = r.lk == LOpq && r.atom.op == "in"
		}
		if !ok {
			st.set(ss.plain, nTrue)
		}
	}
	en.mute = map[string]bool{"go": true, "connect": true, "exec": true, "dump": true, "hang up": true, "parse": true, "cancel": true}
	for _, s := range shown {
		delete(en.mute, s)
	}
	fz := func(c *call, i int) *Node { return c.fr.freeze(c.args[i], c.st) }
	one := func(c *call, r *Node) *Node {
		if r != nil && r.k == NAgg && len(r.kids) == 1 {
			return r.kids[0]
		}
		return r
	}
	errT := types.NewTuple(types.NewVar(0, nil, "", types.Universe.Lookup("error").Type()))
	parse := c.parseFunc()
	en.hook = func(c *call) (*Node, bool) {
		switch {
		case c.fn == parse:
			if n := len(ss.goes); n > 0 {
				g := ss.goes[n-1]
				g.fedCtx, g.fed = fz(c, 1), fz(c, 2)
			}
			return en.effect(c.st, "parse", c.resT), true
		case c.fn.String() == "(*sync.Once).Do":
			p := onlyPtr(c)
			k := fmt.Sprint(p.obj.id, p.path)
			o := en.once[k]
			if o == nil {
				o = newObj("once", types.Typ[types.Bool], nFalse)
				en.once[k] = o
			}
			done := c.st.get(o)
			for _, l := range leavesOf(c.args[1]) {
				if l.lk == LDead || l.lk == LPanic || l.lk == LAny {
					continue
				}
				if l.lk != LFunc {
					failf("%s: sync.Once runs %v", c.fr.fn, c.args[1])
				}
				c.fr.condCall(deferred{guard: and(not(done), leafIs(c.args[1], l)), call: &ssa.CallCommon{Value: l.fn}, fn: l, pos: c.pos}, c.st)
			}
			c.st.set(o, nTrue)
			return nil, true
		}
		pkg := ""
		if o := c.fn.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		}
		switch pkg {
		case "context":
			if c.fn.Signature.Recv() == nil && c.resT.Len() > 0 {
				return c.pure("context." + c.fn.Name()), true
			}
		case driverPkg:
			if len(ss.goes) > 0 && c.fn.Signature.Recv() != nil {
				if ss.cur != nil {
					ss.readerCalls[c.fn.Name()] = true
				} else {
					ss.otherCalls[c.fn.Name()] = true
				}
			}
			switch c.fn.Name() {
			case "NewDumpConn":
				ctxUsed(fz(c, 1), c.st)
				r := en.effect(c.st, "connect", c.resT, fz(c, 0))
				c.st.set(ss.open, or(c.st.get(ss.open), isNilNode(r.kids[1])))
				return r, true
			case "Exec":
				c.st.set(ss.plain, nTrue)
				return one(c, en.effect(c.st, "exec", errT, statement(fz(c, 1)))), true
			case "ExecContext":
				ctxUsed(fz(c, 1), c.st)
				e := one(c, en.effect(c.st, "exec", errT, statement(fz(c, 2))))
				return mkAgg([]string{"0", "1"}, []*Node{nNil, e}), true
			case "NoticeDump":
				return en.effect(c.st, "dump", c.resT, fz(c, 1), fz(c, 2), fz(c, 3), fz(c, 4)), true
			case "Close":
				c.st.set(ss.open, nFalse)
				return one(c, en.effect(c.st, "hang up", c.resT)), true
			case "ReadPacket":
				return en.effect(c.st, "read", c.resT), true
			case "HandleErrorPacket":
				a := appAtom("the error in the packet", 0, errT.At(0).Type(), []*Node{fz(c, 1)})
				return mkOpq(mkAtomT("nonnil", nil, nil, errT.At(0).Type(), mkOpq(a, a.typ)), a.typ), true
			}
		}
		return nil, false
	}
}

var checksumSet = regexp.MustCompile(`(?i)^\s*set\s+@master_binlog_checksum\s*:?=\s*(@@(global\.)?binlog_checksum|'(crc32|none)')\s*;?\s*$`)

// statement: spellings of the same announcement are the same.
func statement(n *Node) *Node {
	return apply(func(a []*Node) *Node {
		if a[0].lk == LStr {
			if b, ok := a[0].seq.lit(); ok && checksumSet.MatchString(string(b)) {
				return mkStr(litSeq("announce checksum"))
			}
		}
		return a[0]
	}, n)
}

// dynType: the dynamic type of the interface value a constructor returns.
func dynType(f *ssa.Function) types.Type {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if m, ok := r.Results[0].(*ssa.MakeInterface); ok {
				return m.X.Type()
			}
		}
	}
	failf("the type of the events made by %s is not evident", f)
	return nil
}

func shorten(s string) string {
	return strings.NewReplacer(
		"cast(eff:recv#0(seq⟨⟩, events), github.com/Breeze0806/gobinlog/replication.mysql56BinlogEvent).binlogEvent", "packet",
		"cast(event.StripChecksum#0((binlogEvent: seq⟨packet[0:+len(packet)]⟩), (FormatVersion: …), github.com/Breeze0806/gobinlog/replication.mysql56BinlogEvent).binlogEvent", "event",
	).Replace(s)
}

const stepText = "The loop that consumes events is found in the SSA form by its signature and compared with a reference step function (load/root/stream.go.tmpl) for one arbitrary event in one arbitrary state: the state components of the code are related to those of the reference, the relation is shown to hold before the first event and to be preserved by every event of every class, and the observable actions (handler calls with their arguments, table lookups, going on or returning, returned position, error or not) of the step are identical. "
