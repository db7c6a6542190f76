package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// encoding/json: the text json.Marshal makes of a value, as a term. A record is
// the tuple of its members by sorted key, an array says how its elements are
// encoded and which they are; values of types with their own MarshalJSON are
// left as they are (an obligation of their own).

func marshaler(t types.Type, name string) bool {
	s := types.NewMethodSet(t).Lookup(nil, name)
	if s == nil {
		return false
	}
	sg := s.Type().(*types.Signature)
	return sg.Params().Len() == 0 && sg.Results().Len() == 2
}

func ownJSON(t types.Type, addr bool) string {
	u := t
	if _, ok := t.Underlying().(*types.Interface); ok {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		u = p.Elem()
	}
	for _, m := range []string{"MarshalJSON", "MarshalText"} {
		if marshaler(t, m) || addr && marshaler(types.NewPointer(t), m) {
			return m + " " + typeKey(u)
		}
	}
	return ""
}

type jsonField struct {
	key    string
	path   []int
	typ    types.Type
	tagged bool
	omit   bool
	quoted bool
}

// jsonFields: the members of the record that a struct becomes.
func jsonFields(t types.Type) []jsonField {
	var all []jsonField
	var walk func(t types.Type, path []int, depth int)
	walk = func(t types.Type, path []int, depth int) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			p := append(append([]int(nil), path...), i)
			if f.Embedded() {
				et := f.Type()
				if _, ok := et.Underlying().(*types.Pointer); ok {
					failf("embedded pointer in a record")
				}
				if _, ok := et.Underlying().(*types.Struct); ok && parts[0] == "" {
					walk(et, p, depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			jf := jsonField{key: parts[0], path: p, typ: f.Type(), tagged: parts[0] != ""}
			if jf.key == "" {
				jf.key = f.Name()
			}
			for _, o := range parts[1:] {
				switch o {
				case "omitempty":
					jf.omit = true
				case "string":
					jf.quoted = true
				default:
					failf("option %s of a record", o)
				}
			}
			all = append(all, jf)
		}
	}
	walk(t, nil, 0)
	by := map[string][]jsonField{}
	for _, f := range all {
		by[f.key] = append(by[f.key], f)
	}
	var out []jsonField
	for _, fs := range by {
		sort.SliceStable(fs, func(i, j int) bool {
			if len(fs[i].path) != len(fs[j].path) {
				return len(fs[i].path) < len(fs[j].path)
			}
			return fs[i].tagged && !fs[j].tagged
		})
		if len(fs) > 1 && len(fs[0].path) == len(fs[1].path) && fs[0].tagged == fs[1].tagged {
			continue
		}
		out = append(out, fs[0])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// jsonSchema: how values of t are encoded.
func jsonSchema(t types.Type, addr bool, depth int) string {
	if depth > 8 {
		return "..."
	}
	if m := ownJSON(t, addr); m != "" {
		return m
	}
	if typeKey(t) == "encoding/json.Number" {
		return "as it is"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsInteger != 0:
			return "number"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsFloat != 0:
			return "float"
		}
	case *types.Pointer:
		return jsonSchema(u.Elem(), true, depth+1)
	case *types.Slice:
		if isByteT(u.Elem()) {
			return "base64"
		}
		return "[" + jsonSchema(u.Elem(), true, depth+1) + "]"
	case *types.Array:
		return "[" + jsonSchema(u.Elem(), addr, depth+1) + "]"
	case *types.Struct:
		s := "{"
		for _, f := range jsonFields(t) {
			s += f.key + ":" + jsonSchema(f.typ, addr, depth+1)
			if f.omit {
				s += "?"
			}
			if f.quoted {
				s += "q"
			}
			s += ","
		}
		return s + "}"
	case *types.Interface:
		return "any"
	case *types.Map:
		return "map[" + u.Key().String() + "]" + jsonSchema(u.Elem(), false, depth+1)
	}
	failf("values of type %s have no JSON text", t)
	return ""
}

func jsonTup(kind string, v *Node) *Node {
	return apply(func(a []*Node) *Node { return mkTup([]string{kind}, []*Node{a[0]}) }, tupLeaf(v))
}

func jsonNull() *Node { return mkTup([]string{"null"}, []*Node{mkI(0)}) }

// jsonVal: the text of v.
func (c *call) jsonVal(t types.Type, v *Node, addr bool, st *State) *Node {
	fr := c.fr
	if m := ownJSON(t, addr); m != "" {
		x := jsonTup(m, fr.freeze(v, st))
		if _, ok := t.(*types.Pointer); ok {
			return ite(isNilNode(v), jsonNull(), x)
		}
		if addr {
			return apply(func(a []*Node) *Node { return mkTup([]string{m}, []*Node{mkRef(a[0])}) }, tupLeaf(fr.freeze(v, st)))
		}
		return x
	}
	if typeKey(t) == "encoding/json.Number" {
		return jsonTup("as it is", v)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return jsonTup("string", v)
		case u.Info()&types.IsInteger != 0:
			return jsonTup("number", v)
		case u.Info()&types.IsBoolean != 0:
			return jsonTup("bool", v)
		}
		failf("JSON text of a %s", t)
	case *types.Pointer:
		return fr.forLeaves(v, st, func(l *Node, st *State) *Node {
			switch l.lk {
			case LNil:
				return jsonNull()
			case LDead, LAny, LPanic:
				return l
			}
			return c.jsonVal(u.Elem(), fr.load(l, u.Elem(), st), true, st)
		})
	case *types.Slice:
		if isByteT(u.Elem()) {
			return ite(isNilNode(v), jsonNull(), jsonTup("base64", fr.freeze(v, st)))
		}
		return jsonTup("["+jsonSchema(u.Elem(), true, 0)+"]", fr.freeze(v, st))
	case *types.Struct:
		var keys []string
		var vals []*Node
		for _, f := range jsonFields(t) {
			x := getField(untupAll(v, t), t, f.path)
			var jv *Node
			if f.key == "timestamp" {
				if _, ok := f.typ.Underlying().(*types.Basic); !ok || jsonSchema(f.typ, false, 0) == "float" {
					failf("a timestamp of type %s", f.typ)
				}
				jv = mkTup([]string{"any"}, []*Node{mkI(0)})
			} else {
				jv = c.jsonVal(f.typ, x, addr, st)
			}
			if f.quoted {
				jv = jsonTup("quoted", jv)
			}
			if f.omit {
				jv = ite(c.jsonEmpty(f.typ, x, st), mkTup([]string{"absent"}, []*Node{mkI(0)}), jv)
			}
			keys = append(keys, f.key)
			vals = append(vals, jv)
		}
		return apply(func(a []*Node) *Node { return mkTup(keys, append([]*Node(nil), a...)) }, vals...)
	case *types.Interface:
		return fr.forLeaves(v, st, func(l *Node, st *State) *Node {
			switch l.lk {
			case LNil:
				return jsonNull()
			case LDead, LAny, LPanic:
				return l
			case LIface:
				return c.jsonVal(l.typ, thaw(untup(l.kids[0], l.typ), l.typ), false, st)
			}
			failf("JSON text of %s", l)
			return nil
		})
	case *types.Map:
		return fr.forLeaves(v, st, func(l *Node, st *State) *Node {
			if l.lk == LDead || l.lk == LAny || l.lk == LPanic {
				return l
			}
			return fr.forLeaves(fr.mapContent(l, st), st, func(m *Node, st *State) *Node {
				if m.lk != LMapV || m.atom != nil {
					failf("JSON text of the map %s", m)
				}
				type kv struct {
					k string
					v *Node
				}
				var es []kv
				for i := 0; i+1 < len(m.kids); i += 2 {
					k, ok := "", false
					if m.kids[i].lk == LStr {
						k, ok = m.kids[i].seq.lit()
					}
					if !ok {
						failf("JSON text of a map with key %s", m.kids[i])
					}
					if m.kids[i+1].lk == LDel {
						continue
					}
					x := mkTup([]string{"any"}, []*Node{mkI(0)})
					if k != "timestamp" {
						x = c.jsonVal(u.Elem(), thaw(untup(m.kids[i+1], u.Elem()), u.Elem()), false, st)
					}
					es = append(es, kv{k, x})
				}
				sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
				keys := make([]string, len(es))
				vals := make([]*Node, len(es))
				for i, e := range es {
					keys[i], vals[i] = e.k, e.v
				}
				return apply(func(a []*Node) *Node { return mkTup(keys, append([]*Node(nil), a...)) }, vals...)
			})
		})
	}
	failf("JSON text of a %s", t)
	return nil
}

func untupAll(v *Node, t types.Type) *Node {
	if v.k == NAgg {
		return v
	}
	return untup(v, t)
}

// jsonEmpty: omitempty leaves the member out.
func (c *call) jsonEmpty(t types.Type, v *Node, st *State) *Node {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return liftLin2(c.fr.lenNode(v, t, st), mkI(0), func(a, b *Lin) *Node { return eqL(a, b) })
		case u.Info()&types.IsInteger != 0:
			return liftLin2(v, mkI(0), func(a, b *Lin) *Node { return eqL(a, b) })
		case u.Info()&types.IsBoolean != 0:
			return not(v)
		}
	case *types.Slice:
		return liftLin2(c.fr.lenNode(v, t, st), mkI(0), func(a, b *Lin) *Node { return eqL(a, b) })
	case *types.Pointer, *types.Interface:
		return isNilNode(v)
	case *types.Struct:
		return nFalse
	}
	failf("omitempty of a %s", t)
	return nil
}

func init() {
	lib("encoding/json.Marshal", func(c *call) *Node {
		fr := c.fr
		return fr.forLeaves(c.args[0], c.st, func(l *Node, st *State) *Node {
			var txt *Node
			switch l.lk {
			case LDead, LAny, LPanic:
				return deadResult(c.resT)
			case LNil:
				txt = jsonNull()
			case LIface:
				t := l.typ
				v := thaw(untup(l.kids[0], t), t)
				if m := types.NewMethodSet(t).Lookup(nil, "MarshalJSON"); m != nil && marshaler(t, "MarshalJSON") {
					f := c.en.prog.MethodValue(m)
					if f != nil && c.en.inline(f, pkgOf(f)) {
						// its text, as it is
						return fr.callFn(f, nil, []*Node{v}, st, c.pos)
					}
				}
				txt = c.jsonVal(t, v, false, st)
			default:
				failf("json.Marshal of %s", l)
			}
			b := apply(func(a []*Node) *Node {
				return appNode("json", 0, byteSlice, []*Node{a[0]})
			}, txt)
			return tuple(thaw(b, byteSlice), nNil)
		})
	})
}
