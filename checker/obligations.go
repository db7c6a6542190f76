package main

import (
	"fmt"
	"strings"
)

func rangeCases(name string, lo, hi int64) func(string) []Case {
	return func(string) []Case {
		var out []Case
		for v := lo; v <= hi; v++ {
			out = append(out, Case{fmt.Sprintf("%s=%d", name, v), map[string]int64{name: v}})
		}
		return out
	}
}

func cross(a, b func(string) []Case) func(string) []Case {
	return func(t string) []Case {
		var out []Case
		for _, x := range a(t) {
			for _, y := range b(t) {
				m := map[string]int64{}
				for k, v := range x.fixed {
					m[k] = v
				}
				for k, v := range y.fixed {
					m[k] = v
				}
				out = append(out, Case{x.label + " " + y.label, m})
			}
		}
		return out
	}
}

// enums: parameters enumerated exhaustively (everything else is symbolic).
var enums = map[string]func(tier string) []Case{
	"C10_Bit": func(string) []Case {
		var out []Case
		for n := int64(1); n <= 64; n++ {
			out = append(out, Case{fmt.Sprintf("BIT(%d)", n), map[string]int64{"meta": n/8<<8 | n%8}})
		}
		return out
	},
	"C10_Enum":       rangeCases("size", 1, 2),
	"C10_PlainEnum":  rangeCases("size", 1, 2),
	"C10_Set":        rangeCases("size", 1, 8),
	"C12_Timestamp2": rangeCases("fsp", 0, 6),
	"C12_DateTime2":  rangeCases("fsp", 0, 6),
	"C12_Time2":      rangeCases("fsp", 0, 6),
	"C13_Blob":       cross(rangeCases("kind", 0, 4), rangeCases("size", 1, 4)),
	"C09_CellLength": cellTypes, "C09_CellLengthDecimal": decimals,
	"C09_CellSize":        cellTypes,
	"C09_CellSizeDecimal": decimals,
	"C09_Rows": func(string) []Case {
		var out []Case
		for _, t := range []int64{23, 24, 25, 30, 31, 32} {
			out = append(out, Case{fmt.Sprintf("type %d", t), map[string]int64{"typ": t}})
		}
		return out
	},
	"C11_Decimal": decimals,
	"C14_Doc":     jsonDocs,
	"C14_Prefix":  rangeCases("size", 1, 4),
	"C14_Nested":  cross(rangeCases("large", 0, 1), jsonDocs),
}

// jsonDocs: every type of value; strings and opaque values by the size of their length.
func jsonDocs(string) []Case {
	var out []Case
	for typ := int64(0); typ <= 15; typ++ {
		subs := []int64{0}
		switch typ {
		case 13, 14:
			continue
		case 12:
			subs = []int64{1, 2, 3, 4, 5}
		case 15:
			subs = nil
			for _, t := range []int64{10, 11, 12, 246} {
				for n := int64(1); n <= 5; n++ {
					subs = append(subs, t<<4|n)
				}
			}
		}
		for _, s := range subs {
			out = append(out, Case{fmt.Sprintf("type %d.%d", typ, s), map[string]int64{"typ": typ, "sub": s}})
		}
	}
	return out
}

var nilEqual = map[string]bool{"C06_Packet": true}
var mutates = map[string]bool{}

func setupEngine(en *Engine, obligation string) {
	if strings.HasPrefix(obligation, "C18_") || strings.HasPrefix(obligation, "C19_") {
		en.nilEq = true // an absent list is an empty list
	}
	if strings.HasPrefix(obligation, "C14_") {
		en.recDepth = 1
		if obligation == "C14_Nested" {
			en.recDepth = 2
		}
		// the text of a DECIMAL is the subject of C11
		en.hook = func(c *call) (*Node, bool) {
			if c.name != repoRepl+".CellBytes" {
				return nil, false
			}
			if v, ok := constInt(c.args[2]); !ok || v != 246 {
				return nil, false
			}
			r := c.pure("decimal")
			return mkAgg(r.names, []*Node{r.kids[0], r.kids[1], nNil}), true
		}
	}
	if obligation == "C09_CellSize" {
		// only the size of the cell matters here
		en.bound[repoRepl+".printJSONData"] = func(c *call) *Node {
			r := c.pure("json")
			return mkAgg(r.names, []*Node{r.kids[0], nNil})
		}
	}
	if obligation == "C09_Rows" {
		// the size of a cell is the subject of C09_CellLength
		en.bound[repoRepl+".cellLength"] = func(c *call) *Node { return c.pure("cellLength") }
	}
	for _, p := range []string{repoRepl, repoRoot, "verifload/spec", "verifload/rootspec"} {
		if q := en.prog.ImportedPackage(p); q != nil {
			en.runInit(q)
		}
	}
}

func decimals(string) []Case {
	var out []Case
	for p := int64(1); p <= 65; p++ {
		for s := int64(0); s <= 30 && s <= p; s++ {
			out = append(out, Case{fmt.Sprintf("DECIMAL(%d,%d)", p, s), map[string]int64{"precision": p, "scale": s}})
		}
	}
	return out
}

// cellTypes: every type byte, except NULL (those cells are never decoded) and
// DECIMAL (enumerated separately).
func cellTypes(t string) []Case {
	var out []Case
	for _, k := range rangeCases("typ", 0, 255)(t) {
		if v := k.fixed["typ"]; v != 6 && v != 246 {
			out = append(out, k)
		}
	}
	return out
}
