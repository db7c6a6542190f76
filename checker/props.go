package main

// Prop is the plan for one property.
type Prop struct {
	root    bool // needs the root package
	repl    bool // has references compiled into package replication
	shards  int
	run     func(prop string) func(c *Ctx)
	min     map[string]int
	explain string
	assume  []string
}

const eqText = "Every listed driver (the repository function called on symbolic inputs) and its reference are evaluated over their SSA form to a canonical term: all control paths are enumerated, loops are summarised as recurrences, integer arithmetic is exact. The rule: the two terms are identical on every path on which the reference is defined. Undecided constructs count as violations. "

// plan: the parts of a check, in order.
func plan(parts ...func(prop string, c *Ctx)) func(string) func(*Ctx) {
	return func(prop string) func(*Ctx) {
		return func(c *Ctx) {
			for _, p := range parts {
				p(prop, c)
				if c.stop() {
					return
				}
			}
		}
	}
}

// eq: the drivers whose names begin with one of the prefixes.
func eq(prefixes ...string) func(string, *Ctx) {
	return func(prop string, c *Ctx) {
		for _, pre := range prefixes {
			c.pairs(prop, "verifload/spec", pre)
			if c.stop() {
				return
			}
		}
	}
}

func eqRoot(prefixes ...string) func(string, *Ctx) {
	return func(prop string, c *Ctx) {
		for _, pre := range prefixes {
			c.pairs(prop, repoRoot, pre)
		}
	}
}

func eqRepl(prefixes ...string) func(string, *Ctx) {
	return func(prop string, c *Ctx) {
		for _, pre := range prefixes {
			c.pairs(prop, repoRepl, pre)
		}
	}
}

func sets(types ...string) func(string, *Ctx) {
	return func(prop string, c *Ctx) { c.ownedSets(prop, types...) }
}

// first: what is not split over workers.
func first(f func(string, *Ctx)) func(string, *Ctx) {
	return func(prop string, c *Ctx) {
		if c.shard == 0 {
			f(prop, c)
		}
	}
}

func step(prop string, c *Ctx) { c.streamStep(prop) }

var props = map[string]*Prop{
	"C10": {root: true, run: plan(step, eq("C10_")), min: map[string]int{"obligations": 80}, explain: eqText + "Obligations: CellBytes for every integer width and signedness, FLOAT, DOUBLE, YEAR, BIT(1..64), ENUM and SET of every size, for every byte content."},
	"C11": {root: true, run: plan(first(step), eq("C11_")), shards: 8, min: map[string]int{"obligations": 1580}, explain: eqText + "Obligations: CellBytes for every valid DECIMAL(p,s), symbolic digits and sign."},
	"C12": {root: true, run: plan(step, eq("C12_")), min: map[string]int{"obligations": 26}, explain: eqText + "Obligations: CellBytes for every temporal type and fractional precision, for every byte content that encodes a value."},
	"C09": {root: true, run: plan(first(step), eq("C09_")), shards: 8, min: map[string]int{"obligations": 3716}, explain: eqText + "Obligations: the byte size of a value for every type and metadata (all 254 types, every DECIMAL(p,s)), and Rows for the six rows event types: rows, identifying and data images, null bitmaps and row boundaries for symbolic buffers and table maps of any column count."},
	"C13": {root: true, run: plan(step, eq("C13_")), min: map[string]int{"obligations": 23}, explain: eqText + "Obligations: CellBytes for every string and binary type."},
	"C15": {root: true, run: plan(first(step), eq("C15_")), shards: 8, min: map[string]int{"obligations": 9}, explain: eqText + "Obligations: TableID and TableMap (database, name, types, metadata, nullability) for symbolic buffers of any column count."},
	"C01": {root: true, run: plan(first(step), first(eqRoot("C02_", "C06_Packet")), eq("C09_", "C10_", "C11_", "C12_", "C13_", "C15_", "C16_", "C17_")), shards: 8, min: map[string]int{"obligations": 1000}, explain: stepText},
	"C02": {root: true, run: plan(step, eqRoot("C02_", "C06_Packet"), eq("C16_", "C17_")), min: map[string]int{"step classes": 20}, explain: stepText},
	"C03": {root: true, run: plan(step, eqRoot("C02_", "C04_", "C06_Packet"), eq("C16_", "C17_")), min: map[string]int{"step classes": 20}, explain: stepText},
	"C04": {root: true, run: plan(step, eqRoot("C02_", "C04_", "C06_Packet"), eq("C16_", "C17_")), min: map[string]int{"step classes": 20}, explain: stepText},
	"C07": {root: true, run: plan(eqRoot("C07_", "C04_")), min: map[string]int{"obligations": 3}, explain: eqText},
	"C05": {root: true, run: plan(eqRoot("C05_"), step, races), min: map[string]int{"step classes": 20, "shared cells": 3}, explain: eqText},
	"C06": {root: true, run: plan(eqRoot("C06_"), step), min: map[string]int{"step classes": 20}, explain: eqText},
	"C08": {root: true, run: plan(private, dataFlow, step), min: map[string]int{"step classes": 12, "reference stores": 5, "single stores": 5, "deliveries": 3, "memory of events": 1}, explain: aliasText},
	"C14": {root: true, run: plan(step, eq("C14_")), min: map[string]int{"obligations": 116}, explain: eqText + "Obligations: CellBytes of a JSON column for every type of value at the top and inside a container, both container formats, every literal, number, string and opaque scalar, strings by the size of their length. A container's entry that is not inlined is a call of the function being analysed; it is a symbol that depends on the type and the bytes from the entry's offset on, shared with the reference (induction on the depth)."},
	"C18": {repl: true, run: plan(sets("Mysql56GTIDSet"), eqRepl("C18_")), min: map[string]int{"obligations": 10}, explain: eqText + "Obligations: what a MySQL 5.6 set answers (AddGTID, ContainsGTID, Contains, Equal, SIDs, GTIDSet) as definitions on the set's intervals, for every set; AddGTID never writes to memory the original set can reach."},
	"C19": {repl: true, run: plan(sets("MariadbGTIDSet"), eqRepl("C19_"), eq("C19_")), min: map[string]int{"obligations": 22}, explain: eqText + "Obligations: printing and parsing an identifier back for both flavors and the tagged encoding, the text and its parser for both kinds of set, the SID block and its reader, the identifiers in GTID and previous-GTIDs events, and the MariaDB set's answers; AddGTID never writes to memory the original set can reach."},
	"C20": {root: true, run: plan(eqRoot("C20_")), min: map[string]int{"obligations": 8}, explain: eqText + "Obligations: the JSON text of a transaction, event, row, column, position and table name, as a term (records by member, escaping left to encoding/json), and the names of statement and column types. The rendering of timestamps is not compared."},
	"C16": {run: plan(eq("C16_")), min: map[string]int{"obligations": 24}, explain: eqText},
	"C17": {root: true, run: plan(step, eq("C17_")), min: map[string]int{"obligations": 2}, explain: eqText},
}
