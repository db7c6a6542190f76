package main

import (
	"fmt"
	"math/big"
	"strings"
)

type PK uint8

const (
	PLit PK = iota
	PElems
	PWin
	PDec
	PFill
	PTab
)

// Piece of a sequence.
type Piece struct {
	k    PK
	s    string  // PLit
	els  []*Node // PElems
	base *Atom   // PWin
	off  *Lin    // PWin
	n    *Lin    // PWin, PFill, PTab: length
	lin  *Lin    // PDec: decimal text of lin (>=0), zero padded to w
	w    int
	val  *Node // PFill, PTab: element (PTab: over the bound counter tabK)
	et   *elemT
}

// elemT describes how to materialise an element of an opaque window.
type elemT struct{}

// Seq is a sequence of elements; kind 'b' = bytes, 'g' = other.
type Seq struct {
	id     int
	kind   byte
	ps     []Piece
	bl     bloom
	sbl    bloom
	nested bool
	objs   bool
	height int
}

func (p *Piece) key() string {
	switch p.k {
	case PLit:
		return fmt.Sprintf("l%q", p.s)
	case PElems:
		return "e" + idsKey(p.els)
	case PWin:
		return fmt.Sprintf("w%d,%d,%d", p.base.id, p.off.id, p.n.id)
	case PDec:
		return fmt.Sprintf("d%d,%d", p.lin.id, p.w)
	case PFill:
		return fmt.Sprintf("f%d,%d", p.val.id, p.n.id)
	case PTab:
		return fmt.Sprintf("t%d,%d", p.val.id, p.n.id)
	}
	panic("piece")
}

func isZero(l *Lin) bool { return l.isConst() && l.k.Sign() == 0 }

// byteAt recognises the 8-bit little group of one input byte.
func byteAt(l *Lin) (*Atom, *Lin) {
	if len(l.ts) != 8 || l.k.Sign() != 0 {
		return nil, nil
	}
	var base *Atom
	var off *Lin
	seen := 0
	for _, t := range l.ts {
		if t.a.op != "bit" {
			return nil, nil
		}
		b, o, j := t.a.args[0].(*Atom), t.a.args[1].(*Lin), t.a.args[2].(int)
		if base == nil {
			base, off = b, o
		}
		if b != base || o != off || t.c.Cmp(pow2(uint(j))) != 0 {
			return nil, nil
		}
		seen |= 1 << j
	}
	if seen != 255 {
		return nil, nil
	}
	return base, off
}

func mkSeq(kind byte, ps []Piece) *Seq {
	var out []Piece
	var add func(p Piece)
	add = func(p Piece) {
		var last *Piece
		if len(out) > 0 {
			last = &out[len(out)-1]
		}
		switch p.k {
		case PLit:
			if p.s == "" {
				return
			}
			if last != nil && last.k == PLit {
				last.s += p.s
				return
			}
		case PElems:
			if len(p.els) == 0 {
				return
			}
			if kind == 'b' {
				// constants -> literals, input bytes -> windows
				allPlain := true
				for _, e := range p.els {
					if e.k == NLeaf && e.lk == LInt {
						if e.lin.isConst() {
							allPlain = false
							break
						}
						if b, _ := byteAt(e.lin); b != nil {
							allPlain = false
							break
						}
						if digitLin(e.lin) != nil {
							allPlain = false
							break
						}
					}
				}
				if !allPlain {
					for _, e := range p.els {
						if e.k == NLeaf && e.lk == LInt {
							if e.lin.isConst() {
								add(Piece{k: PLit, s: string([]byte{byte(e.lin.k.Int64())})})
								continue
							}
							if b, o := byteAt(e.lin); b != nil {
								add(Piece{k: PWin, base: b, off: o, n: linC(b1)})
								continue
							}
							if d := digitLin(e.lin); d != nil {
								add(Piece{k: PDec, lin: d, w: 1})
								continue
							}
						}
						if m := len(out); m > 0 && out[m-1].k == PElems {
							out[m-1].els = append(append([]*Node(nil), out[m-1].els...), e)
						} else {
							out = append(out, Piece{k: PElems, els: []*Node{e}})
						}
					}
					return
				}
			}
			if last != nil && last.k == PElems {
				last.els = append(append([]*Node(nil), last.els...), p.els...)
				return
			}
		case PWin:
			if isZero(p.n) {
				return
			}
			if last != nil && last.k == PWin && last.base == p.base && linAdd(last.off, last.n) == p.off {
				last.n = linAdd(last.n, p.n)
				return
			}
		case PDec:
			lo, hi := p.lin.rng()
			if p.lin.isConst() {
				s := p.lin.k.String()
				for len(s) < p.w {
					s = "0" + s
				}
				add(Piece{k: PLit, s: s})
				return
			}
			// padding beyond the possible digits is literal; minimum digits
			// are a real minimum only if the value can be shorter.
			if hi != nil && lo != nil && lo.Sign() >= 0 {
				nd := len(hi.String())
				if p.w > nd {
					add(Piece{k: PLit, s: strings.Repeat("0", p.w-nd)})
					p.w = nd
					add(p)
					return
				}
				if md := len(lo.String()); p.w < md {
					p.w = 1
				} else if p.w == md {
					p.w = 1
				}
			}
		case PFill, PTab:
			if isZero(p.n) || p.n.isConst() && p.n.k.Sign() < 0 {
				return
			}
			if p.k == PFill && p.n.isConst() && p.n.k.IsInt64() && p.n.k.Int64() <= 300 {
				els := make([]*Node, p.n.k.Int64())
				for i := range els {
					els[i] = p.val
				}
				add(Piece{k: PElems, els: els})
				return
			}
			if p.k == PFill && last != nil && last.k == PFill && last.val == p.val {
				last.n = linAdd(last.n, p.n)
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		add(p)
	}
	var sb strings.Builder
	sb.WriteByte(kind)
	for i := range out {
		sb.WriteString(out[i].key())
		sb.WriteByte('|')
	}
	k := sb.String()
	if s := seqTab[k]; s != nil {
		return s
	}
	seqN++
	s := &Seq{id: seqN, kind: kind, ps: out}
	accN := func(n *Node) {
		s.bl.or(&n.bl)
		s.sbl.or(&n.sbl)
		s.nested = s.nested || n.k == NDec || n.nested
		s.objs = s.objs || n.objs
		s.height = max(s.height, n.height)
	}
	accL := func(l *Lin) {
		if l != nil {
			s.bl.or(&l.bl)
			s.height = max(s.height, l.height)
		}
	}
	for _, p := range out {
		for _, e := range p.els {
			accN(e)
		}
		if p.base != nil {
			s.bl.or(&p.base.bl)
			s.height = max(s.height, p.base.height)
		}
		accL(p.off)
		accL(p.n)
		accL(p.lin)
		if p.val != nil {
			accN(p.val)
			if p.k == PTab {
				s.height = max(s.height, p.val.height)
			}
		}
	}
	seqTab[k] = s
	return s
}

// digitLin: 48 + d with 0<=d<=9
func digitLin(l *Lin) *Lin {
	d := linAddI(l, bi(-48))
	lo, hi := d.rng()
	if d.isConst() || lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(bi(9)) > 0 {
		return nil
	}
	return d
}

func litSeq(s string) *Seq                 { return mkSeq('b', []Piece{{k: PLit, s: s}}) }
func emptySeq(kind byte) *Seq              { return mkSeq(kind, nil) }
func elemsSeq(kind byte, els []*Node) *Seq { return mkSeq(kind, []Piece{{k: PElems, els: els}}) }
func winSeq(kind byte, base *Atom, off, n *Lin) *Seq {
	return mkSeq(kind, []Piece{{k: PWin, base: base, off: off, n: n}})
}

func concatSeq(a, b *Seq) *Seq {
	if len(a.ps) == 0 && a.kind == b.kind {
		return b
	}
	if len(b.ps) == 0 {
		return a
	}
	return mkSeq(a.kind, append(append([]Piece(nil), a.ps...), b.ps...))
}

func (p *Piece) length() *Lin {
	switch p.k {
	case PLit:
		return linN64(int64(len(p.s)))
	case PElems:
		return linN64(int64(len(p.els)))
	case PDec:
		lo, hi := p.lin.rng()
		if lo != nil && hi != nil {
			a, b := max(len(lo.String()), p.w), max(len(hi.String()), p.w)
			if a == b {
				return linN64(int64(a))
			}
		}
		var h I
		if hi != nil {
			h = bi(int64(max(len(hi.String()), p.w)))
		}
		return linA(mkAtom("declen", b1, h, p.lin, p.w))
	}
	return p.n
}

func (s *Seq) length() *Lin {
	l := linC(b0)
	for i := range s.ps {
		l = linAdd(l, s.ps[i].length())
	}
	return l
}

// lit returns the string if s is constant.
func (s *Seq) lit() (string, bool) {
	if len(s.ps) == 0 {
		return "", true
	}
	if len(s.ps) == 1 && s.ps[0].k == PLit {
		return s.ps[0].s, true
	}
	return "", false
}

// seqAsAtom names a general sequence by one atom so that windows can be taken.
func seqAsAtom(s *Seq) *Atom {
	if len(s.ps) == 1 && s.ps[0].k == PWin && isZero(s.ps[0].off) && s.ps[0].n == lenOf(s.ps[0].base) {
		return s.ps[0].base
	}
	return mkAtom("seq", nil, nil, s, string(s.kind))
}

// lenOf is the length of a sequence-valued atom.
func lenOf(a *Atom) *Lin {
	switch a.op {
	case "seq":
		return a.args[0].(*Seq).length()
	case "upd":
		return a.args[0].(*Seq).length()
	}
	return linA(mkAtom("len", b0, maxLen, a))
}

// slice returns s[from:from+n] as a node (decisions may be needed).
func seqSlice(s *Seq, from, n *Lin) *Node {
	wrap := func(q *Seq) *Node { return mkSeqV(q, false) }
	if isZero(from) && n == s.length() {
		return wrap(s)
	}
	if isZero(n) {
		return wrap(emptySeq(s.kind))
	}
	if len(s.ps) == 1 && s.ps[0].k == PWin {
		if b := s.ps[0].base; isZero(from) && isZero(s.ps[0].off) && fullLen[b] != nil {
			for _, l := range fullLen[b] {
				if l == n {
					return wrap(winSeq(s.kind, b, from, lenOf(b)))
				}
			}
		}
		return wrap(winSeq(s.kind, s.ps[0].base, linAdd(s.ps[0].off, from), n))
	}
	// skip whole pieces
	ps := s.ps
	start := from
	for len(ps) > 0 {
		l := ps[0].length()
		d := linSub(start, l)
		if !d.nonneg() {
			break
		}
		start = d
		ps = ps[1:]
	}
	var out []Piece
	rest := n
	for len(ps) > 0 && !isZero(rest) {
		p := ps[0]
		l := p.length()
		avail := linSub(l, start)
		take := rest
		if linSub(rest, avail).nonneg() {
			take = avail
		} else if !linSub(avail, rest).nonneg() {
			goto opaque
		}
		switch p.k {
		case PLit, PElems:
			if !start.isConst() || !take.isConst() {
				goto opaque
			}
			a, b := int(start.k.Int64()), int(start.k.Int64()+take.k.Int64())
			if b < a || a < 0 {
				goto opaque
			}
			if p.k == PLit {
				out = append(out, Piece{k: PLit, s: p.s[a:b]})
			} else {
				out = append(out, Piece{k: PElems, els: p.els[a:b]})
			}
		case PWin:
			out = append(out, Piece{k: PWin, base: p.base, off: linAdd(p.off, start), n: take})
		case PFill:
			out = append(out, Piece{k: PFill, val: p.val, n: take})
		case PDec:
			if isZero(start) && take == l {
				out = append(out, p)
			} else {
				goto opaque
			}
		case PTab:
			if isZero(start) {
				out = append(out, Piece{k: PTab, val: p.val, n: take})
			} else {
				goto opaque
			}
		}
		rest = linSub(rest, take)
		start = linC(b0)
		ps = ps[1:]
	}
	if isZero(rest) {
		return wrap(mkSeq(s.kind, out))
	}
opaque:
	return wrap(winSeq(s.kind, seqAsAtom(s), from, n))
}

// seqIndex returns element i of s; mat materialises an element of an atom.
func seqIndex(s *Seq, i *Lin, mat func(*Atom, *Lin) *Node) *Node {
	ps := s.ps
	pos := i
	for len(ps) > 0 {
		p := ps[0]
		l := p.length()
		if len(ps) == 1 { // assume in bounds
			return pieceIndex(&p, pos, mat, s)
		}
		d := linSub(pos, l)
		lo, hi := d.rng()
		if hi != nil && hi.Sign() < 0 {
			return pieceIndex(&p, pos, mat, s)
		}
		if lo == nil || lo.Sign() < 0 {
			a := pieceIndex(&p, pos, mat, s)
			b := seqIndex(mkSeqRaw(s.kind, ps[1:]), d, mat)
			return ite(ltZero(d), a, b)
		}
		pos = d
		ps = ps[1:]
	}
	return nDead
}

func mkSeqRaw(kind byte, ps []Piece) *Seq { return mkSeq(kind, append([]Piece(nil), ps...)) }

func pieceIndex(p *Piece, i *Lin, mat func(*Atom, *Lin) *Node, s *Seq) *Node {
	switch p.k {
	case PLit, PElems:
		n := len(p.s)
		if p.k == PElems {
			n = len(p.els)
		}
		at := func(j int) *Node {
			if p.k == PLit {
				return mkI(int64(p.s[j]))
			}
			return p.els[j]
		}
		if i.isConst() {
			j := i.k.Int64()
			if j < 0 || j >= int64(n) {
				return nDead
			}
			return at(int(j))
		}
		r := at(n - 1)
		for j := n - 2; j >= 0; j-- {
			r = ite(ltZero(linAddI(i, bi(int64(-j-1)))), at(j), r)
		}
		return r
	case PWin:
		return mat(p.base, linAdd(p.off, i))
	case PFill:
		return p.val
	case PTab:
		return substNode(p.val, map[*Atom]any{tabK(): i})
	case PDec:
		return mat(seqAsAtom(mkSeq('b', []Piece{*p})), i)
	}
	panic("pieceIndex")
}

// seqUpdate returns s with element i replaced.
func seqUpdate(s *Seq, i *Lin, v *Node) *Node {
	if i.isConst() {
		idx := i.k.Int64()
		// const position inside leading const-length pieces
		var out []Piece
		pos := int64(0)
		for pi, p := range s.ps {
			l := p.length()
			if !l.isConst() {
				if p.k == PWin || p.k == PFill {
					d := linN64(idx - pos)
					a, b := p, p
					a.n = d
					b.n = linSub(p.n, linAddI(d, b1))
					b.off = nil
					if p.k == PWin {
						b.off = linAdd(p.off, linAddI(d, b1))
					}
					out = append(out, a, Piece{k: PElems, els: []*Node{v}}, b)
					out = append(out, s.ps[pi+1:]...)
					return mkSeqV(mkSeq(s.kind, out), false)
				}
				break
			}
			n := l.k.Int64()
			if idx < pos+n {
				d := idx - pos
				switch p.k {
				case PLit:
					out = append(out, Piece{k: PLit, s: p.s[:d]}, Piece{k: PElems, els: []*Node{v}}, Piece{k: PLit, s: p.s[d+1:]})
				case PElems:
					els := append([]*Node(nil), p.els...)
					els[d] = v
					out = append(out, Piece{k: PElems, els: els})
				case PWin:
					out = append(out, Piece{k: PWin, base: p.base, off: p.off, n: linN64(d)}, Piece{k: PElems, els: []*Node{v}},
						Piece{k: PWin, base: p.base, off: linAdd(p.off, linN64(d+1)), n: linN64(n - d - 1)})
				default:
					goto gen
				}
				out = append(out, s.ps[pi+1:]...)
				return mkSeqV(mkSeq(s.kind, out), false)
			}
			pos += n
			out = append(out, p)
		}
	}
gen:
	// last element of a sequence ending in elements
	if n := len(s.ps); n > 0 && s.ps[n-1].k == PElems {
		fromEnd := linSub(s.length(), i)
		if fromEnd.isConst() && fromEnd.k.Sign() > 0 && fromEnd.k.Cmp(big.NewInt(int64(len(s.ps[n-1].els)))) <= 0 {
			els := append([]*Node(nil), s.ps[n-1].els...)
			els[len(els)-int(fromEnd.k.Int64())] = v
			return mkSeqV(mkSeq(s.kind, append(append([]Piece(nil), s.ps[:n-1]...), Piece{k: PElems, els: els})), false)
		}
	}
	a := mkAtom("upd", nil, nil, s, i, v, string(s.kind))
	return mkSeqV(winSeq(s.kind, a, linC(b0), s.length()), false)
}

var tabKAtom *Atom

// tabK is the bound element index of PTab pieces.
func tabK() *Atom {
	if tabKAtom == nil {
		tabKAtom = mkAtom("tabk", b0, maxLen)
	}
	return tabKAtom
}
