package main

import (
	"go/types"
	"math/big"
	"strings"
)

// Reading text back that was written as literals, decimal numbers and
// hexadecimal digits: where the separators are is known from the pieces.

// pieceSepFree: p cannot contain the character ch; known: whether that could
// be decided.
func pieceSepFree(p *Piece, ch byte) bool {
	switch p.k {
	case PDec:
		if ch >= '0' && ch <= '9' {
			return false
		}
		return ch != '-' || p.lin.nonneg()
	case PWin:
		a := p.base
		if a.op == "app" && a.args[0] == any("hex") {
			return !(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f')
		}
	}
	return false
}

// splitSeq cuts s at every ch, at most max parts (max < 0: no limit).
func splitSeq(s *Seq, ch byte, max int) ([]*Seq, bool) {
	var out []*Seq
	var cur []Piece
	end := func() {
		out = append(out, mkSeq(s.kind, append([]Piece(nil), cur...)))
		cur = nil
	}
	for i := range s.ps {
		p := s.ps[i]
		if max >= 0 && len(out)+1 >= max {
			cur = append(cur, p)
			continue
		}
		switch p.k {
		case PLit:
			rest := p.s
			for max < 0 || len(out)+1 < max {
				j := strings.IndexByte(rest, ch)
				if j < 0 {
					break
				}
				if j > 0 {
					cur = append(cur, Piece{k: PLit, s: rest[:j]})
				}
				end()
				rest = rest[j+1:]
			}
			if rest != "" {
				cur = append(cur, Piece{k: PLit, s: rest})
			}
		default:
			if !pieceSepFree(&p, ch) {
				return nil, false
			}
			cur = append(cur, p)
		}
	}
	end()
	return out, true
}

func constSep(n *Node) (byte, bool) {
	if n.leaf(LStr) {
		if l, ok := n.seq.lit(); ok && len(l) == 1 {
			return l[0], true
		}
	}
	if n.leaf(LInt) && n.lin.isConst() && n.lin.k.IsInt64() {
		return byte(n.lin.k.Int64()), true
	}
	return 0, false
}

// structured: at least one piece whose form is known and no unknown ones.
func structured(s *Seq) bool {
	known := false
	for i := range s.ps {
		p := &s.ps[i]
		switch p.k {
		case PLit, PDec:
			known = true
		case PWin:
			if !(p.base.op == "app" && p.base.args[0] == any("hex")) {
				return false
			}
			known = true
		default:
			return false
		}
	}
	return known
}

func init() {
	wrap := func(name string, f func(c *call) *Node) {
		old := libs[name]
		if old == nil {
			panic("no " + name)
		}
		libs[name] = func(c *call) *Node {
			if r := f(c); r != nil {
				return r
			}
			return old(c)
		}
	}
	str := func(n *Node) *Seq {
		if n.leaf(LStr) && structured(n.seq) {
			return n.seq
		}
		return nil
	}
	list := func(c *call, ps []*Seq) *Node {
		els := make([]*Node, len(ps))
		for i, p := range ps {
			els[i] = mkStr(p)
		}
		t := types.NewSlice(types.Typ[types.String])
		return c.fr.freshSlice(mkSeqV(elemsSeq(seqKind(t), els), false), t, c.st)
	}
	wrap("strings.Split", func(c *call) *Node {
		s := str(c.args[0])
		ch, ok := constSep(c.args[1])
		if s == nil || !ok {
			return nil
		}
		if ps, ok := splitSeq(s, ch, -1); ok {
			return list(c, ps)
		}
		return nil
	})
	wrap("strings.SplitN", func(c *call) *Node {
		s := str(c.args[0])
		ch, ok := constSep(c.args[1])
		n, ok2 := constInt(c.args[2])
		if s == nil || !ok || !ok2 || n == 0 {
			return nil
		}
		if ps, ok := splitSeq(s, ch, int(n)); ok {
			return list(c, ps)
		}
		return nil
	})
	index := func(c *call) *Node {
		s := str(c.args[0])
		ch, ok := constSep(c.args[1])
		if s == nil || !ok {
			return nil
		}
		ps, ok := splitSeq(s, ch, 2)
		if !ok {
			return nil
		}
		if len(ps) == 1 {
			return mkI(-1)
		}
		return mkInt(ps[0].length())
	}
	wrap("strings.Index", index)
	wrap("strings.IndexByte", index)
	lastIndex := func(c *call) *Node {
		s := str(c.args[0])
		ch, ok := constSep(c.args[1])
		if s == nil || !ok {
			return nil
		}
		ps, ok := splitSeq(s, ch, -1)
		if !ok {
			return nil
		}
		if len(ps) == 1 {
			return mkI(-1)
		}
		return mkInt(linSub(linAddI(s.length(), bi(-1)), ps[len(ps)-1].length()))
	}
	wrap("strings.LastIndex", lastIndex)
	wrap("strings.LastIndexByte", lastIndex)
	wrap("strings.Contains", func(c *call) *Node {
		if r := index(c); r != nil {
			return apply(func(a []*Node) *Node { return not(ltZero(a[0].lin)) }, r)
		}
		return nil
	})
	wrap("strings.Count", func(c *call) *Node {
		s := str(c.args[0])
		ch, ok := constSep(c.args[1])
		if s == nil || !ok {
			return nil
		}
		if ps, ok := splitSeq(s, ch, -1); ok {
			return mkI(int64(len(ps) - 1))
		}
		return nil
	})
	wrap("strings.Cut", func(c *call) *Node {
		s := str(c.args[0])
		ch, ok := constSep(c.args[1])
		if s == nil || !ok {
			return nil
		}
		ps, ok := splitSeq(s, ch, 2)
		if !ok {
			return nil
		}
		if len(ps) == 1 {
			return tuple(c.args[0], mkStr(emptySeq('b')), nFalse)
		}
		return tuple(mkStr(ps[0]), mkStr(ps[1]), nTrue)
	})
	wrap("strings.TrimSpace", func(c *call) *Node {
		s := str(c.args[0])
		if s == nil || len(s.ps) == 0 {
			return nil
		}
		edge := func(p *Piece, first bool) bool {
			if p.k != PLit {
				return true
			}
			ch := p.s[0]
			if !first {
				ch = p.s[len(p.s)-1]
			}
			return ch > ' ' && ch < 0x80
		}
		if edge(&s.ps[0], true) && edge(&s.ps[len(s.ps)-1], false) {
			return c.args[0]
		}
		return nil
	})
	for _, n := range []string{"ParseInt", "ParseUint"} {
		signed := n == "ParseInt"
		wrap("strconv."+n, func(c *call) *Node {
			base, ok1 := constInt(c.args[1])
			bits, ok2 := constInt(c.args[2])
			if !ok1 || !ok2 || base != 10 && base != 0 {
				return nil
			}
			if bits == 0 {
				bits = 64
			}
			return parseDec(c.args[0], signed, int(bits))
		})
	}
	wrap("strconv.Atoi", func(c *call) *Node { return parseDec(c.args[0], true, 64) })
	wrap("encoding/hex.Decode", func(c *call) *Node {
		res := unhex(c.fr.seqValueK(c.args[1], byteSlice, c.st))
		if res == nil {
			return nil
		}
		writeSlice(c, c.args[0], res)
		return tuple(mkInt(res.seq.length()), nNil)
	})
	wrap("encoding/hex.DecodeString", func(c *call) *Node {
		res := unhex(strSeq(c.args[0]))
		if res == nil {
			return nil
		}
		return tuple(c.fr.freshSlice(res, byteSlice, c.st), nNil)
	})
}

// parseDec: the number that was printed.
func parseDec(x *Node, signed bool, bits int) *Node {
	if !x.leaf(LStr) {
		return nil
	}
	var v *Lin
	s := x.seq
	if l, ok := s.lit(); ok {
		k, ok := new(big.Int).SetString(l, 10)
		if !ok || l == "" || l[0] == '+' {
			return nil
		}
		v = linC(k)
	} else if len(s.ps) == 1 && s.ps[0].k == PDec {
		v = s.ps[0].lin
	} else {
		return nil
	}
	lo, hi := b0, subI(pow2(uint(bits)), b1)
	if signed {
		lo, hi = new(big.Int).Neg(pow2(uint(bits-1))), subI(pow2(uint(bits-1)), b1)
	}
	in := and(not(ltZero(linAddI(v, new(big.Int).Neg(lo)))), not(ltZero(linSub(linC(hi), v))))
	return tuple(ite(in, mkInt(v), nAny), ite(in, nNil, nErr))
}

// unhex: the bytes behind hexadecimal digits that were written by hexText.
func unhex(src *Node) *Node {
	if src.k != NLeaf || src.lk != LSeqV && src.lk != LStr {
		return nil
	}
	out := emptySeq('b')
	for i := range src.seq.ps {
		p := &src.seq.ps[i]
		if p.k != PWin || p.base.op != "app" || p.base.args[0] != any("hex") {
			return nil
		}
		arg, ok := p.base.args[2].(*Node)
		if !ok || !arg.leaf(LSeqV) {
			return nil
		}
		o, n := divL(p.off, b2), divL(p.n, b2)
		if !o.leaf(LInt) || !n.leaf(LInt) || linScale(o.lin, b2) != p.off || linScale(n.lin, b2) != p.n {
			return nil
		}
		w := seqSlice(arg.seq, o.lin, n.lin)
		if !w.leaf(LSeqV) {
			return nil
		}
		out = concatSeq(out, w.seq)
	}
	if len(out.ps) == 0 {
		return nil
	}
	return mkSeqV(out, false)
}
