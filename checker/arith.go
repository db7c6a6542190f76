package main

// Integer arithmetic on linear forms. Operations on single forms; lifted to
// decision diagrams by the callers (apply).

import (
	"go/types"
	"sort"
)

// intInfo returns width and signedness of an integer type.
func intInfo(t types.Type) (bits uint, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeRange(t types.Type) (lo, hi I) {
	n, s, ok := intInfo(t)
	if !ok {
		return nil, nil
	}
	if s {
		return negI(pow2(n - 1)), subI(pow2(n-1), b1)
	}
	return b0, subI(pow2(n), b1)
}

// noWrap reports that l only involves loop counters and lengths, for which
// overflow is excluded (fewer than 2^31 iterations / bytes).
func noWrap(l *Lin) bool {
	for _, t := range l.ts {
		if t.a.op != "k" && t.a.op != "kph" {
			return false
		}
	}
	return len(l.ts) > 0
}

// wrapL reduces l into the range of t.
func wrapL(l *Lin, t types.Type) *Node {
	n, signed, ok := intInfo(t)
	if !ok {
		return mkInt(l)
	}
	return wrapN(l, n, signed)
}

func wrapN(l *Lin, n uint, signed bool) *Node {
	M := pow2(n)
	base := b0
	if signed {
		base = negI(pow2(n - 1))
	}
	if l.isConst() {
		return mkInt(linC(addI(fmod(subI(l.k, base), M), base)))
	}
	lo, hi := l.rng()
	top := addI(base, M)
	if lo != nil && hi != nil && lo.Cmp(base) >= 0 && hi.Cmp(top) < 0 {
		return mkInt(l)
	}
	if noWrap(l) {
		return mkInt(l)
	}
	// drop multiples of M
	ts := make([]Term, 0, len(l.ts))
	ch := false
	for _, x := range l.ts {
		c := x.c
		if c.CmpAbs(M) >= 0 {
			c = fmod(c, M)
			if x.c.Sign() < 0 && c.Sign() != 0 {
				c = subI(c, M)
			}
			ch = true
		}
		if c.Sign() != 0 {
			ts = append(ts, Term{x.a, c})
		}
	}
	if ch {
		return wrapN(mkLin(l.k, ts), n, signed)
	}
	if lo != nil && hi != nil {
		w0, w1 := fdiv(subI(lo, base), M), fdiv(subI(hi, base), M)
		d := subI(w1, w0)
		if d.Cmp(bi(3)) <= 0 {
			r := mkInt(linAddI(l, negI(mulI(w1, M))))
			for w := subI(w1, b1); w.Cmp(w0) >= 0; w = subI(w, b1) {
				// l < base + (w+1)*M
				lim := addI(base, mulI(addI(w, b1), M))
				r = ite(ltZero(linAddI(l, negI(lim))), mkInt(linAddI(l, negI(mulI(w, M)))), r)
			}
			return r
		}
	}
	// general: l - M*floor((l-base)/M)
	return liftLin(divL(linAddI(l, negI(base)), M), func(q *Lin) *Node {
		return mkInt(linSub(l, linScale(q, M)))
	})
}

func liftLin(n *Node, f func(*Lin) *Node) *Node {
	if n.k == NLeaf && n.lk == LInt {
		return f(n.lin)
	}
	return apply(func(a []*Node) *Node {
		if a[0].lk != LInt {
			failf("integer expected, have %s", a[0])
		}
		return f(a[0].lin)
	}, n)
}

func liftLin2(x, y *Node, f func(a, b *Lin) *Node) *Node {
	if x.leaf(LInt) && y.leaf(LInt) {
		return f(x.lin, y.lin)
	}
	return apply(func(a []*Node) *Node {
		if a[0].lk != LInt || a[1].lk != LInt {
			failf("integers expected, have %s and %s", a[0], a[1])
		}
		return f(a[0].lin, a[1].lin)
	}, x, y)
}

// divL: floor(l/c), c>0.
func divL(l *Lin, c I) *Node {
	if c.Cmp(b1) == 0 {
		return mkInt(l)
	}
	if l.isConst() {
		return mkInt(linC(fdiv(l.k, c)))
	}
	// pull out multiples
	var out, rest []Term
	for _, t := range l.ts {
		if fmod(t.c, c).Sign() == 0 {
			out = append(out, Term{t.a, fdiv(t.c, c)})
		} else {
			rest = append(rest, t)
		}
	}
	q := mkLin(fdiv(l.k, c), out)
	r := mkLin(fmod(l.k, c), rest)
	if r.isConst() {
		return mkInt(q)
	}
	lo, hi := r.rng()
	if lo != nil && hi != nil {
		a, b := fdiv(lo, c), fdiv(hi, c)
		if a.Cmp(b) == 0 {
			return mkInt(linAddI(q, a))
		}
	}
	// common factor
	g := I(nil)
	for _, t := range r.ts {
		if g == nil {
			g = mulI(t.c, b1)
			g.Abs(g)
		} else {
			g = gcdI(g, t.c)
		}
	}
	g = gcdI(g, c)
	if g.Cmp(b1) > 0 {
		ts := make([]Term, len(r.ts))
		for i, t := range r.ts {
			ts[i] = Term{t.a, fdiv(t.c, g)}
		}
		return liftLin(divL(mkLin(fdiv(r.k, g), ts), fdiv(c, g)), func(d *Lin) *Node { return mkInt(linAdd(q, d)) })
	}
	// low bits that cannot reach the divisor's granularity: drop for powers of 2
	if isPow2(c) {
		// split terms: high part multiple of 2^j, low part < 2^j
		if hi2, ok := dropLow(r); ok {
			return liftLin(divL(hi2, c), func(d *Lin) *Node { return mkInt(linAdd(q, d)) })
		}
	}
	// div(div(x,a)+k, b) = div(x+k*a, a*b)
	if len(r.ts) == 1 && r.ts[0].c.Cmp(b1) == 0 && r.ts[0].a.op == "div" {
		in, a := r.ts[0].a.args[0].(*Lin), r.ts[0].a.args[1].(I)
		return liftLin(divL(linAddI(in, mulI(r.k, a)), mulI(a, c)), func(d *Lin) *Node { return mkInt(linAdd(q, d)) })
	}
	return mkInt(linAdd(q, linA(divAtom(r, c))))
}

// dropLow removes terms that cannot influence bits >= the smallest
// coefficient they are separated from.
func dropLow(r *Lin) (*Lin, bool) {
	ts := append([]Term(nil), r.ts...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].c.CmpAbs(ts[j].c) < 0 })
	k0 := r.k
	for n := 1; n < len(ts); n++ {
		// group low = ts[:n]; high all multiples of G
		G := I(nil)
		for _, t := range ts[n:] {
			if G == nil {
				G = mulI(t.c, b1)
				G.Abs(G)
			} else {
				G = gcdI(G, t.c)
			}
		}
		if G.Cmp(b1) <= 0 || !isPow2(G) {
			continue
		}
		klow := fmod(k0, G)
		low := mkLin(klow, append([]Term(nil), ts[:n]...))
		lo, hi := low.rng()
		if lo == nil || hi == nil {
			continue
		}
		a, b := fdiv(lo, G), fdiv(hi, G)
		if a.Cmp(b) == 0 {
			k := addI(subI(k0, klow), mulI(a, G))
			return mkLin(k, append([]Term(nil), ts[n:]...)), true
		}
	}
	return nil, false
}

func divAtom(r *Lin, c I) *Atom {
	lo, hi := r.rng()
	var ql, qh I
	if lo != nil {
		ql = fdiv(lo, c)
	}
	if hi != nil {
		qh = fdiv(hi, c)
	}
	return mkAtom("div", ql, qh, r, c)
}

// quoL: Go's truncated division by a positive constant.
func quoL(l *Lin, c I) *Node {
	if l.nonneg() {
		return divL(l, c)
	}
	neg := liftLin(divL(linNeg(l), c), func(q *Lin) *Node { return mkInt(linNeg(q)) })
	return ite(ltZero(l), neg, divL(l, c))
}

func remL(l *Lin, c I) *Node {
	return liftLin(quoL(l, c), func(q *Lin) *Node { return mkInt(linSub(l, linScale(q, c))) })
}

// lowBits: l mod 2^n (floor).
func lowBits(l *Lin, n uint) *Node {
	M := pow2(n)
	return liftLin(divL(l, M), func(q *Lin) *Node { return mkInt(linSub(l, linScale(q, M))) })
}

// field: bits [s,e) of l, in place.
func fieldBits(l *Lin, s, e uint) *Node {
	return liftLin(divL(l, pow2(s)), func(q *Lin) *Node {
		return liftLin(lowBits(q, e-s), func(f *Lin) *Node { return mkInt(linScale(f, pow2(s))) })
	})
}

func andConst(l *Lin, m I, n uint) *Node {
	m = fmod(m, pow2(n))
	r := mkI(0)
	for i := uint(0); i < n; {
		if m.Bit(int(i)) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(int(j)) == 1 {
			j++
		}
		r = liftLin2(r, fieldBits(l, i, j), func(a, b *Lin) *Node { return mkInt(linAdd(a, b)) })
		i = j
	}
	return r
}

// bitLits decomposes l (0 <= l < 2^n) into per-bit linear forms, if possible.
func bitLits(l *Lin, n uint) []*Lin {
	out := make([]*Lin, n)
	k := l.k
	for _, t := range l.ts {
		c := t.c
		neg := c.Sign() < 0
		if neg {
			c = negI(c)
		}
		if !isBit(t.a) || !isPow2(c) || uint(c.BitLen()-1) >= n {
			return nil
		}
		j := c.BitLen() - 1
		if out[j] != nil {
			return nil
		}
		if neg {
			out[j] = linAddI(linNeg(linA(t.a)), b1)
			k = subI(k, c)
		} else {
			out[j] = linA(t.a)
		}
	}
	if k.Sign() < 0 || k.BitLen() > int(n) {
		return nil
	}
	for j := 0; j < int(n); j++ {
		if k.Bit(j) == 1 {
			if out[j] != nil {
				return nil
			}
			out[j] = linC(b1)
		} else if out[j] == nil {
			out[j] = linC(b0)
		}
	}
	return out
}

func andL(a, b *Lin, n uint) *Node {
	if b.isConst() {
		return signFix(andConst(a, b.k, n), b.k, n)
	}
	if a.isConst() {
		return signFix(andConst(b, a.k, n), a.k, n)
	}
	if a == b {
		return mkInt(a)
	}
	x, y := bitLits(a, n), bitLits(b, n)
	if x != nil && y != nil {
		r := mkI(0)
		for j := range x {
			w := pow2(uint(j))
			var p *Node
			switch {
			case isZero(x[j]) || isZero(y[j]):
				continue
			case x[j].isConst():
				p = mkInt(linScale(y[j], w))
			case y[j].isConst() || x[j] == y[j]:
				p = mkInt(linScale(x[j], w))
			default:
				p = ite(ltZero(linAddI(x[j], bi(-1))), mkI(0), mkInt(linScale(y[j], w)))
			}
			r = liftLin2(r, p, func(a, b *Lin) *Node { return mkInt(linAdd(a, b)) })
		}
		return r
	}
	// disjoint by magnitude: b < 2^j and 2^j | a
	if disjoint(a, b) || disjoint(b, a) {
		return mkI(0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	lo, hi := b0, I(nil)
	_, h1 := a.rng()
	_, h2 := b.rng()
	hi = h1
	if h2 != nil && (hi == nil || h2.Cmp(hi) < 0) {
		hi = h2
	}
	return mkInt(linA(mkAtom("and", lo, hi, a, b, int(n))))
}

// signFix: a negative mask keeps the high part (signed operands).
func signFix(r *Node, m I, n uint) *Node { return r }

func disjoint(a, b *Lin) bool {
	lo, hi := b.rng()
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return false
	}
	M := pow2(uint(hi.BitLen()))
	if fmod(a.k, M).Sign() != 0 {
		return false
	}
	for _, t := range a.ts {
		if fmod(t.c, M).Sign() != 0 {
			return false
		}
	}
	return true
}

func gcdI(a, b I) I {
	x := mulI(a, b1)
	x.Abs(x)
	y := mulI(b, b1)
	y.Abs(y)
	if x.Sign() == 0 {
		return y
	}
	if y.Sign() == 0 {
		return x
	}
	return new(bigInt).GCD(nil, nil, x, y)
}

// splitSmall applies f to each value of l if l has few possible values.
func splitSmall(l *Lin, maxVals int64, f func(v I) *Node) *Node {
	if l.isConst() {
		return f(l.k)
	}
	lo, hi := l.rng()
	if lo == nil || hi == nil || subI(hi, lo).Cmp(bi(maxVals)) >= 0 {
		return nil
	}
	r := f(hi)
	for v := subI(hi, b1); v.Cmp(lo) >= 0; v = subI(v, b1) {
		r = ite(ltZero(linAddI(l, negI(addI(v, b1)))), f(v), r)
	}
	return r
}
