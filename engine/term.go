package main

// Terms: hash-consed bit-vector / boolean expressions over symbolic inputs.
// Width 0 is Bool. Floats are 64-bit vectors holding the IEEE bits.

import (
	"fmt"
	"math"
	"math/bits"
)

type TOp uint8

const (
	OConst TOp = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	OTrunc // low w bits of a
	OZExt
	OSExt
	OIte
	// bool
	ONot
	OBAnd
	OBOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	// float (operands are 64-bit IEEE bit patterns)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OSToF
	OUToF
	OFToS // truncation toward zero; out-of-range unspecified
	OFTo32   // 64-bit float rounded to a 32-bit one
	OFFrom32 // 32-bit float widened
)

var opName = map[TOp]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OIte: "ite", ONot: "not", OBAnd: "and", OBOr: "or",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OFAdd: "gfadd", OFSub: "gfsub", OFMul: "gfmul", OFDiv: "gfdiv",
	OFLt: "gflt", OFLe: "gfle", OFEq: "gfeq", OSToF: "gstof", OUToF: "gutof", OFToS: "gftos", OFTo32: "gfto32", OFFrom32: "gffrom32"}

type Term struct {
	op      TOp
	w       uint8
	a, b, c *Term
	k       uint64 // const value, or variable sequence number
	k2      uint64 // variable: declared low bound
	k3      uint64 // variable: declared high bound
	txt     uint16 // variable: 0, or kind<<8|index of a decimal-text cell whose source is a
	id      int32
	ulo     uint64
	uhi     uint64
	stamp   int64
	val     uint64
	hasFP   bool
	lazy    bool // see Solver.check
	fp      bool // an arithmetic float operation occurs in it
	vset    []uint64
}

type termKey struct {
	op      TOp
	w       uint8
	a, b, c int32
	k       uint64
	k2, k3  uint64
	txt     uint16
}

type Terms struct {
	tab   map[termKey]*Term
	next  int32
	tTrue *Term
	tFals *Term
	stamp int64
	model []uint64
}

func newTerms() *Terms {
	t := &Terms{}
	t.reset()
	return t
}

func (t *Terms) reset() {
	t.tab = make(map[termKey]*Term, 1<<14)
	t.next = 1
	t.tTrue = t.mkConst(0, 1)
	t.tFals = t.mkConst(0, 0)
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (t *Terms) intern(op TOp, w uint8, a, b, c *Term, k, k2, k3 uint64, txt uint16) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k, k2, k3, txt}
	if x, ok := t.tab[key]; ok {
		return x
	}
	x := &Term{op: op, w: w, a: a, b: b, c: c, k: k, k2: k2, k3: k3, txt: txt, id: t.next, stamp: -1}
	t.next++
	x.hasFP = op >= OFAdd && (op <= OFDiv || op >= OSToF)
	x.fp = x.hasFP || a != nil && a.fp || b != nil && b.fp || c != nil && c.fp
	for _, s := range []*Term{a, b, c} {
		if s != nil && s.hasFP && txt == 0 {
			x.hasFP = true
		}
	}
	t.rangeOf(x)
	t.tab[key] = x
	return x
}

func (t *Terms) rangeOf(x *Term) {
	m := mask(x.w)
	x.ulo, x.uhi = 0, m
	a, b := x.a, x.b
	switch x.op {
	case OConst:
		x.ulo, x.uhi = x.k, x.k
	case OVar:
		x.ulo, x.uhi = x.k2, x.k3
		if x.ulo > x.uhi { // signed interval crossing zero
			x.ulo, x.uhi = 0, m
		}
	case OAdd:
		lo, c1 := bits.Add64(a.ulo, b.ulo, 0)
		hi, c2 := bits.Add64(a.uhi, b.uhi, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			x.ulo, x.uhi = lo, hi
		} else if b.op == OConst && x.w > 0 { // subtraction of a constant written as add of negative
			n := (-b.k) & m
			if a.ulo >= n {
				x.ulo, x.uhi = a.ulo-n, a.uhi-n
			}
		}
	case OSub:
		if a.ulo >= b.uhi {
			x.ulo, x.uhi = a.ulo-b.uhi, a.uhi-b.ulo
		}
	case OMul:
		h, l := bits.Mul64(a.uhi, b.uhi)
		if h == 0 && l <= m {
			x.ulo, x.uhi = a.ulo*b.ulo, l
		}
	case OUDiv:
		if b.ulo > 0 {
			x.ulo, x.uhi = a.ulo/b.uhi, a.uhi/b.ulo
		}
	case OURem:
		if b.ulo > 0 {
			x.uhi = b.uhi - 1
			if a.uhi < x.uhi {
				x.uhi = a.uhi
			}
			if a.uhi < b.ulo {
				x.ulo, x.uhi = a.ulo, a.uhi
			}
		}
	case OAnd:
		x.uhi = a.uhi
		if b.uhi < x.uhi {
			x.uhi = b.uhi
		}
	case OOr, OXor:
		n := bits.Len64(a.uhi | b.uhi)
		if n < 64 {
			x.uhi = uint64(1)<<uint(n) - 1
		}
		if x.op == OOr {
			x.ulo = a.ulo
			if b.ulo > x.ulo {
				x.ulo = b.ulo
			}
		}
	case OLShr:
		if b.op == OConst && b.k < 64 {
			x.ulo, x.uhi = a.ulo>>b.k, a.uhi>>b.k
		} else {
			x.uhi = a.uhi
		}
	case OTrunc:
		if a.uhi <= m {
			x.ulo, x.uhi = a.ulo, a.uhi
		}
	case OZExt:
		x.ulo, x.uhi = a.ulo, a.uhi
	case OSExt:
		if a.uhi <= mask(a.w)>>1 {
			x.ulo, x.uhi = a.ulo, a.uhi
		}
	case OIte:
		x.ulo, x.uhi = x.b.ulo, x.b.uhi
		if x.c.ulo < x.ulo {
			x.ulo = x.c.ulo
		}
		if x.c.uhi > x.uhi {
			x.uhi = x.c.uhi
		}
	}
}

func (t *Terms) mkConst(w uint8, k uint64) *Term {
	return t.intern(OConst, w, nil, nil, nil, k&mask(w), 0, 0, 0)
}
func (t *Terms) mkBool(b bool) *Term {
	if b {
		return t.tTrue
	}
	return t.tFals
}
func (t *Terms) mkVar(w uint8, seq int, lo, hi uint64) *Term {
	return t.intern(OVar, w, nil, nil, nil, uint64(seq), lo, hi, 0)
}
func (t *Terms) mkTxt(src *Term, kind, idx, seq int) *Term {
	return t.intern(OVar, 8, src, nil, nil, uint64(seq), '-', '9', uint16(kind<<8|idx))
}

func isC(t *Term) bool { return t.op == OConst }

func (t *Terms) signedRange(x *Term) (lo, hi int64) {
	w := x.w
	if x.op == OVar && x.k2 > x.k3 { // declared signed interval
		return sx(x.k2, w), sx(x.k3, w)
	}
	half := mask(w) >> 1
	if x.uhi <= half || x.ulo > half {
		return sx(x.ulo, w), sx(x.uhi, w)
	}
	return sx(half+1, w), int64(half)
}

func (t *Terms) mkBin(op TOp, a, b *Term) *Term {
	w := a.w
	m := mask(w)
	if isC(a) && isC(b) {
		return t.mkConst(resW(op, w), evalBin(op, w, a.k, b.k))
	}
	switch op {
	case OAdd:
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && isC(a.b) {
				return t.mkBin(OAdd, a.a, t.mkConst(w, a.b.k+b.k))
			}
		}
	case OSub:
		if isC(b) {
			return t.mkBin(OAdd, a, t.mkConst(w, -b.k))
		}
		if a == b {
			return t.mkConst(w, 0)
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
		if a.op == OAdd && a.a == b {
			return a.b
		}
	case OMul:
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OUDiv:
		if isC(b) && b.k == 1 {
			return a
		}
		if isC(b) && b.k != 0 && b.k&(b.k-1) == 0 {
			return t.mkBin(OLShr, a, t.mkConst(w, uint64(bits.TrailingZeros64(b.k))))
		}
		if b.ulo > a.uhi {
			return t.mkConst(w, 0)
		}
	case OURem:
		if isC(b) && b.k != 0 && b.k&(b.k-1) == 0 {
			return t.mkBin(OAnd, a, t.mkConst(w, b.k-1))
		}
		if b.ulo > a.uhi {
			return a
		}
	case OSDiv, OSRem:
		half := m >> 1
		if a.uhi <= half && b.uhi <= half {
			if op == OSDiv {
				return t.mkBin(OUDiv, a, b)
			}
			return t.mkBin(OURem, a, b)
		}
	case OAnd:
		if isC(a) {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if isC(b) {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			if b.k&(b.k+1) == 0 {
				if a.uhi <= b.k {
					return a
				}
				// push low-bit masks into modular arithmetic (hash computations)
				n := uint8(bits.Len64(b.k))
				if n < w {
					if l := t.lowBits(a, n); l != nil {
						return t.mkExt(OZExt, l, w)
					}
				}
			}
			if a.op == OAnd && isC(a.b) {
				return t.mkBin(OAnd, a.a, t.mkConst(w, a.b.k&b.k))
			}
		}
	case OOr:
		if isC(a) {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if isC(b) {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		}
	case OXor:
		if isC(a) {
			a, b = b, a
		}
		if a == b {
			return t.mkConst(w, 0)
		}
		if isC(b) && b.k == 0 {
			return a
		}
	case OShl, OLShr, OAShr:
		if isC(b) {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				if op != OAShr {
					return t.mkConst(w, 0)
				}
				b = t.mkConst(w, uint64(w-1))
			}
		}
		if op == OAShr && a.uhi <= m>>1 {
			return t.mkBin(OLShr, a, b)
		}
		if isC(a) && a.k == 0 {
			return a
		}
	case OEq:
		return t.mkEq(a, b)
	case OUlt:
		if a.uhi < b.ulo {
			return t.tTrue
		}
		if a.ulo >= b.uhi || a == b {
			return t.tFals
		}
	case OUle:
		if a.uhi <= b.ulo || a == b {
			return t.tTrue
		}
		if a.ulo > b.uhi {
			return t.tFals
		}
		return t.mkNot(t.mkBin(OUlt, b, a))
	case OSlt:
		alo, ahi := t.signedRange(a)
		blo, bhi := t.signedRange(b)
		if ahi < blo {
			return t.tTrue
		}
		if alo >= bhi || a == b {
			return t.tFals
		}
		if a.w > 1 && a.uhi <= m>>1 && b.uhi <= m>>1 {
			return t.mkBin(OUlt, a, b)
		}
	case OSle:
		return t.mkNot(t.mkBin(OSlt, b, a))
	case OFEq, OFLe:
		// no x==x shortcut: NaN
	}
	return t.intern(op, resW(op, w), a, b, nil, 0, 0, 0, 0)
}

// lowBits computes the low n bits of a as an n-bit term, for operations where
// low bits depend on low bits only. nil when that does not apply.
func (t *Terms) lowBits(a *Term, n uint8) *Term {
	if a.w == n {
		return a
	}
	switch a.op {
	case OConst:
		return t.mkConst(n, a.k)
	case OAdd, OSub, OMul, OAnd, OOr, OXor:
		x := t.lowBits(a.a, n)
		if x == nil {
			x = t.mkTrunc(a.a, n)
		}
		y := t.lowBits(a.b, n)
		if y == nil {
			y = t.mkTrunc(a.b, n)
		}
		return t.mkBin(a.op, x, y)
	case OZExt, OSExt:
		if a.a.w >= n {
			if l := t.lowBits(a.a, n); l != nil {
				return l
			}
			return t.mkTrunc(a.a, n)
		}
		return t.mkExt(a.op, a.a, n)
	case OTrunc:
		if l := t.lowBits(a.a, n); l != nil {
			return l
		}
		return t.mkTrunc(a.a, n)
	}
	return nil
}

func resW(op TOp, w uint8) uint8 {
	switch op {
	case OEq, OUlt, OUle, OSlt, OSle, OFLt, OFLe, OFEq:
		return 0
	}
	return w
}

func (t *Terms) mkEq(a, b *Term) *Term {
	if a == b {
		return t.tTrue
	}
	if isC(a) && isC(b) {
		return t.mkBool(a.k == b.k)
	}
	if isC(a) {
		a, b = b, a
	}
	if a.w == 0 {
		if isC(b) {
			if b.k == 1 {
				return a
			}
			return t.mkNot(a)
		}
		if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
			return t.tFals
		}
	} else {
		if a.uhi < b.ulo || b.uhi < a.ulo {
			return t.tFals
		}
	}
	if isC(b) {
		switch a.op {
		case OZExt:
			return t.mkEq(a.a, t.mkConst(a.a.w, b.k)) // out-of-range caught above
		case OSExt:
			if uint64(sx(b.k&mask(a.a.w), a.a.w))&mask(a.w) == b.k {
				return t.mkEq(a.a, t.mkConst(a.a.w, b.k))
			}
			return t.tFals
		case OAdd:
			if isC(a.b) {
				return t.mkEq(a.a, t.mkConst(a.w, b.k-a.b.k))
			}
		case OXor:
			if isC(a.b) {
				return t.mkEq(a.a, t.mkConst(a.w, b.k^a.b.k))
			}
		case OMul:
			if isC(a.b) && a.b.k&1 == 1 { // odd constant is invertible
				inv := a.b.k
				for i := 0; i < 6; i++ {
					inv *= 2 - a.b.k*inv
				}
				return t.mkEq(a.a, t.mkConst(a.w, b.k*inv))
			}
		case OIte:
			if isC(a.b) && isC(a.c) {
				switch {
				case a.b.k == b.k && a.c.k == b.k:
					return t.tTrue
				case a.b.k == b.k:
					return a.a
				case a.c.k == b.k:
					return t.mkNot(a.a)
				default:
					return t.tFals
				}
			}
		}
	} else {
		if a.txt != 0 && b.txt != 0 && a.txt == b.txt && a.a != nil && b.a != nil {
			return t.mkEq(a.a, b.a)
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return t.mkEq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b == b.b {
			return t.mkEq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return t.intern(OEq, 0, a, b, nil, 0, 0, 0, 0)
}

func (t *Terms) mkNot(a *Term) *Term {
	if isC(a) {
		return t.mkBool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return t.intern(ONot, 0, a, nil, nil, 0, 0, 0, 0)
}

func (t *Terms) mkBAnd(a, b *Term) *Term {
	if isC(a) {
		if a.k == 0 {
			return a
		}
		return b
	}
	if isC(b) {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return t.tFals
	}
	if a.op == OBAnd && (a.b == b || a.a == b) {
		return a
	}
	return t.intern(OBAnd, 0, a, b, nil, 0, 0, 0, 0)
}

func (t *Terms) mkBOr(a, b *Term) *Term {
	return t.mkNot(t.mkBAnd(t.mkNot(a), t.mkNot(b)))
}

func (t *Terms) mkIte(c, a, b *Term) *Term {
	if isC(c) {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		// (c and a) or (not c and b)
		if isC(a) && isC(b) {
			if a.k == 1 {
				return c
			}
			return t.mkNot(c)
		}
		if isC(a) {
			if a.k == 1 {
				return t.mkBOr(c, b)
			}
			return t.mkBAnd(t.mkNot(c), b)
		}
		if isC(b) {
			if b.k == 1 {
				return t.mkBOr(t.mkNot(c), a)
			}
			return t.mkBAnd(c, a)
		}
	}
	if c.op == ONot {
		c, a, b = c.a, b, a
	}
	return t.intern(OIte, a.w, c, a, b, 0, 0, 0, 0)
}

func (t *Terms) mkTrunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if isC(a) {
		return t.mkConst(w, a.k)
	}
	switch a.op {
	case OZExt, OSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return t.mkTrunc(a.a, w)
		}
		return t.mkExt(a.op, a.a, w)
	case OTrunc:
		return t.mkTrunc(a.a, w)
	case OIte:
		if isC(a.b) && isC(a.c) {
			return t.mkIte(a.a, t.mkTrunc(a.b, w), t.mkTrunc(a.c, w))
		}
	}
	return t.intern(OTrunc, w, a, nil, nil, 0, 0, 0, 0)
}

func (t *Terms) mkExt(op TOp, a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if isC(a) {
		if op == OZExt {
			return t.mkConst(w, a.k)
		}
		return t.mkConst(w, uint64(sx(a.k, a.w)))
	}
	if op == OSExt && a.uhi <= mask(a.w)>>1 {
		op = OZExt
	}
	if a.op == OZExt && op == OZExt {
		return t.mkExt(OZExt, a.a, w)
	}
	return t.intern(op, w, a, nil, nil, 0, 0, 0, 0)
}

func (t *Terms) mkUn(op TOp, a *Term) *Term {
	w := uint8(64)
	if op == OFTo32 {
		w = 32
	}
	if isC(a) {
		return t.mkConst(w, evalUn(op, a.k))
	}
	return t.intern(op, w, a, nil, nil, 0, 0, 0, 0)
}

func evalUn(op TOp, a uint64) uint64 {
	switch op {
	case OSToF:
		return math.Float64bits(float64(int64(a)))
	case OUToF:
		return math.Float64bits(float64(a))
	case OFToS:
		return uint64(int64(math.Float64frombits(a)))
	case OFTo32:
		return uint64(math.Float32bits(float32(math.Float64frombits(a))))
	case OFFrom32:
		return math.Float64bits(float64(math.Float32frombits(uint32(a))))
	}
	panic("evalUn")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalBin(op TOp, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		if b == 0 {
			if sx(a, w) < 0 {
				return 1
			}
			return m
		}
		if sx(b, w) == -1 {
			return (-a) & m
		}
		return uint64(sx(a, w)/sx(b, w)) & m
	case OSRem:
		if b == 0 {
			return a
		}
		if sx(b, w) == -1 {
			return 0
		}
		return uint64(sx(a, w)%sx(b, w)) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, w) < sx(b, w))
	case OSle:
		return b2u(sx(a, w) <= sx(b, w))
	case OBAnd:
		return a & b
	}
	fa, fb := math.Float64frombits(a), math.Float64frombits(b)
	switch op {
	case OFAdd:
		return math.Float64bits(fa + fb)
	case OFSub:
		return math.Float64bits(fa - fb)
	case OFMul:
		return math.Float64bits(fa * fb)
	case OFDiv:
		return math.Float64bits(fa / fb)
	case OFLt:
		return b2u(fa < fb)
	case OFLe:
		return b2u(fa <= fb)
	case OFEq:
		return b2u(fa == fb)
	}
	panic(fmt.Sprint("evalBin ", op))
}

// ---- evaluation under the current model ----

func (t *Terms) setModel(m []uint64) {
	t.model = m
	t.stamp++
}

func (t *Terms) eval(x *Term) uint64 {
	if x.op == OConst {
		return x.k
	}
	if x.stamp == t.stamp {
		return x.val
	}
	var v uint64
	switch x.op {
	case OVar:
		if int(x.k) < len(t.model) {
			v = t.model[x.k] & mask(x.w)
		} else {
			v = x.k2
		}
	case OTrunc:
		v = t.eval(x.a) & mask(x.w)
	case OZExt:
		v = t.eval(x.a)
	case OSExt:
		v = uint64(sx(t.eval(x.a), x.a.w)) & mask(x.w)
	case OIte:
		if t.eval(x.a) == 1 {
			v = t.eval(x.b)
		} else {
			v = t.eval(x.c)
		}
	case ONot:
		v = 1 - t.eval(x.a)
	case OSToF, OUToF, OFToS, OFTo32, OFFrom32:
		v = evalUn(x.op, t.eval(x.a))
	case OBAnd:
		v = t.eval(x.a)
		if v == 1 {
			v = t.eval(x.b)
		}
	default:
		v = evalBin(x.op, x.a.w, t.eval(x.a), t.eval(x.b))
	}
	x.val, x.stamp = v, t.stamp
	return v
}

// ---- SMT-LIB printing ----

func (x *Term) sort() string {
	if x.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", x.w)
}

func (x *Term) ref() string {
	switch x.op {
	case OConst:
		if x.w == 0 {
			if x.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", x.k, x.w)
	}
	return fmt.Sprintf("t%d", x.id)
}

// body prints the definition with children by reference.
func (x *Term) body() string {
	switch x.op {
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", x.w-1, x.a.ref())
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a.w, x.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, x.a.ref())
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", x.a.ref(), x.b.ref(), x.c.ref())
	case ONot, OSToF, OUToF, OFToS, OFTo32, OFFrom32:
		return fmt.Sprintf("(%s %s)", opName[x.op], x.a.ref())
	}
	if r := x.narrowBody(); r != "" {
		return r
	}
	return fmt.Sprintf("(%s %s %s)", opName[x.op], x.a.ref(), x.b.ref())
}

// narrowBody prints an operation at the width its operands' value ranges need.
func (x *Term) narrowBody() string {
	a, b := x.a, x.b
	w := a.w
	if w < 8 || a.hasFP || b.hasFP {
		return ""
	}
	low := func(t *Term, n int) string {
		if t.op == OConst {
			return fmt.Sprintf("(_ bv%d %d)", t.k&mask(uint8(n)), n)
		}
		return fmt.Sprintf("((_ extract %d 0) %s)", n-1, t.ref())
	}
	bin := func(op string, n int) string {
		return fmt.Sprintf("((_ zero_extend %d) (%s %s %s))", int(w)-n, op, low(a, n), low(b, n))
	}
	n := max(1, bits.Len64(a.uhi|b.uhi))
	switch x.op {
	case OAdd:
		if b.op == OConst {
			if k := (-b.k) & mask(w); b.k>>(w-1) == 1 && a.ulo >= k { // a - k
				n = max(1, bits.Len64(a.uhi|k))
				if n < int(w) {
					return fmt.Sprintf("((_ zero_extend %d) (bvsub %s (_ bv%d %d)))", int(w)-n, low(a, n), k, n)
				}
				return ""
			}
		}
		if s, c := bits.Add64(a.uhi, b.uhi, 0); c == 0 {
			n = max(n, bits.Len64(s))
			if n < int(w) {
				return bin("bvadd", n)
			}
		}
	case OMul:
		if h, l := bits.Mul64(a.uhi, b.uhi); h == 0 {
			n = max(n, bits.Len64(l))
			if n < int(w) {
				return bin("bvmul", n)
			}
		}
	case OSub:
		if a.ulo >= b.uhi && n < int(w) {
			return bin("bvsub", n)
		}
	case OUDiv, OURem:
		if b.ulo > 0 && n < int(w) {
			return bin(opName[x.op], n)
		}
	case OEq, OUlt, OUle:
		if x.op == OUle && a.uhi <= b.ulo {
			return "" // states the declared range itself
		}
		if n < int(w) {
			return fmt.Sprintf("(%s %s %s)", opName[x.op], low(a, n), low(b, n))
		}
	case OSlt, OSle:
		if n < int(w) {
			op := "bvult"
			if x.op == OSle {
				op = "bvule"
			}
			return fmt.Sprintf("(%s %s %s)", op, low(a, n), low(b, n))
		}
	}
	return ""
}

const smtPrelude = `(set-option :global-declarations true)
(define-fun gfnan ((a (_ BitVec 64))) Bool (bvugt (bvand a #x7fffffffffffffff) #x7ff0000000000000))
(define-fun gfkey ((a (_ BitVec 64))) (_ BitVec 64) (ite (= ((_ extract 63 63) a) #b1) (bvnot a) (ite (= a #x0000000000000000) #x7fffffffffffffff (bvor a #x8000000000000000))))
(define-fun gflt ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (gfnan a)) (not (gfnan b)) (bvult (gfkey a) (gfkey b))))
(define-fun gfeq ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (gfnan a)) (not (gfnan b)) (= (gfkey a) (gfkey b))))
(define-fun gfle ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (gfnan a)) (not (gfnan b)) (bvule (gfkey a) (gfkey b))))
`
const smtPreludeFP = `(define-fun gtofp ((a (_ BitVec 64))) (_ FloatingPoint 11 53) ((_ to_fp 11 53) a))
(define-fun gfadd ((a (_ BitVec 64)) (b (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv (fp.add RNE (gtofp a) (gtofp b))))
(define-fun gfsub ((a (_ BitVec 64)) (b (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv (fp.sub RNE (gtofp a) (gtofp b))))
(define-fun gfmul ((a (_ BitVec 64)) (b (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv (fp.mul RNE (gtofp a) (gtofp b))))
(define-fun gfdiv ((a (_ BitVec 64)) (b (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv (fp.div RNE (gtofp a) (gtofp b))))
(define-fun gstof ((a (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv ((_ to_fp 11 53) RNE a)))
(define-fun gfto32 ((a (_ BitVec 64))) (_ BitVec 32) (fp.to_ieee_bv ((_ to_fp 8 24) RNE (gtofp a))))
(define-fun gffrom32 ((a (_ BitVec 32))) (_ BitVec 64) (fp.to_ieee_bv ((_ to_fp 11 53) RNE ((_ to_fp 8 24) a))))
(define-fun gutof ((a (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE a)))
(define-fun gftos ((a (_ BitVec 64))) (_ BitVec 64) ((_ fp.to_sbv 64) RTZ (gtofp a)))
`
