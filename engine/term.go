package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term operator.  Width 0 denotes Bool, otherwise a bit-vector width.
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	ONot
	ONeg
	OEq
	OUlt
	OSlt
	OBNot
	OBAnd
	OBOr
	OIte
	OZext
	OSext
	OExtract // low bits: extract [w-1:0]
)

// Term is a hash-consed SMT term (per worker).
type Term struct {
	id      int32
	op      Op
	w       uint8
	val     uint64
	a, b, c *Term
	lo, hi  uint64 // unsigned interval
	sl, sh  int64  // signed interval
	evGen   uint32
	evVal   uint64
	defined bool // sent to the solver
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
}

// TB is a term builder.
type TB struct {
	tab   map[tkey]*Term
	n     int32
	T, F  *Term
	evGen uint32
	vars  []*Term
}

func NewTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}}
	tb.F = tb.Const(0, 0)
	tb.T = tb.Const(0, 1)
	return tb
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func smin(w uint8) int64 { return -1 << (w - 1) }
func smax(w uint8) int64 { return int64(mask(w) >> 1) }

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tb *TB) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := tkey{op, w, val, tid(a), tid(b), tid(c)}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{id: tb.n, op: op, w: w, val: val, a: a, b: b, c: c}
	tb.n++
	tb.setIval(t)
	tb.tab[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (tb *TB) setIval(t *Term) {
	w := t.w
	if w == 0 {
		t.lo, t.hi, t.sl, t.sh = 0, 1, 0, 1
		if t.op == OConst {
			t.lo, t.hi = t.val, t.val
		}
		return
	}
	t.lo, t.hi, t.sl, t.sh = 0, mask(w), smin(w), smax(w)
	setS := func(l, h int64) {
		if l > t.sl {
			t.sl = l
		}
		if h < t.sh {
			t.sh = h
		}
	}
	setU := func(l, h uint64) {
		if l > t.lo {
			t.lo = l
		}
		if h < t.hi {
			t.hi = h
		}
	}
	a, b, c := t.a, t.b, t.c
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
		t.sl = sext(t.val, w)
		t.sh = t.sl
		return
	case OVar:
		setU(0, a.val)
	case OAdd:
		if s, cr := bits.Add64(a.hi, b.hi, 0); cr == 0 && s <= mask(w) {
			setU(a.lo+b.lo, s)
		}
		l, h := a.sl+b.sl, a.sh+b.sh
		if noOvAdd(a.sl, b.sl) && noOvAdd(a.sh, b.sh) && l >= smin(w) && h <= smax(w) {
			setS(l, h)
		}
	case OSub:
		if a.lo >= b.hi {
			setU(a.lo-b.hi, a.hi-b.lo)
		}
		l, h := a.sl-b.sh, a.sh-b.sl
		if noOvSub(a.sl, b.sh) && noOvSub(a.sh, b.sl) && l >= smin(w) && h <= smax(w) {
			setS(l, h)
		}
	case OMul:
		if hi, l := bits.Mul64(a.hi, b.hi); hi == 0 && l <= mask(w) {
			setU(a.lo*b.lo, l)
		}
		if abs64(a.sl) < 1<<30 && abs64(a.sh) < 1<<30 && abs64(b.sl) < 1<<30 && abs64(b.sh) < 1<<30 {
			p := []int64{a.sl * b.sl, a.sl * b.sh, a.sh * b.sl, a.sh * b.sh}
			l, h := p[0], p[0]
			for _, x := range p {
				l = min(l, x)
				h = max(h, x)
			}
			if l >= smin(w) && h <= smax(w) {
				setS(l, h)
			}
		}
	case OUDiv:
		if b.lo > 0 {
			setU(a.lo/b.hi, a.hi/b.lo)
		}
	case OURem:
		if b.lo > 0 {
			setU(0, min(b.hi-1, a.hi))
		}
	case OSDiv:
		if a.sl >= 0 && b.sl > 0 {
			setS(a.sl/b.sh, a.sh/b.sl)
		}
	case OSRem:
		if a.sl >= 0 && b.sl > 0 {
			setS(0, min(b.sh-1, a.sh))
		}
	case OAnd:
		setU(0, min(a.hi, b.hi))
	case OOr, OXor:
		m := a.hi | b.hi
		if m != 0 {
			m = (uint64(1) << (bits.Len64(m) - 1) << 1) - 1
		}
		if t.op == OOr {
			setU(max(a.lo, b.lo), m)
		} else {
			setU(0, m)
		}
	case OLShr:
		if b.isConst() {
			if b.val >= uint64(w) {
				setU(0, 0)
			} else {
				setU(a.lo>>b.val, a.hi>>b.val)
			}
		} else {
			setU(0, a.hi)
		}
	case OShl:
		if b.isConst() && b.val < uint64(w) && bits.Len64(a.hi)+int(b.val) <= int(w) {
			setU(a.lo<<b.val, a.hi<<b.val)
		}
	case OAShr:
		if b.isConst() && b.val < 64 {
			setS(a.sl>>b.val, a.sh>>b.val)
		}
	case OIte:
		setU(min(b.lo, c.lo), max(b.hi, c.hi))
		setS(min(b.sl, c.sl), max(b.sh, c.sh))
	case OZext:
		setU(a.lo, a.hi)
	case OSext:
		setS(a.sl, a.sh)
	case OExtract:
		if a.hi <= mask(w) {
			setU(a.lo, a.hi)
		}
		if a.sl >= smin(w) && a.sh <= smax(w) {
			setS(a.sl, a.sh)
		}
	}
	// cross-tighten
	if t.hi <= uint64(smax(w)) {
		setS(int64(t.lo), int64(t.hi))
	}
	if t.sl >= 0 {
		setU(uint64(t.sl), uint64(t.sh))
	}
}

func abs64(x int64) int64 {
	if x < 0 {
		if x == -1<<63 {
			return 1<<63 - 1
		}
		return -x
	}
	return x
}

func noOvAdd(a, b int64) bool {
	s := a + b
	return (s > a) == (b > 0) || b == 0
}
func noOvSub(a, b int64) bool {
	s := a - b
	return (s < a) == (b > 0) || b == 0
}

func (tb *TB) Const(w uint8, v uint64) *Term { return tb.mk(OConst, w, v&mask(w), nil, nil, nil) }
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.T
	}
	return tb.F
}

// Var returns variable number k of width w (0: Bool) known to be <= hi (the
// caller asserts RangeConstraint on the path that introduces it).
func (tb *TB) Var(k int, w uint8, hi uint64) *Term {
	if hi > mask(w) {
		hi = mask(w)
	}
	return tb.mk(OVar, w, uint64(k), tb.Const(64, hi), nil, nil)
}

// RangeConstraint is the unsimplified constraint v <= hi for a variable.
func (tb *TB) RangeConstraint(v *Term) *Term {
	hi := v.a.val
	if v.w == 0 || hi == mask(v.w) {
		return tb.T
	}
	return tb.mk(OBNot, 0, 0, tb.mk(OUlt, 0, 0, tb.Const(v.w, hi), v, nil), nil, nil)
}

func (tb *TB) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return tb.mk(OBNot, 0, 0, a, nil, nil)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return tb.F
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return tb.F
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return tb.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OBAnd, 0, 0, a, b, nil)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return tb.T
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return tb.T
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return tb.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OBOr, 0, 0, a, b, nil)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return tb.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.val == 1 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.b == a { // ite(c,a,ite(d,a,x)) = ite(c|d,a,x)
		return tb.Ite(tb.Or(c, b.a), a, b.c)
	}
	return tb.mk(OIte, a.w, 0, c, a, b)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.T
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return tb.Not(a)
		}
		if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
			return tb.F
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo || a.sh < b.sl || b.sh < a.sl {
			return tb.F
		}
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.val > mask(a.a.w) {
				return tb.F
			}
			return tb.Eq(a.a, tb.Const(a.a.w, b.val))
		case OSext:
			if sext(b.val&mask(a.a.w), a.a.w) != sext(b.val, b.w) {
				return tb.F
			}
			return tb.Eq(a.a, tb.Const(a.a.w, b.val))
		case OAdd:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(a.w, b.val-a.b.val))
			}
		case OXor:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(a.w, b.val^a.b.val))
			}
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				x, y := tb.Eq(a.b, b), tb.Eq(a.c, b)
				return tb.Ite(a.a, x, y)
			}
		case OExtract:
			if a.a.hi <= mask(a.w) {
				return tb.Eq(a.a, tb.Const(a.a.w, b.val))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b == b.b {
			return tb.Eq(a.a, b.a)
		}
		if a.op == OAdd && a.b.isConst() && a.a == b {
			return tb.Bool(a.b.val == 0)
		}
		if b.op == OAdd && b.b.isConst() && b.a == a {
			return tb.Bool(b.b.val == 0)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OEq, 0, 0, a, b, nil)
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a == b {
		return tb.F
	}
	if a.hi < b.lo {
		return tb.T
	}
	if a.lo >= b.hi {
		return tb.F
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tb.Ult(a.a, b.a)
	}
	if a.op == OZext && b.isConst() && b.val <= mask(a.a.w) {
		return tb.Ult(a.a, tb.Const(a.a.w, b.val))
	}
	if b.op == OZext && a.isConst() && a.val <= mask(b.a.w) {
		return tb.Ult(tb.Const(b.a.w, a.val), b.a)
	}
	if b.isConst() && b.val == a.lo+1 {
		return tb.Eq(a, tb.Const(a.w, a.lo))
	}
	if a.isConst() && a.val+1 == b.hi {
		return tb.Eq(b, tb.Const(b.w, b.hi))
	}
	if a.op == OIte && b.isConst() && (a.b.isConst() || a.c.isConst()) {
		return tb.Ite(a.a, tb.Ult(a.b, b), tb.Ult(a.c, b))
	}
	if b.op == OIte && a.isConst() && (b.b.isConst() || b.c.isConst()) {
		return tb.Ite(b.a, tb.Ult(a, b.b), tb.Ult(a, b.c))
	}
	return tb.mk(OUlt, 0, 0, a, b, nil)
}

func (tb *TB) Slt(a, b *Term) *Term {
	if a == b {
		return tb.F
	}
	if a.sh < b.sl {
		return tb.T
	}
	if a.sl >= b.sh {
		return tb.F
	}
	if a.sl >= 0 && b.sl >= 0 {
		return tb.Ult(a, b)
	}
	if b.isConst() && sext(b.val, b.w) == a.sl+1 {
		return tb.Eq(a, tb.Const(a.w, uint64(a.sl)))
	}
	if a.isConst() && sext(a.val, a.w)+1 == b.sh {
		return tb.Eq(b, tb.Const(b.w, uint64(b.sh)))
	}
	// x + c1 < c2 with no overflow
	if a.op == OAdd && a.b.isConst() && b.isConst() {
		c1, c2 := sext(a.b.val, a.w), sext(b.val, b.w)
		if noOvAdd(a.a.sl, c1) && noOvAdd(a.a.sh, c1) && a.a.sl+c1 >= smin(a.w) && a.a.sh+c1 <= smax(a.w) && noOvSub(c2, c1) && c2-c1 >= smin(a.w) && c2-c1 <= smax(a.w) {
			return tb.Slt(a.a, tb.Const(a.w, uint64(c2-c1)))
		}
	}
	if b.op == OAdd && b.b.isConst() && a.isConst() {
		c1, c2 := sext(b.b.val, b.w), sext(a.val, a.w)
		if noOvAdd(b.a.sl, c1) && noOvAdd(b.a.sh, c1) && b.a.sl+c1 >= smin(a.w) && b.a.sh+c1 <= smax(a.w) && noOvSub(c2, c1) && c2-c1 >= smin(a.w) && c2-c1 <= smax(a.w) {
			return tb.Slt(tb.Const(a.w, uint64(c2-c1)), b.a)
		}
	}
	if a.op == OIte && b.isConst() && (a.b.isConst() || a.c.isConst()) {
		return tb.Ite(a.a, tb.Slt(a.b, b), tb.Slt(a.c, b))
	}
	if b.op == OIte && a.isConst() && (b.b.isConst() || b.c.isConst()) {
		return tb.Ite(b.a, tb.Slt(a, b.b), tb.Slt(a, b.c))
	}
	return tb.mk(OSlt, 0, 0, a, b, nil)
}

func (tb *TB) Ule(a, b *Term) *Term { return tb.Not(tb.Ult(b, a)) }
func (tb *TB) Sle(a, b *Term) *Term { return tb.Not(tb.Slt(b, a)) }

func (tb *TB) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w == 0 {
		return tb.Ite(a, tb.Const(w, 1), tb.Const(w, 0))
	}
	if a.isConst() {
		return tb.Const(w, a.val)
	}
	if a.op == OZext {
		return tb.Zext(a.a, w)
	}
	if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return tb.Ite(a.a, tb.Zext(a.b, w), tb.Zext(a.c, w))
	}
	return tb.mk(OZext, w, 0, a, nil, nil)
}

func (tb *TB) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, uint64(sext(a.val, a.w)))
	}
	if a.sl >= 0 {
		return tb.Zext(a, w)
	}
	if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return tb.Ite(a.a, tb.Sext(a.b, w), tb.Sext(a.c, w))
	}
	return tb.mk(OSext, w, 0, a, nil, nil)
}

func (tb *TB) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, a.val)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tb.Trunc(a.a, w)
		}
		if a.op == OZext {
			return tb.Zext(a.a, w)
		}
		return tb.Sext(a.a, w)
	case OExtract:
		return tb.Trunc(a.a, w)
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tb.Ite(a.a, tb.Trunc(a.b, w), tb.Trunc(a.c, w))
		}
	case OAdd, OSub, OAnd, OOr, OXor:
		if a.b.isConst() {
			return tb.Bin(a.op, tb.Trunc(a.a, w), tb.Trunc(a.b, w))
		}
	}
	return tb.mk(OExtract, w, 0, a, nil, nil)
}

func foldBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("foldBin")
}

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return tb.Const(w, foldBin(op, w, a.val, b.val))
	}
	comm := op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor
	if comm && a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch op {
		case OAdd, OSub, OOr, OXor, OShl, OLShr, OAShr:
			if b.val == 0 {
				return a
			}
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if bits.OnesCount64(b.val) == 1 {
				return tb.Bin(OShl, a, tb.Const(w, uint64(bits.TrailingZeros64(b.val))))
			}
		case OAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if bits.OnesCount64(b.val+1) == 1 && a.hi <= b.val {
				return a
			}
		case OUDiv, OSDiv:
			if b.val == 1 {
				return a
			}
			if op == OSDiv && a.sl >= 0 && sext(b.val, w) > 0 {
				return tb.Bin(OUDiv, a, b)
			}
			if op == OUDiv && bits.OnesCount64(b.val) == 1 {
				return tb.Bin(OLShr, a, tb.Const(w, uint64(bits.TrailingZeros64(b.val))))
			}
		case OURem, OSRem:
			if op == OSRem && a.sl >= 0 && sext(b.val, w) > 0 {
				return tb.Bin(OURem, a, b)
			}
			if op == OURem && bits.OnesCount64(b.val) == 1 {
				return tb.Bin(OAnd, a, tb.Const(w, b.val-1))
			}
			if op == OURem && a.hi < b.val {
				return a
			}
		}
		if op == OSub {
			return tb.Bin(OAdd, a, tb.Const(w, -b.val))
		}
		if op == OAdd && a.op == OAdd && a.b.isConst() {
			return tb.Bin(OAdd, a.a, tb.Const(w, a.b.val+b.val))
		}
		if op == OAdd && a.op == OIte && (a.b.isConst() || a.c.isConst()) {
			return tb.Ite(a.a, tb.Bin(OAdd, a.b, b), tb.Bin(OAdd, a.c, b))
		}
		if op == OAnd && a.op == OAnd && a.b.isConst() {
			return tb.Bin(OAnd, a.a, tb.Const(w, a.b.val&b.val))
		}
		if op == OLShr && a.op == OZext && b.val >= uint64(a.a.w) {
			return tb.Const(w, 0)
		}
		if op == OLShr && a.hi>>min(b.val, 63) == 0 && b.val < 64 {
			return tb.Const(w, 0)
		}
	}
	if a == b {
		switch op {
		case OSub, OXor:
			return tb.Const(w, 0)
		case OAnd, OOr:
			return a
		}
	}
	if op == OSub {
		if a.op == OAdd && a.a == b {
			return a.b
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
		if a.op == OAdd && b.op == OAdd && a.a == b.a {
			return tb.Bin(OSub, a.b, b.b)
		}
		if b.op == OAdd && b.a == a {
			return tb.Neg(b.b)
		}
	}
	if op == OAdd {
		if a.op == OAdd && a.b.isConst() && !b.isConst() {
			return tb.Bin(OAdd, tb.Bin(OAdd, a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isConst() {
			return tb.Bin(OAdd, tb.Bin(OAdd, a, b.a), b.b)
		}
	}
	if comm && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(op, w, 0, a, b, nil)
}

func (tb *TB) Neg(a *Term) *Term {
	if a.isConst() {
		return tb.Const(a.w, -a.val)
	}
	return tb.mk(ONeg, a.w, 0, a, nil, nil)
}

func (tb *TB) BVNot(a *Term) *Term {
	if a.isConst() {
		return tb.Const(a.w, ^a.val)
	}
	if a.op == ONot {
		return a.a
	}
	return tb.mk(ONot, a.w, 0, a, nil, nil)
}

// Eval evaluates t under model m (indexed by variable number; missing = 0).
func (tb *TB) Eval(t *Term, m []uint64) uint64 {
	tb.evGen++
	return tb.eval(t, m)
}

func (tb *TB) eval(t *Term, m []uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == tb.evGen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OVar:
		if int(t.val) < len(m) {
			r = m[t.val] & mask(t.w)
		}
	case OBNot:
		r = 1 - tb.eval(t.a, m)
	case OBAnd:
		r = 0
		if tb.eval(t.a, m) == 1 {
			r = tb.eval(t.b, m)
		}
	case OBOr:
		r = 1
		if tb.eval(t.a, m) == 0 {
			r = tb.eval(t.b, m)
		}
	case OIte:
		if tb.eval(t.a, m) == 1 {
			r = tb.eval(t.b, m)
		} else {
			r = tb.eval(t.c, m)
		}
	case OEq:
		if tb.eval(t.a, m) == tb.eval(t.b, m) {
			r = 1
		}
	case OUlt:
		if tb.eval(t.a, m) < tb.eval(t.b, m) {
			r = 1
		}
	case OSlt:
		if sext(tb.eval(t.a, m), t.a.w) < sext(tb.eval(t.b, m), t.b.w) {
			r = 1
		}
	case OZext:
		r = tb.eval(t.a, m)
	case OSext:
		r = uint64(sext(tb.eval(t.a, m), t.a.w)) & mask(t.w)
	case OExtract:
		r = tb.eval(t.a, m) & mask(t.w)
	case ONot:
		r = ^tb.eval(t.a, m) & mask(t.w)
	case ONeg:
		r = -tb.eval(t.a, m) & mask(t.w)
	default:
		r = foldBin(t.op, t.w, tb.eval(t.a, m), tb.eval(t.b, m))
	}
	t.evGen, t.evVal = tb.evGen, r
	return r
}

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONot: "bvnot", ONeg: "bvneg",
	OEq: "=", OUlt: "bvult", OSlt: "bvslt", OBNot: "not", OBAnd: "and", OBOr: "or", OIte: "ite"}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d_%d", t.val, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

// define writes the declarations needed to mention t.
func (t *Term) define(sb *strings.Builder, decl map[string]bool) {
	if t.defined || t.op == OConst {
		return
	}
	t.defined = true
	if t.op == OVar {
		if n := t.ref(); !decl[n] {
			decl[n] = true
			fmt.Fprintf(sb, "(declare-const %s %s)\n", n, sortName(t.w))
		}
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			x.define(sb, decl)
		}
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortName(t.w))
	switch t.op {
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d 0) %s)", t.w-1, t.a.ref())
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" " + x.ref())
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

func (t *Term) String() string {
	if t.op == OConst || t.op == OVar {
		return t.ref()
	}
	if len(fmt.Sprint(t.id)) > 12 {
		return "..."
	}
	s := "(" + opNames[t.op]
	if t.op == OZext || t.op == OSext || t.op == OExtract {
		s = fmt.Sprintf("(cast%d/%d", t.op, t.w)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
