package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT expressions over bit-vectors (w >= 1) and booleans (w == 0).
type op uint8

const (
	opConst op = iota
	opVar
	opNot
	opAnd
	opOr
	opIte
	opEq
	opAdd
	opSub
	opMul
	opUDiv
	opSDiv
	opURem
	opSRem
	opBAnd
	opBOr
	opBXor
	opBNot
	opNeg
	opShl
	opLshr
	opAshr
	opUlt
	opUle
	opSlt
	opSle
	opConcat
	opExtract
	opZext
	opSext
	// floating point (w == wF64)
	opFAdd
	opFSub
	opFMul
	opFDiv
	opFNeg
	opFLt
	opFLe
	opFEq
	opSToF // signed bv -> float
	opUToF
	opFToS  // float -> signed bv (RTZ)
	opFBits // reinterpret a 64 bit vector as float
)

const wF64 = 200

var opNames = [...]string{opNot: "not", opAnd: "and", opOr: "or", opIte: "ite", opEq: "=", opAdd: "bvadd", opSub: "bvsub", opMul: "bvmul",
	opUDiv: "bvudiv", opSDiv: "bvsdiv", opURem: "bvurem", opSRem: "bvsrem", opBAnd: "bvand", opBOr: "bvor", opBXor: "bvxor", opBNot: "bvnot",
	opNeg: "bvneg", opShl: "bvshl", opLshr: "bvlshr", opAshr: "bvashr", opUlt: "bvult", opUle: "bvule", opSlt: "bvslt", opSle: "bvsle",
	opConcat: "concat", opFAdd: "fp.add RNE", opFSub: "fp.sub RNE", opFMul: "fp.mul RNE", opFDiv: "fp.div RNE", opFNeg: "fp.neg", opFLt: "fp.lt", opFLe: "fp.leq", opFEq: "fp.eq"}

type Term struct {
	op      op
	w       uint8
	a, b, c *Term
	val     uint64 // constant value; for extract hi<<8|lo
	name    string
	id      int32
	// evaluation memo
	ep uint32
	ev uint64
	// smt emission
	emitEp uint32
}

type termKey struct {
	op      op
	w       uint8
	a, b, c *Term
	val     uint64
	name    string
}

type termStore struct {
	tab  map[termKey]*Term
	n    int32
	T, F *Term
}

func newTermStore() *termStore {
	s := &termStore{tab: make(map[termKey]*Term, 1<<12)}
	s.T = s.mk(termKey{op: opConst, val: 1})
	s.F = s.mk(termKey{op: opConst, val: 0})
	return s
}

func (s *termStore) mk(k termKey) *Term {
	if t, ok := s.tab[k]; ok {
		return t
	}
	s.n++
	t := &Term{op: k.op, w: k.w, a: k.a, b: k.b, c: k.c, val: k.val, name: k.name, id: s.n}
	s.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (s *termStore) Const(w uint8, v uint64) *Term {
	return s.mk(termKey{op: opConst, w: w, val: v & mask(w)})
}
func (s *termStore) Bool(b bool) *Term {
	if b {
		return s.T
	}
	return s.F
}
func (s *termStore) Var(name string, w uint8) *Term {
	return s.mk(termKey{op: opVar, w: w, name: name})
}

func (t *Term) isConst() bool { return t.op == opConst }
func (t *Term) isTrue() bool  { return t.op == opConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == opConst && t.w == 0 && t.val == 0 }

func (s *termStore) Not(a *Term) *Term {
	if a.isConst() {
		return s.Bool(a.val == 0)
	}
	if a.op == opNot {
		return a.a
	}
	return s.mk(termKey{op: opNot, a: a})
}
func (s *termStore) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return s.F
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if (a.op == opNot && a.a == b) || (b.op == opNot && b.a == a) {
		return s.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(termKey{op: opAnd, a: a, b: b})
}
func (s *termStore) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return s.T
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if (a.op == opNot && a.a == b) || (b.op == opNot && b.a == a) {
		return s.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(termKey{op: opOr, a: a, b: b})
}
func (s *termStore) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() {
			return s.Or(c, b)
		}
		if a.isFalse() {
			return s.And(s.Not(c), b)
		}
		if b.isTrue() {
			return s.Or(s.Not(c), a)
		}
		if b.isFalse() {
			return s.And(c, a)
		}
	}
	if c.op == opNot {
		return s.Ite(c.a, b, a)
	}
	return s.mk(termKey{op: opIte, w: a.w, a: c, b: a, c: b})
}
func (s *termStore) Eq(a, b *Term) *Term {
	if a == b && a.w != wF64 {
		return s.T
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return s.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.w != 0 {
		// ite(c, k1, k2) == k
		if a.op == opIte && a.b.isConst() && a.c.isConst() {
			return s.Ite(a.a, s.Bool(a.b.val == b.val), s.Bool(a.c.val == b.val))
		}
		if a.op == opZext {
			iw := a.a.w
			if b.val&^mask(iw) != 0 {
				return s.F
			}
			return s.Eq(a.a, s.Const(iw, b.val))
		}
		if a.op == opAdd && a.b.isConst() {
			return s.Eq(a.a, s.Const(a.w, b.val-a.b.val))
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return s.mk(termKey{op: opEq, a: a, b: b})
}

// foldBin computes a constant binary operation.
func foldBin(o op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch o {
	case opAdd:
		return (x + y) & m, true
	case opSub:
		return (x - y) & m, true
	case opMul:
		return (x * y) & m, true
	case opUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case opURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case opSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1, true
			}
			return m, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case opSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case opBAnd:
		return x & y, true
	case opBOr:
		return x | y, true
	case opBXor:
		return x ^ y, true
	case opShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case opLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case opAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m, true
	}
	return 0, false
}

func foldCmp(o op, w uint8, x, y uint64) bool {
	switch o {
	case opUlt:
		return x < y
	case opUle:
		return x <= y
	case opSlt:
		return sx(x, w) < sx(y, w)
	case opSle:
		return sx(x, w) <= sx(y, w)
	}
	panic("foldCmp")
}

func (s *termStore) Bin(o op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(o, w, a.val, b.val); ok {
			return s.Const(w, v)
		}
	}
	switch o {
	case opAdd, opMul, opBAnd, opBOr, opBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch o {
		case opAdd, opSub, opBOr, opBXor, opShl, opLshr, opAshr:
			if b.val == 0 {
				return a
			}
		case opMul:
			if b.val == 1 {
				return a
			}
			if b.val == 0 {
				return b
			}
			if b.val&(b.val-1) == 0 {
				return s.Bin(opShl, a, s.Const(w, uint64(bits.TrailingZeros64(b.val))))
			}
		case opBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		case opUDiv, opSDiv:
			if b.val == 1 {
				return a
			}
		case opURem:
			if b.val != 0 && b.val&(b.val-1) == 0 {
				return s.Bin(opBAnd, a, s.Const(w, b.val-1))
			}
		}
		if o == opSub {
			return s.Bin(opAdd, a, s.Const(w, -b.val))
		}
		if o == opAdd && a.op == opAdd && a.b.isConst() {
			return s.Bin(opAdd, a.a, s.Const(w, a.b.val+b.val))
		}
	}
	if o == opSub && a == b {
		return s.Const(w, 0)
	}
	if o == opBXor && a == b {
		return s.Const(w, 0)
	}
	if (o == opBAnd || o == opBOr) && a == b {
		return a
	}
	return s.mk(termKey{op: o, w: w, a: a, b: b})
}

func (s *termStore) Cmp(o op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Bool(foldCmp(o, a.w, a.val, b.val))
	}
	if a == b {
		return s.Bool(o == opUle || o == opSle)
	}
	if b.isConst() {
		switch o {
		case opUlt:
			if b.val == 0 {
				return s.F
			}
		case opUle:
			if b.val == mask(b.w) {
				return s.T
			}
		}
		if a.op == opZext {
			iw := a.a.w
			switch o {
			case opSlt, opUlt:
				if o == opSlt && sx(b.val, b.w) < 0 {
					return s.F
				}
				if b.val > mask(iw) {
					return s.T
				}
				return s.Cmp(opUlt, a.a, s.Const(iw, b.val))
			case opSle, opUle:
				if o == opSle && sx(b.val, b.w) < 0 {
					return s.F
				}
				if b.val >= mask(iw) {
					return s.T
				}
				return s.Cmp(opUle, a.a, s.Const(iw, b.val))
			}
		}
	}
	if a.isConst() && b.op == opZext {
		iw := b.a.w
		switch o {
		case opSlt, opUlt:
			if o == opSlt && sx(a.val, a.w) < 0 {
				return s.T
			}
			if a.val >= mask(iw) {
				return s.F
			}
			return s.Cmp(opUlt, s.Const(iw, a.val), b.a)
		case opSle, opUle:
			if o == opSle && sx(a.val, a.w) < 0 {
				return s.T
			}
			if a.val > mask(iw) {
				return s.F
			}
			return s.Cmp(opUle, s.Const(iw, a.val), b.a)
		}
	}
	return s.mk(termKey{op: o, a: a, b: b})
}

func (s *termStore) Neg(a *Term) *Term {
	if a.isConst() {
		return s.Const(a.w, -a.val)
	}
	return s.mk(termKey{op: opNeg, w: a.w, a: a})
}
func (s *termStore) BNot(a *Term) *Term {
	if a.isConst() {
		return s.Const(a.w, ^a.val)
	}
	return s.mk(termKey{op: opBNot, w: a.w, a: a})
}
func (s *termStore) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return s.Const(w, a.val>>lo)
	}
	switch a.op {
	case opExtract:
		l := uint8(a.val & 0xff)
		return s.Extract(a.a, hi+l, lo+l)
	case opConcat:
		lw := a.b.w
		if hi < lw {
			return s.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return s.Extract(a.a, hi-lw, lo-lw)
		}
	case opZext:
		if hi < a.a.w {
			return s.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return s.Const(w, 0)
		}
	case opSext:
		if hi < a.a.w {
			return s.Extract(a.a, hi, lo)
		}
	case opLshr:
		if a.b.isConst() && a.b.val+uint64(hi) < uint64(a.w) {
			return s.Extract(a.a, hi+uint8(a.b.val), lo+uint8(a.b.val))
		}
	case opAshr:
		if a.b.isConst() && a.b.val+uint64(hi) < uint64(a.w) {
			return s.Extract(a.a, hi+uint8(a.b.val), lo+uint8(a.b.val))
		}
	case opShl:
		if a.b.isConst() && uint64(lo) >= a.b.val {
			return s.Extract(a.a, hi-uint8(a.b.val), lo-uint8(a.b.val))
		}
	case opBAnd, opBOr, opBXor:
		if w <= 8 {
			return s.Bin(a.op, s.Extract(a.a, hi, lo), s.Extract(a.b, hi, lo))
		}
	}
	return s.mk(termKey{op: opExtract, w: w, a: a, val: uint64(hi)<<8 | uint64(lo)})
}
func (s *termStore) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return s.Const(w, a.val<<b.w|b.val)
	}
	if a.isConst() && a.val == 0 {
		return s.Zext(b, w)
	}
	// concat(extract(x,h,m+1), extract(x,m,l)) == extract(x,h,l)
	if a.op == opExtract && b.op == opExtract && a.a == b.a {
		ah, al := uint8(a.val>>8), uint8(a.val)
		bh, bl := uint8(b.val>>8), uint8(b.val)
		if al == bh+1 {
			return s.Extract(a.a, ah, bl)
		}
	}
	return s.mk(termKey{op: opConcat, w: w, a: a, b: b})
}
func (s *termStore) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return s.Const(w, a.val)
	}
	if a.op == opZext {
		return s.Zext(a.a, w)
	}
	return s.mk(termKey{op: opZext, w: w, a: a})
}
func (s *termStore) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return s.Const(w, uint64(sx(a.val, a.w)))
	}
	if a.op == opZext { // a zero extended value is non negative
		return s.Zext(a.a, w)
	}
	return s.mk(termKey{op: opSext, w: w, a: a})
}
// gridTimes recognises (k / 2^20) * c for k of at most 20 bits and an integral constant c small enough that the product is exact,
// and returns it truncated to an integer of 64 bits
func (s *termStore) gridTimes(t *Term) *Term {
	if t.op != opFMul {
		return nil
	}
	g, c := t.a, t.b
	if g.isConst() {
		g, c = c, g
	}
	if !c.isConst() || g.op != opFDiv || g.a.op != opUToF || !g.b.isConst() || math.Float64frombits(g.b.val) != 1<<20 {
		return nil
	}
	k, f := g.a.a, math.Float64frombits(c.val)
	if k.op != opZext || k.w != 64 || k.a.w > 20 || f != math.Trunc(f) || math.Abs(f) >= 1<<33 {
		return nil
	}
	r := s.Bin(opLshr, s.Bin(opMul, k, s.Const(64, uint64(math.Abs(f)))), s.Const(64, 20))
	if f < 0 {
		r = s.Neg(r)
	}
	return r
}
func (s *termStore) Fop(o op, w uint8, args ...*Term) *Term {
	if o == opFToS && w == 64 {
		if r := s.gridTimes(args[0]); r != nil {
			return r
		}
	}
	k := termKey{op: o, w: w}
	if len(args) > 0 {
		k.a = args[0]
	}
	if len(args) > 1 {
		k.b = args[1]
	}
	return s.mk(k)
}

// ---- evaluation under a model ----

type model map[string]uint64

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalFloat(t *Term, m model, ep uint32) uint64 {
	av := t.a.eval(m, ep)
	var bv uint64
	if t.b != nil {
		bv = t.b.eval(m, ep)
	}
	x, y := math.Float64frombits(av), math.Float64frombits(bv)
	switch t.op {
	case opFAdd:
		return math.Float64bits(x + y)
	case opFSub:
		return math.Float64bits(x - y)
	case opFMul:
		return math.Float64bits(x * y)
	case opFDiv:
		return math.Float64bits(x / y)
	case opFNeg:
		return math.Float64bits(-x)
	case opFLt:
		return b2u(x < y)
	case opFLe:
		return b2u(x <= y)
	case opFEq:
		return b2u(x == y)
	case opSToF:
		return math.Float64bits(float64(sx(av, t.a.w)))
	case opUToF:
		return math.Float64bits(float64(av))
	case opFToS:
		return uint64(int64(x)) & mask(t.w)
	case opFBits:
		return av
	}
	panic("evalFloat")
}

func (t *Term) eval(m model, ep uint32) uint64 {
	if t.op == opConst {
		return t.val
	}
	if t.ep == ep {
		return t.ev
	}
	var r uint64
	switch t.op {
	case opVar:
		r = m[t.name] & mask1(t.w)
	case opNot:
		r = 1 - t.a.eval(m, ep)
	case opAnd:
		r = t.a.eval(m, ep) & t.b.eval(m, ep)
	case opOr:
		r = t.a.eval(m, ep) | t.b.eval(m, ep)
	case opIte:
		if t.a.eval(m, ep) == 1 {
			r = t.b.eval(m, ep)
		} else {
			r = t.c.eval(m, ep)
		}
	case opEq:
		if t.a.eval(m, ep) == t.b.eval(m, ep) {
			r = 1
		}
	case opUlt, opUle, opSlt, opSle:
		if foldCmp(t.op, t.a.w, t.a.eval(m, ep), t.b.eval(m, ep)) {
			r = 1
		}
	case opBNot:
		r = ^t.a.eval(m, ep) & mask(t.w)
	case opNeg:
		r = -t.a.eval(m, ep) & mask(t.w)
	case opConcat:
		r = t.a.eval(m, ep)<<t.b.w | t.b.eval(m, ep)
	case opExtract:
		r = (t.a.eval(m, ep) >> (t.val & 0xff)) & mask(t.w)
	case opZext:
		r = t.a.eval(m, ep)
	case opSext:
		r = uint64(sx(t.a.eval(m, ep), t.a.w)) & mask(t.w)
	case opFAdd, opFSub, opFMul, opFDiv, opFNeg, opFLt, opFLe, opFEq, opSToF, opUToF, opFToS, opFBits:
		r = evalFloat(t, m, ep)
	default:
		v, ok := foldBin(t.op, t.w, t.a.eval(m, ep), t.b.eval(m, ep))
		if !ok {
			panic("eval: " + opNames[t.op])
		}
		r = v
	}
	t.ep = ep
	t.ev = r
	return r
}

func mask1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT-LIB printing ----

func smtConst(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w == wF64 {
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", v)
	}
	if w%4 == 0 {
		return "#x" + fmt.Sprintf("%0*x", int(w/4), v)
	}
	return "#b" + fmt.Sprintf("%0*b", int(w), v)
}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	if w == wF64 {
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (t *Term) ref() string {
	switch t.op {
	case opConst:
		return smtConst(t.w, t.val)
	case opVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (t *Term) body() string {
	var b strings.Builder
	switch t.op {
	case opExtract:
		fmt.Fprintf(&b, "((_ extract %d %d) %s)", t.val>>8, t.val&0xff, t.a.ref())
	case opZext:
		fmt.Fprintf(&b, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case opSext:
		fmt.Fprintf(&b, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case opSToF:
		fmt.Fprintf(&b, "((_ to_fp 11 53) RNE %s)", t.a.ref())
	case opUToF:
		fmt.Fprintf(&b, "((_ to_fp_unsigned 11 53) RNE %s)", t.a.ref())
	case opFToS:
		fmt.Fprintf(&b, "((_ fp.to_sbv %d) RTZ %s)", t.w, t.a.ref())
	case opFBits:
		fmt.Fprintf(&b, "((_ to_fp 11 53) %s)", t.a.ref())
	default:
		b.WriteByte('(')
		b.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				b.WriteByte(' ')
				b.WriteString(x.ref())
			}
		}
		b.WriteByte(')')
	}
	return b.String()
}

// String renders the term fully expanded up to a depth (for reports).
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t.op == opConst {
		if t.w == 0 {
			return smtConst(0, t.val)
		}
		return strconv.FormatInt(sx(t.val, t.w), 10)
	}
	if t.op == opVar {
		return t.name
	}
	if d == 0 {
		return "..."
	}
	n := opNames[t.op]
	switch t.op {
	case opExtract:
		n = fmt.Sprintf("extract[%d:%d]", t.val>>8, t.val&0xff)
	case opZext:
		n = "zext"
	case opSext:
		n = "sext"
	}
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}
