package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Terms are hash-consed SMT expressions. Width 0 means Bool, otherwise a
// bit-vector of that width. Floating point values are carried as their IEEE-754
// bit patterns (width 32 or 64) and converted at each operation.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OIte
	OConcat
	OExtract // k = hi<<8|lo
	OZext
	OSext
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFromS // signed bv -> float bits
	OFromU
	OToS // float bits -> signed bv (RTZ)
	OToU
	OFCvt // float -> float of other width
	OIsNaN
	OFFloor
	OFCeil
	OFTrunc
	OFRound // to nearest, ties away from zero
	OFSqrt
)

// roundOf are the operators that take a double to a double.
var roundOf = map[Op]struct {
	f   func(float64) float64
	smt string
}{
	OFFloor: {math.Floor, "fp.roundToIntegral RTN"},
	OFCeil:  {math.Ceil, "fp.roundToIntegral RTP"},
	OFTrunc: {math.Trunc, "fp.roundToIntegral RTZ"},
	OFRound: {math.Round, "fp.roundToIntegral RNA"},
	OFSqrt:  {math.Sqrt, "fp.sqrt RNE"},
}

type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	k       uint64
	name    string
	vars    []int32 // sorted ids of variables
	gen     int32   // solver generation in which it was emitted
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
	name    string
}

type TermCtx struct {
	tab    map[tkey]*Term
	next   int32
	tTrue  *Term
	tFalse *Term
	bytes  [256]*Term
	vars   []*Term
	varTab map[string]*Term
	// diffOf names the operands of a saturating difference: it has the sign of a-b.
	diffOf map[*Term][2]*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, varTab: map[string]*Term{}, diffOf: map[*Term][2]*Term{}}
	c.tFalse = c.mk(tkey{op: OConst, w: 0, k: 0}, nil, nil, nil)
	c.tTrue = c.mk(tkey{op: OConst, w: 0, k: 1}, nil, nil, nil)
	for i := range c.bytes {
		c.bytes[i] = c.mk(tkey{op: OConst, w: 8, k: uint64(i)}, nil, nil, nil)
	}
	return c
}

func mergeVars(x, y []int32) []int32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	// subset fast path
	if len(x) == len(y) {
		same := true
		for i := range x {
			if x[i] != y[i] {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	r := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] < y[j]:
			r = append(r, x[i])
			i++
		case x[i] > y[j]:
			r = append(r, y[j])
			j++
		default:
			r = append(r, x[i])
			i++
			j++
		}
	}
	r = append(r, x[i:]...)
	r = append(r, y[j:]...)
	return r
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(k tkey, x, y, z *Term) *Term {
	k.a, k.b, k.c = tid(x), tid(y), tid(z)
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, id: c.next, a: x, b: y, c: z, k: k.k, name: k.name}
	c.next++
	if x != nil {
		t.vars = x.vars
	}
	if y != nil {
		t.vars = mergeVars(t.vars, y.vars)
	}
	if z != nil {
		t.vars = mergeVars(t.vars, z.vars)
	}
	c.tab[k] = t
	return t
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 8 {
		return c.bytes[v]
	}
	if w == 0 {
		return c.Bool(v != 0)
	}
	return c.mk(tkey{op: OConst, w: w, k: v}, nil, nil, nil)
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	if t, ok := c.varTab[name]; ok {
		if t.w != w {
			panic("var width mismatch " + name)
		}
		return t
	}
	t := c.mk(tkey{op: OVar, w: w, name: name}, nil, nil, nil)
	t.vars = []int32{t.id}
	c.varTab[name] = t
	c.vars = append(c.vars, t)
	return t
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (t *Term) S() int64 { return sx(t.k, t.w) }

func (c *TermCtx) Not(x *Term) *Term {
	if x.op == OConst {
		return c.Bool(x.k == 0)
	}
	switch x.op {
	case ONot:
		return x.a
	case OUlt:
		return c.mk(tkey{op: OUle}, x.b, x.a, nil)
	case OUle:
		return c.mk(tkey{op: OUlt}, x.b, x.a, nil)
	case OSlt:
		return c.mk(tkey{op: OSle}, x.b, x.a, nil)
	case OSle:
		return c.mk(tkey{op: OSlt}, x.b, x.a, nil)
	}
	return c.mk(tkey{op: ONot}, x, nil, nil)
}

func (c *TermCtx) And(x, y *Term) *Term {
	if x.op == OConst {
		if x.k == 0 {
			return x
		}
		return y
	}
	if y.op == OConst {
		if y.k == 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if c.Not(x) == y {
		return c.tFalse
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(tkey{op: OAnd}, x, y, nil)
}

func (c *TermCtx) Or(x, y *Term) *Term {
	if x.op == OConst {
		if x.k == 1 {
			return x
		}
		return y
	}
	if y.op == OConst {
		if y.k == 1 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if c.Not(x) == y {
		return c.tTrue
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(tkey{op: OOr}, x, y, nil)
}

func (c *TermCtx) Eq(x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width %d %d", x.w, y.w))
	}
	if x == y {
		return c.tTrue
	}
	if x.op == OConst && y.op == OConst {
		return c.Bool(x.k == y.k)
	}
	if x.op == OConst {
		x, y = y, x
	}
	if y.op == OConst {
		if x.w == 0 {
			if y.k == 1 {
				return x
			}
			return c.Not(x)
		}
		switch x.op {
		case OZext:
			if y.k&^mask(x.a.w) != 0 {
				return c.tFalse
			}
			return c.Eq(x.a, c.Const(x.a.w, y.k))
		case OSext:
			lo := y.k & mask(x.a.w)
			if uint64(sx(lo, x.a.w))&mask(x.w) != y.k {
				return c.tFalse
			}
			return c.Eq(x.a, c.Const(x.a.w, lo))
		case OAdd:
			if x.b.op == OConst {
				return c.Eq(x.a, c.Const(x.w, y.k-x.b.k))
			}
		case OBxor:
			if x.b.op == OConst {
				return c.Eq(x.a, c.Const(x.w, y.k^x.b.k))
			}
		case OIte:
			if x.b.op == OConst && x.c.op == OConst {
				bt, ct := x.b.k == y.k, x.c.k == y.k
				switch {
				case bt && ct:
					return c.tTrue
				case bt:
					return x.a
				case ct:
					return c.Not(x.a)
				default:
					return c.tFalse
				}
			}
			if x.b.op == OConst && x.b.k != y.k {
				return c.And(c.Not(x.a), c.Eq(x.c, y))
			}
			if x.c.op == OConst && x.c.k != y.k {
				return c.And(x.a, c.Eq(x.b, y))
			}
		case OConcat:
			return c.And(c.Eq(x.a, c.Const(x.a.w, y.k>>x.b.w)), c.Eq(x.b, c.Const(x.b.w, y.k)))
		}
		return c.mk(tkey{op: OEq}, x, y, nil)
	}
	if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
		return c.Eq(x.a, y.a)
	}
	if x.op == OSext && y.op == OSext && x.a.w == y.a.w {
		return c.Eq(x.a, y.a)
	}
	if x.op == OConcat && y.op == OConcat && x.a.w == y.a.w {
		return c.And(c.Eq(x.a, y.a), c.Eq(x.b, y.b))
	}
	if x.op == OAdd && y.op == OAdd && x.b == y.b {
		return c.Eq(x.a, y.a)
	}
	if r := c.noOverflow(x, y); r != nil {
		return r
	}
	if r := c.noOverflow(y, x); r != nil {
		return r
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(tkey{op: OEq}, x, y, nil)
}

func urange(x *Term) (lo, hi uint64) {
	switch x.op {
	case OConst:
		return x.k, x.k
	case OZext:
		return urange(x.a)
	case OUrem:
		if x.b.op == OConst && x.b.k > 0 {
			return 0, x.b.k - 1
		}
	case OBand:
		if x.b.op == OConst {
			return 0, x.b.k
		}
	case OLshr:
		if x.b.op == OConst && x.b.k < 64 {
			return 0, mask(x.w) >> x.b.k
		}
	case OIte:
		l1, h1 := urange(x.b)
		l2, h2 := urange(x.c)
		return min(l1, l2), max(h1, h2)
	case OAdd:
		l1, h1 := urange(x.a)
		l2, h2 := urange(x.b)
		if s, cy := bits.Add64(h1, h2, 0); cy == 0 && s <= mask(x.w) {
			return l1 + l2, s
		}
	case OMul:
		l1, h1 := urange(x.a)
		l2, h2 := urange(x.b)
		if hi, lo := bits.Mul64(h1, h2); hi == 0 && lo <= mask(x.w) {
			return l1 * l2, lo
		}
	}
	return 0, mask(x.w)
}

func (c *TermCtx) Ult(x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return c.Bool(x.k < y.k)
	}
	if x == y {
		return c.tFalse
	}
	lx, hx := urange(x)
	ly, hy := urange(y)
	if hx < ly {
		return c.tTrue
	}
	if lx >= hy {
		return c.tFalse
	}
	if y.op == OConst && y.k == 1 {
		return c.Eq(x, c.Const(x.w, 0))
	}
	if x.op == OZext && y.op == OConst && y.k <= mask(x.a.w) {
		return c.Ult(x.a, c.Const(x.a.w, y.k))
	}
	if y.op == OZext && x.op == OConst && x.k <= mask(y.a.w) {
		return c.Ult(c.Const(y.a.w, x.k), y.a)
	}
	if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
		return c.Ult(x.a, y.a)
	}
	return c.mk(tkey{op: OUlt}, x, y, nil)
}

func (c *TermCtx) Ule(x, y *Term) *Term { return c.Not(c.Ult(y, x)) }

func nonneg(x *Term) bool {
	_, hi := urange(x)
	return hi <= mask(x.w)>>1
}

func (c *TermCtx) Slt(x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return c.Bool(x.S() < y.S())
	}
	if x == y {
		return c.tFalse
	}
	if d, ok := c.diffOf[y]; ok && x.op == OConst && x.k == 0 {
		return c.Slt(d[1], d[0])
	}
	if d, ok := c.diffOf[x]; ok && y.op == OConst && y.k == 0 {
		return c.Slt(d[0], d[1])
	}
	if nonneg(x) && nonneg(y) {
		return c.Ult(x, y)
	}
	if nonneg(x) && y.op == OConst && y.S() <= 0 {
		return c.tFalse
	}
	if nonneg(y) && x.op == OConst && x.S() < 0 {
		return c.tTrue
	}
	if x.op == OSext && y.op == OConst {
		lo, hi := -(int64(1) << (x.a.w - 1)), int64(1)<<(x.a.w-1)-1
		if y.S() > hi {
			return c.tTrue
		}
		if y.S() <= lo {
			return c.tFalse
		}
		return c.Slt(x.a, c.Const(x.a.w, y.k))
	}
	if y.op == OSext && x.op == OConst {
		lo, hi := -(int64(1) << (y.a.w - 1)), int64(1)<<(y.a.w-1)-1
		if x.S() < lo {
			return c.tTrue
		}
		if x.S() >= hi {
			return c.tFalse
		}
		return c.Slt(c.Const(y.a.w, x.k), y.a)
	}
	return c.mk(tkey{op: OSlt}, x, y, nil)
}

func (c *TermCtx) Sle(x, y *Term) *Term { return c.Not(c.Slt(y, x)) }

// noOverflow turns y*C/C == y into the bounds within which y*C does not overflow.
// (If it does, y*C wraps to y*C - k*2^w, which divided by C gives y only if |k*2^w|
// is less than C.)
func (c *TermCtx) noOverflow(x, y *Term) *Term {
	if x.op != OSdiv && x.op != OUdiv || x.b.op != OConst || x.a.op != OMul || x.a.b != x.b || x.a.a != y || x.b.k < 2 {
		return nil
	}
	w, k := x.w, x.b
	if x.op == OUdiv {
		return c.Ule(y, c.Const(w, mask(w)/k.k))
	}
	if k.S() < 2 {
		return nil
	}
	half := uint64(1) << (w - 1)
	return c.And(c.Sle(c.Const(w, -(half/k.k)), y), c.Sle(y, c.Const(w, (half-1)/k.k)))
}

func commut(op Op) bool {
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		return true
	}
	return false
}

func (c *TermCtx) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Bin %d width %d %d", op, x.w, y.w))
	}
	w := x.w
	if x.op == OConst && y.op == OConst {
		a, b := x.k, y.k
		var r uint64
		switch op {
		case OAdd:
			r = a + b
		case OSub:
			r = a - b
		case OMul:
			r = a * b
		case OUdiv:
			if b == 0 {
				r = mask(w)
			} else {
				r = a / b
			}
		case OUrem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OSdiv:
			if b == 0 {
				goto sym
			}
			if x.S() == math.MinInt64 && y.S() == -1 {
				r = a
			} else {
				r = uint64(x.S() / y.S())
			}
		case OSrem:
			if b == 0 {
				goto sym
			}
			if y.S() == -1 {
				r = 0
			} else {
				r = uint64(x.S() % y.S())
			}
		case OBand:
			r = a & b
		case OBor:
			r = a | b
		case OBxor:
			r = a ^ b
		case OShl:
			if b >= uint64(w) {
				r = 0
			} else {
				r = a << b
			}
		case OLshr:
			if b >= uint64(w) {
				r = 0
			} else {
				r = a >> b
			}
		case OAshr:
			if b >= uint64(w) {
				b = uint64(w) - 1
			}
			r = uint64(x.S() >> b)
		default:
			goto sym
		}
		return c.Const(w, r)
	}
sym:
	if commut(op) && x.op == OConst {
		x, y = y, x
	}
	if y.op == OConst {
		switch op {
		case OAdd, OSub, OBor, OBxor, OShl, OLshr, OAshr:
			if y.k == 0 {
				return x
			}
		case OMul:
			if y.k == 0 {
				return y
			}
			if y.k == 1 {
				return x
			}
		case OBand:
			if y.k == 0 {
				return y
			}
			if y.k == mask(w) {
				return x
			}
			// low mask over narrower zext
			if x.op == OZext && y.k&mask(x.a.w) == mask(x.a.w) {
				return x
			}
			if x.op == OZext {
				return c.Zext(c.Bin(OBand, x.a, c.Const(x.a.w, y.k)), w)
			}
			// low mask
			if n := uint8(bits.Len64(y.k)); y.k == mask(n) && n < w && n > 0 {
				return c.Zext(c.Extract(x, n-1, 0), w)
			}
		case OUdiv, OSdiv:
			if y.k == 1 {
				return x
			}
		}
		switch op {
		case OSub:
			return c.Bin(OAdd, x, c.Const(w, -y.k))
		case OAdd:
			if x.op == OAdd && x.b.op == OConst {
				return c.Bin(OAdd, x.a, c.Const(w, x.b.k+y.k))
			}
		case OShl:
			if y.k >= uint64(w) {
				return c.Const(w, 0)
			}
		case OLshr:
			if y.k >= uint64(w) {
				return c.Const(w, 0)
			}
			if x.op == OZext {
				if y.k >= uint64(x.a.w) {
					return c.Const(w, 0)
				}
				return c.Zext(c.Bin(OLshr, x.a, c.Const(x.a.w, y.k)), w)
			}
			return c.Zext(c.Extract(x, w-1, uint8(y.k)), w)
		case OSdiv, OSrem:
			if nonneg(x) && y.S() > 0 {
				if op == OSdiv {
					return c.Bin(OUdiv, x, y)
				}
				return c.Bin(OUrem, x, y)
			}
		case OUdiv, OUrem:
			if x.op == OZext && y.k <= mask(x.a.w) && y.k != 0 {
				return c.Zext(c.Bin(op, x.a, c.Const(x.a.w, y.k)), w)
			}
			if _, hi := urange(x); y.k > hi {
				if op == OUdiv {
					return c.Const(w, 0)
				}
				return x
			}
		}
	}
	if x == y {
		switch op {
		case OSub, OBxor:
			return c.Const(w, 0)
		case OBand, OBor:
			return x
		}
	}
	if x.op == OConst && x.k == 0 {
		switch op {
		case OShl, OLshr, OAshr:
			return x
		}
	}
	if op == OSub {
		// (a + k) - a = k ; (a+k)-(a+j)
		if x.op == OAdd && x.a == y {
			return x.b
		}
		if x.op == OAdd && x.b == y {
			return x.a
		}
		if y.op == OAdd && y.b.op == OConst {
			return c.Bin(OAdd, c.Bin(OSub, x, y.a), c.Const(w, -y.b.k))
		}
	}
	if op == OBor {
		if t := c.orSegs(x, y); t != nil {
			return t
		}
	}
	if commut(op) && y.op != OConst && x.id > y.id {
		x, y = y, x
	}
	return c.mk(tkey{op: op, w: w}, x, y, nil)
}

// seg is w bits of base starting at lo (base nil: zeroes).
type seg struct {
	base  *Term
	lo, w uint8
}

func (c *TermCtx) segs(x *Term, depth int) []seg {
	if depth > 0 {
		switch x.op {
		case OConst:
			if x.k == 0 {
				return []seg{{nil, 0, x.w}}
			}
		case OZext:
			return append(c.segs(x.a, depth-1), seg{nil, 0, x.w - x.a.w})
		case OExtract:
			return []seg{{x.a, uint8(x.k), x.w}}
		case OConcat:
			return append(c.segs(x.b, depth-1), c.segs(x.a, depth-1)...)
		case OShl:
			if x.b.op == OConst && x.b.k > 0 && x.b.k < uint64(x.w) {
				s := uint8(x.b.k)
				r := []seg{{nil, 0, s}}
				left := x.w - s
				for _, g := range c.segs(x.a, depth-1) {
					if left == 0 {
						break
					}
					if g.w > left {
						g.w = left
					}
					left -= g.w
					r = append(r, g)
				}
				return r
			}
		}
	}
	return []seg{{x, 0, x.w}}
}

func (s seg) sub(off, w uint8) seg {
	if s.base == nil {
		return seg{nil, 0, w}
	}
	return seg{s.base, s.lo + off, w}
}

// orSegs rewrites the or of values without common bits as a concatenation.
func (c *TermCtx) orSegs(x, y *Term) *Term {
	a, b := c.segs(x, 8), c.segs(y, 8)
	if len(a) < 2 && len(b) < 2 {
		return nil
	}
	var r []seg
	i, j := 0, 0
	var oi, oj uint8
	for i < len(a) && j < len(b) {
		w := a[i].w - oi
		if k := b[j].w - oj; k < w {
			w = k
		}
		p, q := a[i].sub(oi, w), b[j].sub(oj, w)
		switch {
		case p.base == nil:
			p = q
		case q.base == nil:
		default:
			return nil
		}
		if n := len(r); n > 0 && r[n-1].base == p.base && (p.base == nil || r[n-1].lo+r[n-1].w == p.lo) {
			r[n-1].w += w
		} else {
			r = append(r, p)
		}
		oi += w
		oj += w
		if oi == a[i].w {
			i++
			oi = 0
		}
		if oj == b[j].w {
			j++
			oj = 0
		}
	}
	var t *Term
	for k, g := range r {
		if g.base == nil && k == len(r)-1 && t != nil {
			return c.Zext(t, x.w)
		}
		u := (*Term)(nil)
		if g.base == nil {
			u = c.Const(g.w, 0)
		} else {
			u = c.Extract(g.base, g.lo+g.w-1, g.lo)
		}
		if t == nil {
			t = u
		} else {
			t = c.Concat(u, t)
		}
	}
	return t
}

func (c *TermCtx) Bnot(x *Term) *Term {
	if x.op == OConst {
		return c.Const(x.w, ^x.k)
	}
	if x.op == OBnot {
		return x.a
	}
	return c.mk(tkey{op: OBnot, w: x.w}, x, nil, nil)
}

func (c *TermCtx) Neg(x *Term) *Term { return c.Bin(OSub, c.Const(x.w, 0), x) }

func (c *TermCtx) Ite(p, x, y *Term) *Term {
	if p.op == OConst {
		if p.k == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		return c.Or(c.And(p, x), c.And(c.Not(p), y))
	}
	return c.mk(tkey{op: OIte, w: x.w}, p, x, y)
}

func (c *TermCtx) Concat(hi, lo *Term) *Term {
	if int(hi.w)+int(lo.w) > 64 {
		panic("concat wider than 64 bits")
	}
	if hi.op == OConst && lo.op == OConst && hi.w+lo.w <= 64 {
		return c.Const(hi.w+lo.w, hi.k<<lo.w|lo.k)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a && uint8(hi.k) == uint8(lo.k>>8)+1 {
		return c.Extract(hi.a, uint8(hi.k>>8), uint8(lo.k))
	}
	if hi.op == OExtract && lo.op == OConcat && lo.a.op == OExtract && hi.a == lo.a.a && uint8(hi.k) == uint8(lo.a.k>>8)+1 {
		return c.Concat(c.Extract(hi.a, uint8(hi.k>>8), uint8(lo.a.k)), lo.b)
	}
	return c.mk(tkey{op: OConcat, w: hi.w + lo.w}, hi, lo, nil)
}

func (c *TermCtx) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	if x.op == OConst {
		return c.Const(w, x.k>>lo)
	}
	switch x.op {
	case OZext:
		if lo >= x.a.w {
			return c.Const(w, 0)
		}
		if hi < x.a.w {
			return c.Extract(x.a, hi, lo)
		}
		if lo == 0 {
			return c.Zext(x.a, w)
		}
	case OSext:
		if hi < x.a.w {
			return c.Extract(x.a, hi, lo)
		}
		if lo == 0 {
			return c.Sext(x.a, w)
		}
	case OConcat:
		if hi < x.b.w {
			return c.Extract(x.b, hi, lo)
		}
		if lo >= x.b.w {
			return c.Extract(x.a, hi-x.b.w, lo-x.b.w)
		}
	case OExtract:
		l2 := uint8(x.k)
		return c.Extract(x.a, hi+l2, lo+l2)
	case OBor, OBand, OBxor:
		return c.Bin(x.op, c.Extract(x.a, hi, lo), c.Extract(x.b, hi, lo))
	case OShl:
		if x.b.op == OConst {
			s := uint8(x.b.k)
			if lo >= s {
				return c.Extract(x.a, hi-s, lo-s)
			}
			if hi < s {
				return c.Const(w, 0)
			}
		}
	case OLshr:
		if x.b.op == OConst {
			s := uint8(x.b.k)
			if int(hi)+int(s) < int(x.w) {
				return c.Extract(x.a, hi+s, lo+s)
			}
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(x.op, c.Extract(x.a, hi, 0), c.Extract(x.b, hi, 0))
		}
	case OIte:
		if x.b.op == OConst || x.c.op == OConst {
			return c.Ite(x.a, c.Extract(x.b, hi, lo), c.Extract(x.c, hi, lo))
		}
	}
	return c.mk(tkey{op: OExtract, w: w, k: uint64(hi)<<8 | uint64(lo)}, x, nil, nil)
}

func (c *TermCtx) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OConst {
		return c.Const(w, x.k)
	}
	if x.op == OZext {
		return c.Zext(x.a, w)
	}
	return c.mk(tkey{op: OZext, w: w}, x, nil, nil)
}

func (c *TermCtx) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OConst {
		return c.Const(w, uint64(x.S()))
	}
	if x.op == OSext {
		return c.Sext(x.a, w)
	}
	if x.op == OZext {
		return c.Zext(x.a, w)
	}
	return c.mk(tkey{op: OSext, w: w}, x, nil, nil)
}

// resize x (signed or not) to width w
func (c *TermCtx) Resize(x *Term, signed bool, w uint8) *Term {
	switch {
	case x.w == w:
		return x
	case x.w > w:
		return c.Extract(x, w-1, 0)
	case signed:
		return c.Sext(x, w)
	default:
		return c.Zext(x, w)
	}
}

// BoolToBV converts a Bool to a bv1-style value of width w (0/1).
func (c *TermCtx) BoolToBV(x *Term, w uint8) *Term {
	return c.Ite(x, c.Const(w, 1), c.Const(w, 0))
}

func f64(k uint64) float64 { return math.Float64frombits(k) }
func f32(k uint64) float32 { return math.Float32frombits(uint32(k)) }

func (c *TermCtx) FBin(op Op, x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		if x.w == 64 {
			a, b := f64(x.k), f64(y.k)
			switch op {
			case OFAdd:
				return c.Const(64, math.Float64bits(a+b))
			case OFSub:
				return c.Const(64, math.Float64bits(a-b))
			case OFMul:
				return c.Const(64, math.Float64bits(a*b))
			case OFDiv:
				return c.Const(64, math.Float64bits(a/b))
			case OFLt:
				return c.Bool(a < b)
			case OFLe:
				return c.Bool(a <= b)
			case OFEq:
				return c.Bool(a == b)
			}
		} else {
			a, b := f32(x.k), f32(y.k)
			switch op {
			case OFAdd:
				return c.Const(32, uint64(math.Float32bits(a+b)))
			case OFSub:
				return c.Const(32, uint64(math.Float32bits(a-b)))
			case OFMul:
				return c.Const(32, uint64(math.Float32bits(a*b)))
			case OFDiv:
				return c.Const(32, uint64(math.Float32bits(a/b)))
			case OFLt:
				return c.Bool(a < b)
			case OFLe:
				return c.Bool(a <= b)
			case OFEq:
				return c.Bool(a == b)
			}
		}
	}
	w := x.w
	switch op {
	case OFLt, OFLe, OFEq:
		w = 0
	}
	if op == OFAdd && w == 64 {
		// adding +0 to a sum that cannot be -0
		for i, a := range []*Term{x, y} {
			o := []*Term{y, x}[i]
			if a.op == OConst && a.k == 0 && o.op == OFAdd && (o.a.op == OConst && o.a.k != 1<<63 || o.b.op == OConst && o.b.k != 1<<63) {
				return o
			}
		}
	}
	if x == y && (op == OFEq || op == OFLe) {
		return c.Not(c.FUn(OIsNaN, x, 0))
	}
	if (op == OFAdd || op == OFMul || op == OFEq) && x.id > y.id {
		x, y = y, x
	}
	return c.mk(tkey{op: op, w: w}, x, y, nil)
}

// fbound is a bound on the magnitude of a double, negative when none is evident.
func (c *TermCtx) fbound(t *Term) float64 {
	r := -1.0
	switch t.op {
	case OConst:
		r = math.Abs(f64(t.k))
	case OFromS, OFromU:
		r = math.Ldexp(1, int(t.a.w))
	case OFAdd, OFSub, OFMul:
		x, y := c.fbound(t.a), c.fbound(t.b)
		if x < 0 || y < 0 {
			return -1
		}
		if r = x + y; t.op == OFMul {
			r = x * y
		}
		r *= 1.001
	case OFDiv:
		x := c.fbound(t.a)
		if x < 0 || t.b.op != OConst || !(math.Abs(f64(t.b.k)) > 1e-300) {
			return -1
		}
		r = x / math.Abs(f64(t.b.k)) * 1.001
	case OIte:
		x, y := c.fbound(t.b), c.fbound(t.c)
		if x < 0 || y < 0 {
			return -1
		}
		r = math.Max(x, y)
	}
	if !(r < 1e307) || t.w != 64 {
		return -1
	}
	return r
}

func (c *TermCtx) FUn(op Op, x *Term, w uint8) *Term {
	if x.op == OConst {
		switch op {
		case OFFloor, OFCeil, OFTrunc, OFRound, OFSqrt:
			return c.Const(64, math.Float64bits(roundOf[op].f(f64(x.k))))
		case OFromS:
			if w == 64 {
				return c.Const(64, math.Float64bits(float64(x.S())))
			}
			return c.Const(32, uint64(math.Float32bits(float32(x.S()))))
		case OFromU:
			if w == 64 {
				return c.Const(64, math.Float64bits(float64(x.k)))
			}
			return c.Const(32, uint64(math.Float32bits(float32(x.k))))
		case OToS:
			if x.w == 64 {
				return c.Const(w, uint64(int64(f64(x.k))))
			}
			return c.Const(w, uint64(int64(f32(x.k))))
		case OToU:
			if x.w == 64 {
				return c.Const(w, uint64(f64(x.k)))
			}
			return c.Const(w, uint64(f32(x.k)))
		case OFCvt:
			if x.w == w {
				return x
			}
			if w == 64 {
				return c.Const(64, math.Float64bits(float64(f32(x.k))))
			}
			return c.Const(32, uint64(math.Float32bits(float32(f64(x.k)))))
		case OIsNaN:
			if x.w == 64 {
				return c.Bool(math.IsNaN(f64(x.k)))
			}
			return c.Bool(math.IsNaN(float64(f32(x.k))))
		}
	}
	if op == OFCvt && x.w == w {
		return x
	}
	if op == OIsNaN && x.w == 64 && c.fbound(x) >= 0 {
		return c.tFalse
	}
	if op == OIsNaN {
		// definition over bits: exponent all ones, mantissa non-zero
		if x.w == 64 {
			ab := c.Bin(OBand, x, c.Const(64, 1<<63-1))
			return c.Ult(c.Const(64, 0x7ff0000000000000), ab)
		}
		ab := c.Bin(OBand, x, c.Const(32, 1<<31-1))
		return c.Ult(c.Const(32, 0x7f800000), ab)
	}
	return c.mk(tkey{op: op, w: w}, x, nil, nil)
}

// ---- printing ----

func constStr(t *Term) string {
	if t.w == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.k)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.k)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OIte: "ite", OConcat: "concat"}

func fpOf(t *Term, w uint8) string {
	if w == 64 {
		return "((_ to_fp 11 53) " + t.ref() + ")"
	}
	return "((_ to_fp 8 24) " + t.ref() + ")"
}

func (t *Term) def() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&255, t.a.ref())
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, fpOf(t.a, t.w), fpOf(t.b, t.w))
	case OFLt, OFLe, OFEq:
		n := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[t.op]
		return fmt.Sprintf("(%s %s %s)", n, fpOf(t.a, t.a.w), fpOf(t.b, t.a.w))
	case OFromS, OFromU:
		f := "11 53"
		if t.w == 32 {
			f = "8 24"
		}
		u := ""
		if t.op == OFromU {
			u = "_unsigned"
		}
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp%s %s) RNE %s))", u, f, t.a.ref())
	case OFFloor, OFCeil, OFTrunc, OFRound, OFSqrt:
		return fmt.Sprintf("(fp.to_ieee_bv (%s %s))", roundOf[t.op].smt, fpOf(t.a, 64))
	case OToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, fpOf(t.a, t.a.w))
	case OToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, fpOf(t.a, t.a.w))
	case OFCvt:
		f := "11 53"
		if t.w == 32 {
			f = "8 24"
		}
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", f, fpOf(t.a, t.a.w))
	}
	n := opNames[t.op]
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.ref()
		}
	}
	return s + ")"
}

// Eval evaluates t under a model (variable values by name, default 0).
func (t *Term) Eval(c *TermCtx, m map[string]uint64, memo map[int32]*Term) *Term {
	if t.op == OConst {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	ev := func(x *Term) *Term {
		if x == nil {
			return nil
		}
		return x.Eval(c, m, memo)
	}
	switch t.op {
	case OVar:
		r = c.Const(t.w, m[t.name])
	default:
		r = c.rebuild(t, ev(t.a), ev(t.b), ev(t.c))
	}
	memo[t.id] = r
	return r
}

func (c *TermCtx) rebuild(t, a, b, d *Term) *Term {
	switch t.op {
	case ONot:
		return c.Not(a)
	case OAnd:
		return c.And(a, b)
	case OOr:
		return c.Or(a, b)
	case OEq:
		return c.Eq(a, b)
	case OUlt:
		return c.Ult(a, b)
	case OUle:
		return c.Ule(a, b)
	case OSlt:
		return c.Slt(a, b)
	case OSle:
		return c.Sle(a, b)
	case OBnot:
		return c.Bnot(a)
	case OIte:
		return c.Ite(a, b, d)
	case OConcat:
		return c.Concat(a, b)
	case OExtract:
		return c.Extract(a, uint8(t.k>>8), uint8(t.k))
	case OZext:
		return c.Zext(a, t.w)
	case OSext:
		return c.Sext(a, t.w)
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		return c.FBin(t.op, a, b)
	case OFromS, OFromU, OToS, OToU, OFCvt, OIsNaN, OFFloor, OFCeil, OFTrunc, OFRound, OFSqrt:
		return c.FUn(t.op, a, t.w)
	default:
		return c.Bin(t.op, a, b)
	}
}

// String shows a term as a tree, for debugging.
func (t *Term) String() string {
	switch t.op {
	case OConst, OVar:
		return t.ref()
	}
	s := fmt.Sprintf("(%d", t.op)
	if n := opNames[t.op]; n != "" {
		s = "(" + n
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
