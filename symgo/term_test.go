package main

import (
	"math/rand"
	"testing"
)

// The simplifier against direct evaluation on random expressions.
func TestSimplifier(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	ws := []uint8{8, 16, 32, 64}
	for round := 0; round < 30000; round++ {
		c := NewTermCtx()
		m := map[string]uint64{}
		type tvp struct {
			t *Term
			v uint64
		}
		var pool []tvp
		for i := 0; i < 4; i++ {
			w := ws[rng.Intn(4)]
			n := string(rune('a' + i))
			v := rng.Uint64() & mask(w)
			if rng.Intn(3) == 0 {
				v = uint64(rng.Intn(3)) & mask(w)
			}
			m[n] = v
			pool = append(pool, tvp{c.Var(n, w), v})
		}
		pick := func() tvp { return pool[rng.Intn(len(pool))] }
		same := func(w uint8) tvp {
			for i := 0; i < 20; i++ {
				if p := pick(); p.t.w == w {
					return p
				}
			}
			v := rng.Uint64() & mask(w)
			if rng.Intn(2) == 0 {
				v = mask(uint8(rng.Intn(int(w) + 1)))
			}
			return tvp{c.Const(w, v), v}
		}
		for i := 0; i < 14; i++ {
			x := pick()
			w := x.t.w
			if w == 0 {
				continue
			}
			var r tvp
			switch k := rng.Intn(15); k {
			case 14:
				// overflow checks
				if w < 8 {
					continue
				}
				q := []uint64{2, 3, 7, 10, 100, 127}[rng.Intn(6)]
				div, f := OSdiv, func(a, b uint64) uint64 { return uint64(sx(a&mask(w), w)/sx(b, w)) & mask(w) }
				if rng.Intn(2) == 0 {
					div, f = OUdiv, func(a, b uint64) uint64 { return a & mask(w) / b }
				}
				e := c.Eq(c.Bin(div, c.Bin(OMul, x.t, c.Const(w, q)), c.Const(w, q)), x.t)
				r = tvp{e, 0}
				if f(x.v*q, q) == x.v {
					r.v = 1
				}
			case 0, 1, 2, 3, 4, 5:
				y := same(w)
				op := []Op{OAdd, OSub, OMul, OBand, OBor, OBxor}[k]
				var v uint64
				switch op {
				case OAdd:
					v = x.v + y.v
				case OSub:
					v = x.v - y.v
				case OMul:
					v = x.v * y.v
				case OBand:
					v = x.v & y.v
				case OBor:
					v = x.v | y.v
				case OBxor:
					v = x.v ^ y.v
				}
				r = tvp{c.Bin(op, x.t, y.t), v & mask(w)}
			case 6, 7, 8:
				s := uint64(rng.Intn(int(w)))
				if rng.Intn(2) == 0 {
					s = s / 8 * 8
				}
				st := c.Const(w, s)
				switch k {
				case 6:
					r = tvp{c.Bin(OShl, x.t, st), x.v << s & mask(w)}
				case 7:
					r = tvp{c.Bin(OLshr, x.t, st), x.v >> s}
				case 8:
					r = tvp{c.Bin(OAshr, x.t, st), uint64(sx(x.v, w)>>s) & mask(w)}
				}
			case 9:
				lo := uint8(rng.Intn(int(w)))
				hi := lo + uint8(rng.Intn(int(w-lo)))
				if rng.Intn(2) == 0 {
					lo, hi = 0, []uint8{7, 15, 31}[rng.Intn(3)]
					if hi >= w {
						continue
					}
				}
				r = tvp{c.Extract(x.t, hi, lo), x.v >> lo & mask(hi-lo+1)}
			case 10:
				w2 := ws[rng.Intn(4)]
				if w2 < w {
					continue
				}
				r = tvp{c.Zext(x.t, w2), x.v}
			case 11:
				w2 := ws[rng.Intn(4)]
				if w2 < w {
					continue
				}
				r = tvp{c.Sext(x.t, w2), uint64(sx(x.v, w)) & mask(w2)}
			case 12:
				y := pick()
				if int(w)+int(y.t.w) > 64 || y.t.w == 0 {
					continue
				}
				r = tvp{c.Concat(x.t, y.t), x.v<<y.t.w | y.v}
			case 13:
				y := same(w)
				var cond *Term
				var cv bool
				switch rng.Intn(3) {
				case 0:
					cond, cv = c.Ult(x.t, y.t), x.v < y.v
				case 1:
					cond, cv = c.Slt(x.t, y.t), sx(x.v, w) < sx(y.v, w)
				case 2:
					cond, cv = c.Eq(x.t, y.t), x.v == y.v
				}
				if e := cond.Eval(c, m, map[int32]*Term{}); e.IsTrue() != cv {
					t.Fatalf("round %d: comparison %s is %v, want %v", round, cond.def(), e.IsTrue(), cv)
				}
				z := same(w)
				v := y.v
				if !cv {
					v = z.v
				}
				r = tvp{c.Ite(cond, y.t, z.t), v}
			}
			if r.t.w > 64 || r.t.w == 0 {
				continue
			}
			if e := r.t.Eval(c, m, map[int32]*Term{}); e.k != r.v {
				t.Fatalf("round %d: %s = %#x, want %#x", round, r.t.def(), e.k, r.v)
			}
			pool = append(pool, r)
		}
	}
}
