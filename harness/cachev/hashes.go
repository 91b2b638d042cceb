package cachev

import (
	"math"
	"strconv"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/zzverif/nd"
)

// census looks at a hash with every reading command.
func census(c *cache.Cache, m *model, fields ...string) {
	for _, o := range []int{oHLen, oHKeys, oHVals, oHGetAll} {
		op{c: o, k: "k"}.do(c, m)
	}
	for i, f := range fields {
		for _, o := range []int{oHGet, oHExists, oHStrLen} {
			op{c: o, k: "k", f: f}.do(c, m)
		}
		op{c: oHMGet, k: "k", f: f, f2: fields[(i+1)%len(fields)]}.do(c, m)
	}
	// no read changes anything
	op{c: oHLen, k: "k"}.do(c, m)
	op{c: oHGetAll, k: "k"}.do(c, m)
}

// C10_map: up to three hash writes over fields of any one-byte name, then all reads.
func C10_map() {
	c, m := start()
	nd.MapOrder(2)
	a, b := nd.Str("a", 1), nd.Str("b", 1)
	n := 3
	vals := []string{"x", "12", ""}
	for i := 0; i < n; i++ {
		o := op{k: "k", v: vals[i], v2: "y", one: true}
		switch nd.Choice("cmd", 6) {
		case 0:
			o.c, o.f = oHSet, a
		case 1:
			o.c, o.f = oHSet, b
		case 2:
			o.c, o.f = oHSetNX, b
		case 3:
			nd.Assume(a != b)
			o.c, o.f, o.f2, o.one = oHMSet, b, a, false
		case 4:
			o.c, o.f = oHDel, a
		case 5:
			o.c, o.f, o.f2, o.one = oHDel, b, a, false
		}
		o.do(c, m)
		op{c: oHLen, k: "k"}.do(c, m)
	}
	census(c, m, a, b, "other")
}

// C10_absent: every hash command on a key in any state.
func C10_absent() {
	c, m := start()
	prepare(c, m, "k", nd.Choice("state", states))
	o := anyOp("cmd", hashOps)
	o.one = nd.Bool("one")
	o.f, o.f2 = []string{"f", "n", ""}[nd.Choice("field", 3)], "g"
	o.do(c, m)
	if m.at("k").kind != str {
		census(c, m, "f", "g", "")
	}
	agree(c, m, "a hash command left a wrong value", "k")
}

// C10_long: sequences of five commands (seven in the thorough check) on two fields.
func C10_long() {
	c, m := start()
	n := 4 + nd.Tier()
	for i := 0; i < n; i++ {
		o := op{k: "k", f: []string{"f", "g"}[nd.Choice("field", 2)], v: strconv.Itoa(i), f2: "h", v2: "w", one: true}
		o.c = []int{oHSet, oHSetNX, oHDel, oHMSet, oHIncrBy}[nd.Choice("cmd", 5)]
		o.n = 3
		if o.c == oHMSet {
			o.one = false
		}
		o.do(c, m)
	}
	census(c, m, "f", "g", "h")
}

// C10_remove: deleting the same field twice, deleting nothing, deleting the key.
func C10_remove() {
	c, m := start()
	prepare(c, m, "k", []int{0, 2, 9, 11}[nd.Choice("state", 4)])
	f := []string{"f", "g", "n"}[nd.Choice("f", 3)]
	n, err := c.HDel("k", f, f)
	e := m.at("k")
	want := 0
	if i := e.find(f); i >= 0 {
		want = 1
		e.h = append(e.h[:i:i], e.h[i+1:]...)
	}
	nd.Assert(err == nil && n == want, "HDel of a field named twice counts wrongly")
	n, err = c.HDel("k")
	nd.Assert(err == nil && n == 0, "HDel of nothing")
	census(c, m, "f", "g")
	if nd.Bool("del") {
		c.Del("k")
		*e = entry{}
		census(c, m, "f", "g")
		op{c: oHSet, k: "k", f: "g", v: "new"}.do(c, m)
		census(c, m, "f", "g")
	}
}

// C10_fields: any field name and value of up to 2 bytes.
func C10_fields() {
	c, m := start()
	f, g := nd.Str("f", nd.Choice("flen", 3)), nd.Str("g", nd.Choice("glen", 2+nd.Tier()))
	op{c: oHSet, k: "k", f: f, v: "1"}.do(c, m)
	op{c: []int{oHSet, oHSetNX}[nd.Choice("cmd", 2)], k: "k", f: g, v: nd.Str("v", nd.Choice("vlen", 2+nd.Tier()))}.do(c, m)
	census(c, m, f, g)
	op{c: oHDel, k: "k", f: g, one: true}.do(c, m)
	census(c, m, f, g)
}

// C11_ints: two increments of any size over a number of any origin.
func C11_ints() {
	c, m := start()
	switch nd.Choice("state", 10) {
	case 0:
	case 1:
		op{c: oHSet, k: "k", f: "other", v: "9"}.do(c, m)
	case 2:
		op{c: oHSet, k: "k", f: "f", v: strconv.FormatInt(nd.Int64("start"), 10)}.do(c, m)
	case 3:
		op{c: oHMSet, k: "k", f: "f", f2: "g", v: "-17", v2: "x"}.do(c, m)
	case 4:
		op{c: oHIncrBy, k: "k", f: "f", n: nd.Int64("start")}.do(c, m)
	case 5:
		op{c: oHSetNX, k: "k", f: "f", v: "99"}.do(c, m)
	case 6:
		op{c: oHSet, k: "k", f: "f", v: []string{"x", "1.5", "1e3", "9223372036854775808", "-9223372036854775809", "5 ", "0.5"}[nd.Choice("text", 7)]}.do(c, m)
	case 7:
		op{c: oHIncrByFloat, k: "k", f: "f", x: 2}.do(c, m)
		op{c: oHIncrByFloat, k: "k", f: "f", x: []float64{1, -4, 0.5}[nd.Choice("x", 3)]}.do(c, m)
	case 9:
		op{c: oHIncrByFloat, k: "k", f: "f", x: []float64{1 << 53, 1 << 62, -1 << 62, 1 << 63, -1 << 63, 1e18, 123456789012345680, 1e15 + 0.5, 1e19}[nd.Choice("big", 9)]}.do(c, m)
	case 8:
		op{c: oPSetEX, k: "k", v: "5", n: 1}.do(c, m)
		m.advance(2 * ms)
	}
	for i := 0; i < 2; i++ {
		op{c: oHIncrBy, k: "k", f: "f", n: nd.Int64("by")}.do(c, m)
		agree(c, m, "a hash counter left a wrong value", "k")
	}
	op{c: oHGet, k: "k", f: "f"}.do(c, m)
}

// C11_floats: any finite increments over a number of any origin.
func C11_floats() {
	c, m := start()
	switch nd.Choice("state", 6) {
	case 0:
	case 1:
		op{c: oHSet, k: "k", f: "f", v: []string{"1.5", "-0.1", "10", "1.50", "1e3", "-2.5E-3", "5.", "0.30000000000000004", "007.5"}[nd.Choice("text", 9)]}.do(c, m)
	case 2:
		n := nd.Int64("start")
		op{c: oHIncrBy, k: "k", f: "f", n: n}.do(c, m)
		x, err := c.HIncrByFloat("k", "f", 0.25)
		nd.Assert(err == nil && x == float64(n)+0.25, "HIncrByFloat on a counter")
		return
	case 3:
		op{c: oHIncrByFloat, k: "k", f: "f", x: finite("start")}.do(c, m)
	case 4:
		op{c: oHSet, k: "k", f: "f", v: []string{"x", "1.5.2", "1,5", "--1", "1 ", "0.5f"}[nd.Choice("other", 6)]}.do(c, m)
	case 5:
		op{c: oHMSet, k: "k", f: "f", f2: "g", v: "3", v2: "4"}.do(c, m)
		op{c: oHIncrBy, k: "k", f: "f", n: -8}.do(c, m)
	}
	op{c: oHIncrByFloat, k: "k", f: "f", x: finite("by")}.do(c, m)
	e := m.at("k")
	s, err := c.HGet("k", "f")
	if i := e.find("f"); i >= 0 {
		nd.Assert(err == nil && s == e.h[i].v, "the sum is not what HGet shows")
	}
	op{c: oHLen, k: "k"}.do(c, m)
}

// C11_turns: integer and float increments and plain writes in turn.
func C11_turns() {
	c, m := start()
	for i := 0; i < 3+nd.Tier(); i++ {
		o := op{k: "k", f: []string{"f", "g"}[nd.Choice("field", 2)], v: "2.5", n: 7, x: []float64{0.5, 3, -0.1}[i%3]}
		o.c = []int{oHIncrBy, oHIncrByFloat, oHSet}[nd.Choice("cmd", 3)]
		if o.c == oHSet && nd.Bool("int") {
			o.v = "40"
		}
		o.do(c, m)
		agree(c, m, "a hash counter left a wrong value", "k")
	}
}

// C11_any: increments of any text of one byte (two in the thorough check).
func C11_any() {
	c, m := start()
	op{c: oHSet, k: "k", f: "f", v: nd.Str("v", 1+nd.Choice("len", 1+nd.Tier()))}.do(c, m)
	if nd.Bool("float") {
		op{c: oHIncrByFloat, k: "k", f: "f", x: 0.5}.do(c, m)
	} else {
		op{c: oHIncrBy, k: "k", f: "f", n: []int64{1, math.MaxInt64}[nd.Choice("by", 2)]}.do(c, m)
	}
	agree(c, m, "a hash counter left a wrong value", "k")
}
