package cachev

import (
	"math"
	"strconv"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/zzverif/nd"
)

// reads looks at a string key with every reading command; GetSet comes last.
func reads(c *cache.Cache, m *model, k string) {
	op{c: oGet, k: k}.do(c, m)
	op{c: oMGet, k: k, one: true}.do(c, m)
	op{c: oStrLen, k: k}.do(c, m)
	op{c: oGetSet, k: k, v: "next"}.do(c, m)
	op{c: oGet, k: k}.do(c, m)
}

// hreads looks at a field with every reading command.
func hreads(c *cache.Cache, m *model, k, f string) {
	for _, o := range []int{oHGet, oHStrLen, oHMGet, oHVals, oHGetAll} {
		op{c: o, k: k, f: f, one: true}.do(c, m)
	}
}

// store writes v with the given command.
func store(c *cache.Cache, m *model, how int, v string) {
	switch how {
	case 0:
		op{c: oSet, k: "k", v: v}.do(c, m)
	case 1:
		op{c: oSetNX, k: "k", v: v}.do(c, m)
	case 2:
		op{c: oSetEX, k: "k", v: v, n: 100}.do(c, m)
	case 3:
		op{c: oPSetEX, k: "k", v: v, n: 100000}.do(c, m)
	case 4:
		op{c: oSet, k: "k", v: "before"}.do(c, m)
		op{c: oGetSet, k: "k", v: v}.do(c, m)
	case 5:
		op{c: oMSet, k: "k", k2: "l", v: v, v2: v}.do(c, m)
	case 6:
		op{c: oMSetNX, k: "l", k2: "k", v: "x", v2: v}.do(c, m)
	case 7:
		op{c: oHSet, k: "k", f: "f", v: v}.do(c, m)
	case 8:
		op{c: oHSetNX, k: "k", f: "f", v: v}.do(c, m)
	case 9:
		op{c: oHMSet, k: "k", f: "f", v: v, f2: "g", v2: "y"}.do(c, m)
	case 10:
		op{c: oHSet, k: "k", f: "f", v: "before"}.do(c, m)
		op{c: oHMSet, k: "k", f: "g", v: "y", f2: "f", v2: v}.do(c, m)
	}
	if how < 7 {
		reads(c, m, "k")
	} else {
		hreads(c, m, "k", "f")
	}
}

// C01_bytes: any string of up to 3 bytes (4 in the thorough check).
func C01_bytes() {
	c, m := start()
	n := nd.Choice("len", 4+nd.Tier())
	how := nd.Choice("how", 11)
	store(c, m, how, nd.Str("v", n))
}

// C01_digits: any decimal-looking text of up to 6 bytes (8 in the thorough check):
// sign, point, exponent and digits at any place.
func C01_digits() {
	c, m := start()
	v := []byte(nd.Str("v", 4+nd.Choice("len", 3+2*nd.Tier())))
	for i, b := range v {
		ok := b >= '0' && b <= '9' || b == '.' || i == 0 && b == '-'
		nd.Assume(ok)
	}
	how := []int{0, 7}[nd.Choice("how", 2)]
	store(c, m, how, string(v))
}

var odd = []string{
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
	"007", "+5", "-0", "0.0", "-0.0", "1.50", "1e3", "1E3", "1e400", "-1e400", "1e-400", "inf", "-inf", "+Inf", "Infinity", "NaN", "nan",
	"0x10", "0X1p-2", "0b11", "0o7", "1_000", "1_0.5", " 1", "1 ", "1\n", "1\x00", ".5", "5.", "00", "00.1", "0.1", "0.30000000000000004",
	"1.7976931348623157e308", "179769313486231570000000000000000000000", "100000000000000000000000", "4.9e-324", "123456789012345678", "9007199254740993",
	"9007199254740993.0", "0.1000000000000000055511151231257827", "3.0", "1e22", "1e21", "-", "+", ".", "e", "\xff\xfe\x00", "true", "nil", "null",
	"1e+06", "1e+21", "1E+21", "1e-07", "1e-7", "2.5e+10", "1e06", "1e+6", "-1e+06", "1e+100", "5e-324", "1.5e+300", "0x1p-02", "0x1p+00", "0x1.8p+01", "4.611686018427388e+18", "1.0", "1.10", "-1.0", "-.5", "1,000", "\t1", "1e0", "4611686018427387904.0", "\r\n", "$3\r\nfoo",
}

// C01_any: any text of up to 24 bytes that does not begin as a number does.
func C01_any() {
	c, m := start()
	v := nd.Str("v", []int{4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24}[nd.Choice("len", 11)])
	b := v[0]
	nd.Assume(b > '9' && b|0x20 != 'i' && b|0x20 != 'n' || b < '0' && b != '+' && b != '-' && b != '.')
	nd.Assume(b != '_')
	store(c, m, nd.Choice("how", 11), v)
}

// C01_texts: a list of texts that some number reader takes for a number.
func C01_texts() {
	c, m := start()
	v := odd[nd.Choice("text", len(odd))]
	store(c, m, nd.Choice("how", 11), v)
}

// C01_long: long texts with any byte at the front, in the middle or at the end.
func C01_long() {
	c, m := start()
	b := make([]byte, 70)
	f := "7a\x00"[nd.Choice("fill", 3)]
	for i := range b {
		b[i] = f
	}
	x := nd.Byte("b")
	if f == '7' {
		// a few numbers only: all digits are covered by C01_digits
		x = []byte{'7', '.', '-', 'e', 'x', '_', 0, ' '}[nd.Choice("odd", 8)]
	}
	b[nd.Choice("at", 3)*69/2] = x
	store(c, m, nd.Choice("how", 11), string(b))
}

// C01_rewrite: a value of any kind over a value of any kind.
func C01_rewrite() {
	c, m := start()
	if nd.Bool("hash") {
		op{c: oHSet, k: "k", f: "f", v: value("old", 6)}.do(c, m)
		op{c: []int{oHSet, oHMSet}[nd.Choice("how", 2)], k: "k", f: "f", v: value("new", 6), one: true}.do(c, m)
		hreads(c, m, "k", "f")
		return
	}
	prepare(c, m, "k", nd.Choice("state", states))
	how := []int{oSet, oSetEX, oPSetEX, oMSet}[nd.Choice("how", 4)]
	op{c: how, k: "k", v: value("new", 6), n: 1000, one: true}.do(c, m)
	reads(c, m, "k")
}

// C02_edit: one edit of a value of any kind, at any position.
func C02_edit() {
	defer guard()
	c, m := start()
	st := nd.Choice("state", 6)
	prepareStr(c, m, st)
	edit(c, m, st > 1)
	agree(c, m, "the edit left a wrong value", "k")
	op{c: oStrLen, k: "k"}.do(c, m)
}

// prepareStr makes a string of each kind, or none.
func prepareStr(c *cache.Cache, m *model, st int) {
	switch st {
	case 0:
	case 1:
		op{c: oSet, k: "k", v: nd.Str("init", nd.Choice("initlen", 3))}.do(c, m)
	case 2:
		op{c: oIncrBy, k: "k", n: []int64{7, -305, math.MaxInt64, math.MinInt64}[nd.Choice("initn", 4)]}.do(c, m)
	case 3:
		op{c: oIncrByFloat, k: "k", x: -2.25}.do(c, m)
	case 4:
		op{c: oSetEX, k: "k", v: "abcdef", n: 1000}.do(c, m)
	case 5:
		op{c: oSet, k: "k", v: "-1234567.875"}.do(c, m)
	}
}

// some is any text of up to 1 byte (2 in the thorough check), or one of a few where the rest is a number.
func some(num bool) string {
	if num {
		return []string{"", "5", ".", "x", "\x00", "-", "50", "e2"}[nd.Choice("text", 8)]
	}
	return nd.Str("bytes", nd.Choice("len", 2+nd.Tier()))
}

func edit(c *cache.Cache, m *model, num bool) {
	switch nd.Choice("cmd", 4) {
	case 0:
		op{c: oAppend, k: "k", v: some(num)}.do(c, m)
	case 1:
		o := op{c: oSetRange, k: "k", i: nd.Int("pos"), v: some(num)}
		// far away positions only below what fits, C14 has the others
		nd.Assume(o.i < 12)
		if num {
			o.i = []int{-1, 0, 1, 2, 5, 11, 30}[nd.Choice("at", 7)]
		}
		o.do(c, m)
	case 2:
		o := op{c: oGetRange, k: "k"}
		if num {
			o.i = []int{0, 1, 6, -3, -30, 40}[nd.Choice("from", 6)]
			o.j = []int{0, 3, 25, -1, -4, -40}[nd.Choice("to", 6)]
		} else {
			o.i, o.j = nd.Int("from"), nd.Int("to")
		}
		o.do(c, m)
	case 3:
		op{c: oStrLen, k: "k"}.do(c, m)
	}
}

// C02_range: all pairs of 64-bit positions over values of 0 to 5 bytes (8 in the
// thorough check).
func C02_range() {
	defer guard()
	nd.Steps(300000)
	c, m := start()
	v := "abcdefgh"[:nd.Choice("len", 6+3*nd.Tier())]
	op{c: oSet, k: "k", v: v}.do(c, m)
	op{c: oGetRange, k: "k", i: nd.Int("from"), j: nd.Int("to")}.do(c, m)
}

// C02_setrange: a write at every position up to 300 into values of up to 5 bytes.
func C02_setrange() {
	defer guard()
	c, m := start()
	v := "abcde"[:nd.Choice("len", 6)]
	if v != "" {
		op{c: oSet, k: "k", v: v}.do(c, m)
	}
	i := nd.Int("pos")
	nd.Assume(i < 20 || i == 300)
	op{c: oSetRange, k: "k", i: i, v: "XY"[:nd.Choice("put", 3)]}.do(c, m)
	agree(c, m, "SetRange left a wrong value", "k")
}

// C02_sequence: two edits after each other.
func C02_sequence() {
	defer guard()
	c, m := start()
	for i := 0; i < 2+nd.Tier(); i++ {
		switch nd.Choice("cmd", 3) {
		case 0:
			op{c: oAppend, k: "k", v: []string{"1", "-", ".5", "e2", "0", "", "\x00"}[nd.Choice("add", 7)]}.do(c, m)
		case 1:
			op{c: oSetRange, k: "k", i: nd.Choice("pos", 3), v: []string{"1", "-", ".5", "0", "\xff"}[nd.Choice("put", 5)]}.do(c, m)
		case 2:
			op{c: oGetRange, k: "k", i: nd.Int("from"), j: nd.Int("to")}.do(c, m)
		}
		agree(c, m, "an edit left a wrong value", "k")
	}
	op{c: oStrLen, k: "k"}.do(c, m)
}

// number states of a key
func prepareNum(c *cache.Cache, m *model, st int) {
	switch st {
	case 0:
	case 1:
		op{c: oSet, k: "k", v: strconv.FormatInt(nd.Int64("start"), 10)}.do(c, m)
	case 2:
		op{c: oIncrBy, k: "k", n: nd.Int64("start")}.do(c, m)
	case 3: // an integer reached through a float counter
		op{c: oIncrByFloat, k: "k", x: 2.5}.do(c, m)
		op{c: oIncrByFloat, k: "k", x: []float64{0.5, -12.5, 0.25}[nd.Choice("x", 3)]}.do(c, m)
	case 4:
		op{c: oSetEX, k: "k", v: "41", n: 1000}.do(c, m)
	case 5: // not integers
		op{c: oSet, k: "k", v: []string{"", "x", "1.5", "12a", "9223372036854775808", "-9223372036854775809", "1e3", "-", "1 ", "1.50"}[nd.Choice("text", 10)]}.do(c, m)
	case 6: // made by editing
		op{c: oAppend, k: "k", v: "1"}.do(c, m)
		op{c: oAppend, k: "k", v: "2"}.do(c, m)
		op{c: oSetRange, k: "k", i: 1, v: "9"}.do(c, m)
	case 7:
		op{c: oMSet, k: "k", v: "-5", one: true}.do(c, m)
	case 8: // large floating-point numbers, shown as integers
		op{c: oIncrByFloat, k: "k", x: []float64{1 << 53, 1<<53 + 2, 1 << 62, -1 << 62, 1 << 63, -1 << 63, 1e18, -1e18, 123456789012345680, 1e15 + 0.5, 1e19}[nd.Choice("big", 11)]}.do(c, m)
	}
}

// C03_count: two counter commands with any 64-bit increments on any number.
func C03_count() {
	c, m := start()
	prepareNum(c, m, nd.Choice("state", 9))
	for i := 0; i < 2; i++ {
		o := op{c: []int{oIncr, oIncrBy, oDecr, oDecrBy}[nd.Choice("cmd", 4)], k: "k"}
		if o.c == oIncrBy || o.c == oDecrBy {
			o.n = nd.Int64("by")
		}
		o.do(c, m)
		agree(c, m, "a counter left a wrong value", "k")
	}
}

// C03_any: the counters on any text of up to 2 bytes (3 in the thorough check).
func C03_any() {
	c, m := start()
	op{c: oSet, k: "k", v: nd.Str("v", nd.Choice("len", 3+nd.Tier()))}.do(c, m)
	op{c: []int{oIncr, oIncrBy, oDecr, oDecrBy}[nd.Choice("cmd", 4)], k: "k", n: 5}.do(c, m)
	agree(c, m, "a counter left a wrong value", "k")
}

// C03_min: the one decrement without a negation is refused or exact.
func C03_min() {
	c, m := start()
	v := nd.Int64("start")
	op{c: oIncrBy, k: "k", n: v}.do(c, m)
	n, err := c.DecrBy("k", math.MinInt64)
	s, err2 := c.Get("k")
	nd.Assert(err2 == nil, "the counter is lost")
	if err != nil {
		nd.Assert(s == strconv.FormatInt(v, 10), "a refused decrement changed the counter")
		return
	}
	nd.Assert(v < 0 && int64(n) == v-math.MinInt64 && s == strconv.FormatInt(int64(n), 10), "a wrong difference")
}

func finite(name string) float64 {
	x := nd.Float64(name)
	nd.Assume(!math.IsInf(x, 0) && !math.IsNaN(x))
	return x
}

// C04_add: any finite increments on an absent key or a number of any origin.
func C04_add() {
	c, m := start()
	switch nd.Choice("state", 6) {
	case 0:
	case 1:
		op{c: oSet, k: "k", v: []string{"1.5", "-0.1", "10", "1.50", "1e3", "-2.5E-3", "5.", "0.30000000000000004", "007.5"}[nd.Choice("text", 9)]}.do(c, m)
	case 2:
		n := nd.Int64("start")
		op{c: oIncrBy, k: "k", n: n}.do(c, m)
		x, err := c.IncrByFloat("k", 0.25)
		nd.Assert(err == nil && x == float64(n)+0.25, "IncrByFloat on a counter")
		return
	case 3:
		op{c: oIncrByFloat, k: "k", x: finite("start")}.do(c, m)
	case 4:
		op{c: oSet, k: "k", v: []string{"", "x", "1.5.2", "1,5", "--1", "1 ", "0.5f"}[nd.Choice("other", 7)]}.do(c, m)
	case 5:
		op{c: oIncr, k: "k"}.do(c, m)
		op{c: oDecrBy, k: "k", n: 100}.do(c, m)
	}
	op{c: oIncrByFloat, k: "k", x: finite("by")}.do(c, m)
	e := m.at("k")
	s, err := c.Get("k")
	nd.Assert(err == nil && s == e.s, "the sum is not what Get shows")
}

// C04_twice: floats and integers in turn.
func C04_twice() {
	c, m := start()
	for i := 0; i < 3; i++ {
		switch nd.Choice("cmd", 3) {
		case 0:
			op{c: oIncrByFloat, k: "k", x: []float64{0.5, 3, -0.1, 1e21, 0.25}[nd.Choice("x", 5)]}.do(c, m)
		case 1:
			op{c: oIncrBy, k: "k", n: 7}.do(c, m)
		case 2:
			op{c: oAppend, k: "k", v: "5"}.do(c, m)
		}
		agree(c, m, "a counter left a wrong value", "k")
	}
}

// C04_text: sums over any decimal text of the form d.d, -d.d, d.dd.
func C04_text() {
	c, m := start()
	d := nd.Str("d", 3)
	for i := 0; i < 3; i++ {
		nd.Assume(d[i] >= '0' && d[i] <= '9')
	}
	t := []string{d[:1] + "." + d[1:2], "-" + d[:1] + "." + d[1:2], d[:1] + "." + d[1:], d}[nd.Choice("form", 4)]
	op{c: oSet, k: "k", v: t}.do(c, m)
	x, err := c.IncrByFloat("k", 0.5)
	y, _ := strconv.ParseFloat(t, 64)
	nd.Assert(err == nil && same(res{x: x}, res{x: y + 0.5}), "a wrong sum")
	z, err := c.IncrByFloat("k", 0)
	nd.Assert(err == nil && same(res{x: z}, res{x: x}), "the sum is not what a later increment sees")
}
