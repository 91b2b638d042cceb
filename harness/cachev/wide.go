package cachev

import (
	"math"
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/zzverif/nd"
)

// Commands with many arguments, long values and extreme numbers.

func name(i int) string { return "name" + strconv.Itoa(i) }

// widths are the numbers of arguments tried.
func width() int { return []int{3, 4, 5, 9, 40, 300}[nd.Choice("width", 5+nd.Tier())] }

// breadth is a larger one.
func breadth() int {
	nd.Steps(40000000)
	return []int{130, 260, 1030, 2100}[nd.Choice("breadth", 3+nd.Tier())]
}

// place is one of the positions of a list of n.
func place(s string, n int) int { return []int{0, 1, 2, n / 2, n - 2, n - 1}[nd.Choice(s, 6)] }

// C05_wide: MSetNX of many keys, one of them present or expired.
func C05_wide() {
	c, m := start()
	n := width()
	at := place("at", n)
	kv := map[string]string{}
	var keys []string
	for i := 0; i < n; i++ {
		keys = append(keys, name(i))
		kv[name(i)] = strconv.Itoa(i)
	}
	present := false
	switch nd.Choice("state", 5) {
	case 0:
	case 1:
		op{c: oSet, k: name(at), v: nd.Str("old", 2)}.do(c, m)
		present = true
	case 2:
		op{c: oHSet, k: name(at), f: "f", v: "old"}.do(c, m)
		present = true
	case 3:
		op{c: oPSetEX, k: name(at), v: "old", n: 1}.do(c, m)
		m.advance(2 * ms)
	case 4:
		op{c: oSet, k: name(at), v: ""}.do(c, m)
		present = true
	}
	r := c.MSetNX(kv)
	if present {
		nd.Assert(r == 0, "MSetNX on a present key does not answer 0")
	} else {
		nd.Assert(r == n, "MSetNX on absent keys does not answer their number")
	}
	for i, k := range keys {
		s, err := c.Get(k)
		switch {
		case !present:
			nd.Assert(err == nil && s == strconv.Itoa(i), "MSetNX did not write a key")
		case i == at:
			agree(c, m, "MSetNX changed a present key", k)
		default:
			nd.Assert(err == cache.ErrKeyNil, "MSetNX wrote a key beside a present one")
		}
	}
}

// C08_wide: MSet, MGet, Exists and Flush with many keys, one of them special.
func C08_wide() {
	c, m := start()
	n := width()
	at := place("at", n)
	kv := map[string]string{}
	var keys []string
	for i := 0; i < n; i++ {
		keys = append(keys, name(i))
		kv[name(i)] = strconv.Itoa(i)
	}
	special := nd.Str("special", nd.Choice("len", 3))
	keys[at] = nd.Str("name", nd.Choice("namelen", 2))
	delete(kv, name(at))
	kv[keys[at]] = special
	nd.Assert(c.MSet(kv) == "OK", "MSet does not answer OK")
	want, code, kind := special, 0, "string"
	switch nd.Choice("state", 4) {
	case 0:
	case 1:
		c.Del(keys[at])
		want, code, kind = "", 1, "none"
	case 2:
		c.Del(keys[at])
		c.HSet(keys[at], "f", "v")
		want, code, kind = "", 2, "hash"
	case 3:
		c.PSetEX(keys[at], special, 1)
		m.advance(2 * ms)
		want, code, kind = "", 1, "none"
	}
	var r res
	anys(&r, c.MGet(keys...), nil)
	nd.Assert(len(r.list) == n, "MGet has a wrong number of answers")
	for i := range keys {
		if i == at {
			nd.Assert((r.errs[i] != 0) == (code != 0) && r.list[i] == want, "MGet has a wrong answer")
		} else {
			nd.Assert(r.errs[i] == 0 && r.list[i] == strconv.Itoa(i), "MGet has a wrong answer")
		}
	}
	p := n
	if kind == "none" {
		p--
	}
	nd.Assert(c.Exists(keys...) == p, "Exists counts wrongly")
	nd.Assert(c.Type(keys[at]) == kind, "a wrong type")
	if nd.Bool("flush") {
		c.Flush()
		for _, k := range keys {
			_, err := c.Get(k)
			nd.Assert(err == cache.ErrKeyNil, "Flush left a key")
		}
		nd.Assert(c.Exists(keys...) == 0, "Flush left a key")
		return
	}
	d := 1
	if kind == "none" {
		d = 0
	}
	nd.Assert(c.Del(keys[at]) == d, "Del answers wrongly")
	nd.Assert(c.Exists(keys...) == n-1, "Del removed something else")
}

// C10_wide: a hash of many fields.
func C10_wide() {
	c, _ := start()
	n := width()
	at := place("at", n)
	fv := map[string]string{}
	var fields []string
	kind := nd.Choice("values", 3)
	for i := 0; i < n; i++ {
		fields = append(fields, name(i))
		fv[name(i)] = []string{strconv.Itoa(i), "same", ""}[kind]
	}
	special := nd.Str("special", nd.Choice("len", 2))
	fields[at] = nd.Str("name", nd.Choice("namelen", 2))
	delete(fv, name(at))
	fv[fields[at]] = special
	switch nd.Choice("how", 3) {
	case 0:
		r, err := c.HMSet("k", fv)
		nd.Assert(err == nil && r == n, "HMSet counts wrongly")
	case 1:
		for _, f := range fields {
			r, err := c.HSet("k", f, fv[f])
			nd.Assert(err == nil && r == 1, "HSet counts wrongly")
		}
	case 2:
		r, err := c.HSet("k", fields[at], special)
		nd.Assert(err == nil && r == 1, "HSet counts wrongly")
		r, err = c.HMSet("k", fv)
		nd.Assert(err == nil && r == n-1, "HMSet counts wrongly")
	}
	full := func(want []string) {
		l, err := c.HLen("k")
		nd.Assert(err == nil && l == len(want), "HLen is wrong")
		all, err := c.HGetAll("k")
		nd.Assert(err == nil && len(all) == len(want), "HGetAll has a wrong number of pairs")
		ks, err := c.HKeys("k")
		nd.Assert(err == nil && len(ks) == len(want), "HKeys has a wrong number of fields")
		in := map[string]bool{}
		for _, k := range ks {
			in[k] = true
		}
		vs, err := c.HVals("k")
		nd.Assert(err == nil && len(vs) == len(want), "HVals has a wrong number of values")
		count := map[string]int{}
		for _, v := range vs {
			count[v]++
		}
		got, err := c.HMGet("k", want...)
		nd.Assert(err == nil && len(got) == len(want), "HMGet has a wrong number of answers")
		for i, f := range want {
			v, ok := all[f]
			nd.Assert(ok && v == fv[f], "HGetAll lacks a pair")
			nd.Assert(in[f], "HKeys lacks a field")
			count[fv[f]]--
			s, err := c.HGet("k", f)
			nd.Assert(err == nil && s == fv[f], "HGet is wrong")
			e, err := c.HExists("k", f)
			nd.Assert(err == nil && e == 1, "HExists is wrong")
			x, _ := got[i].(string)
			nd.Assert(x == fv[f], "HMGet is wrong")
		}
		for _, n := range count {
			nd.Assert(n == 0, "HVals lacks a value")
		}
	}
	full(fields)
	switch nd.Choice("del", 5) {
	case 0: // all
		r, err := c.HDel("k", fields...)
		nd.Assert(err == nil && r == n, "HDel counts wrongly")
		for _, f := range fields {
			_, err := c.HGet("k", f)
			nd.Assert(err == cache.ErrKeyNil, "HDel left a field")
		}
	case 1: // none of these
		r, err := c.HDel("k", "no1", "no2", "no3", "no4")
		nd.Assert(err == nil && r == 0, "HDel counts wrongly")
		full(fields)
	case 2: // one after some missing ones
		r, err := c.HDel("k", "no1", "no2", fields[at], "no3")
		nd.Assert(err == nil && r == 1, "HDel counts wrongly")
		full(append(append([]string(nil), fields[:at]...), fields[at+1:]...))
	case 3: // the first three
		r, err := c.HDel("k", fields[:3]...)
		nd.Assert(err == nil && r == 3, "HDel counts wrongly")
		if n > 3 {
			full(fields[3:])
		}
	case 4: // overwriting keeps the number
		r, err := c.HSet("k", fields[at], "other")
		fv[fields[at]] = "other"
		nd.Assert(err == nil && r == 0, "HSet counts wrongly")
		full(fields)
	}
}

// C05_broad: MSetNX of hundreds of keys, one of them present.
func C05_broad() {
	c, m := start()
	n := breadth()
	at := []int{0, n / 2, n - 1}[nd.Choice("at", 3)]
	kv := map[string]string{}
	for i := 0; i < n; i++ {
		kv[name(i)] = "v" + strconv.Itoa(i)
	}
	present := nd.Bool("present")
	if present {
		op{c: oSet, k: name(at), v: "v" + nd.Str("old", 1)}.do(c, m)
	}
	r := c.MSetNX(kv)
	if present {
		nd.Assert(r == 0, "MSetNX on a present key does not answer 0")
		nd.Assert(c.Exists(append([]string(nil), manyNames(n)...)...) == 1, "MSetNX wrote a key beside a present one")
		agree(c, m, "MSetNX changed a present key", name(at))
		return
	}
	nd.Assert(r == n, "MSetNX on absent keys does not answer their number")
	for i := 0; i < n; i++ {
		s, err := c.Get(name(i))
		nd.Assert(err == nil && s == "v"+strconv.Itoa(i), "MSetNX did not write a key")
	}
}

func manyNames(n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, name(i))
	}
	return l
}

// C08_broad: hundreds of keys are kept apart.
func C08_broad() {
	c, _ := start()
	n := breadth()
	at := []int{0, n / 2, n - 1}[nd.Choice("at", 3)]
	kv := map[string]string{}
	keys := manyNames(n)
	for i, k := range keys {
		kv[k] = "v" + strconv.Itoa(i)
	}
	kv[keys[at]] = "s" + nd.Str("special", 1)
	switch nd.Choice("how", 2) {
	case 0:
		nd.Assert(c.MSet(kv) == "OK", "MSet does not answer OK")
	case 1:
		for _, k := range keys {
			s, err := c.Set(k, kv[k])
			nd.Assert(err == nil && s == "OK", "Set does not answer OK")
		}
	}
	gone := ""
	switch nd.Choice("then", 3) {
	case 1:
		gone = keys[at]
		nd.Assert(c.Del(gone) == 1, "Del answers wrongly")
	case 2:
		kv[keys[at]] = "other"
		c.GetSet(keys[at], "other")
	}
	var r res
	anys(&r, c.MGet(keys...), nil)
	nd.Assert(len(r.list) == n, "MGet has a wrong number of answers")
	for i, k := range keys {
		if k == gone {
			nd.Assert(r.errs[i] == 1, "a removed key is still there")
			continue
		}
		nd.Assert(r.errs[i] == 0 && r.list[i] == kv[k], "MGet has a wrong answer")
		s, err := c.Get(k)
		nd.Assert(err == nil && s == kv[k], "Get has a wrong answer")
	}
	if gone != "" {
		n--
	}
	nd.Assert(c.Exists(keys...) == n, "Exists counts wrongly")
	c.Flush()
	nd.Assert(c.Exists(keys...) == 0, "Flush left a key")
}

// C08_longnames: long names that differ in one byte only.
func C08_longnames() {
	nd.Steps(20000000)
	c, m := start()
	n := []int{17, 65, 130, 260, 520, 1030, 4100, 70000}[nd.Choice("len", 8)]
	at := []int{0, n / 2, n - 1}[nd.Choice("at", 3)]
	b := strings.Repeat([]string{"a", "\x00", ":"}[nd.Choice("fill", 3)], n)
	x, y := nd.Str("x", 1), nd.Str("y", 1)
	nd.Assume(x != y)
	p, q := b[:at]+x+b[at+1:], b[:at]+y+b[at+1:]
	switch nd.Choice("state", 3) {
	case 0:
		op{c: oSet, k: p, v: "vp"}.do(c, m)
	case 1:
		op{c: oHSet, k: p, f: "f", v: "vp"}.do(c, m)
	case 2:
		op{c: oPSetEX, k: p, v: "vp", n: 10}.do(c, m)
	}
	agree(c, m, "a long name is mistaken for another", q)
	switch nd.Choice("cmd", 6) {
	case 0:
		op{c: oSet, k: q, v: "vq"}.do(c, m)
	case 1:
		op{c: oDel, k: q}.do(c, m)
	case 2:
		op{c: oHSet, k: q, f: "f", v: "vq"}.do(c, m)
	case 3:
		op{c: oIncr, k: q}.do(c, m)
	case 4:
		op{c: oSetEX, k: q, v: "vq", n: 1}.do(c, m)
	case 5:
		c.MSet(map[string]string{q: "vq"})
		op{c: oSet, k: q, v: "vq"}.do(c, m)
	}
	agree(c, m, "a long name is mistaken for another", p, q)
	m.advance(20 * ms)
	agree(c, m, "a long name is mistaken for another", p, q)
}

// C10_broad: a hash of hundreds of fields.
func C10_broad() {
	c, _ := start()
	n := breadth()
	at := []int{0, n / 2, n - 1}[nd.Choice("at", 3)]
	fv := map[string]string{}
	fields := manyNames(n)
	for i, f := range fields {
		fv[f] = "v" + strconv.Itoa(i)
	}
	fv[fields[at]] = "s" + nd.Str("special", 1)
	switch nd.Choice("how", 2) {
	case 0:
		r, err := c.HMSet("k", fv)
		nd.Assert(err == nil && r == n, "HMSet counts wrongly")
	case 1:
		for _, f := range fields {
			r, err := c.HSet("k", f, fv[f])
			nd.Assert(err == nil && r == 1, "HSet counts wrongly")
		}
	}
	switch nd.Choice("then", 3) {
	case 1:
		fv[fields[at]] = "other"
		r, err := c.HSet("k", fields[at], "other")
		nd.Assert(err == nil && r == 0, "HSet counts wrongly")
	case 2:
		r, err := c.HDel("k", fields[at])
		nd.Assert(err == nil && r == 1, "HDel counts wrongly")
		delete(fv, fields[at])
	}
	l, err := c.HLen("k")
	nd.Assert(err == nil && l == len(fv), "HLen is wrong")
	all, err := c.HGetAll("k")
	nd.Assert(err == nil && len(all) == len(fv), "HGetAll has a wrong number of pairs")
	ks, err := c.HKeys("k")
	nd.Assert(err == nil && len(ks) == len(fv), "HKeys has a wrong number of fields")
	in := map[string]bool{}
	for _, k := range ks {
		in[k] = true
	}
	vs, err := c.HVals("k")
	nd.Assert(err == nil && len(vs) == len(fv), "HVals has a wrong number of values")
	got, err := c.HMGet("k", fields...)
	nd.Assert(err == nil && len(got) == n, "HMGet has a wrong number of answers")
	for i, f := range fields {
		v, ok := fv[f]
		if !ok {
			_, err := c.HGet("k", f)
			nd.Assert(err == cache.ErrKeyNil && !in[f], "HDel left a field")
			continue
		}
		nd.Assert(all[f] == v && in[f], "HGetAll lacks a pair")
		s, err := c.HGet("k", f)
		nd.Assert(err == nil && s == v, "HGet is wrong")
		x, _ := got[i].(string)
		nd.Assert(x == v, "HMGet is wrong")
	}
	r, err := c.HDel("k", fields...)
	nd.Assert(err == nil && r == len(fv), "HDel counts wrongly")
}

// C01_wide: long values of any shape are read back.
func C01_wide() {
	nd.Steps(20000000)
	c, m := start()
	n := []int{127, 128, 255, 256, 257, 1000, 4097, 70000}[nd.Choice("len", 8)]
	b := strings.Repeat([]string{"1", "x", "\x00", "\xc3", "0"}[nd.Choice("fill", 5)], n)
	switch nd.Choice("form", 3) {
	case 1:
		b = "-" + b[1:]
	case 2:
		b = b[:n/2] + "." + b[n/2+1:]
	}
	store(c, m, nd.Choice("how", 11), b)
}

// C02_long: edits of and reads from a value that is long already.
func C02_long() {
	defer guard()
	nd.Steps(60000000)
	c, m := start()
	n := []int{130, 260, 515, 1030, 4100, 65540}[nd.Choice("len", 6)]
	v := "v" + nd.Str("b", 1) + strings.Repeat("0123456789", n/10)
	op{c: oSet, k: "k", v: v}.do(c, m)
	switch nd.Choice("cmd", 5) {
	case 0:
		x := nd.Str("x", nd.Choice("xlen", 4))
		r, err := c.Append("k", x)
		v += x
		nd.Assert(err == nil && r == len(v), "Append answers wrongly")
	case 1:
		r, err := c.Append("k", v)
		v += v
		nd.Assert(err == nil && r == len(v), "Append answers wrongly")
	case 2:
		x := nd.Str("x", 1) + v[3:]
		r, err := c.SetRange("k", 2, x)
		v = v[:2] + x
		nd.Assert(err == nil && r == len(v), "SetRange answers wrongly")
	case 3:
		x := nd.Str("x", 1)
		r, err := c.SetRange("k", len(v)+n, x)
		v += strings.Repeat("\x00", n) + x
		nd.Assert(err == nil && r == len(v), "SetRange answers wrongly")
	case 4:
		s, err := c.GetSet("k", "w"+v)
		nd.Assert(err == nil && s == v, "GetSet answers wrongly")
		v = "w" + v
	}
	s, err := c.Get("k")
	nd.Assert(err == nil && s == v, "the edit left a wrong value")
	r, err := c.StrLen("k")
	nd.Assert(err == nil && r == len(v), "StrLen is wrong")
	ij := [][2]int{{0, -1}, {1, len(v) - 1}, {len(v) / 3, -2}, {-len(v), len(v) + 7}, {-len(v) - 5, len(v) - 3}, {3 - len(v), -1}}[nd.Choice("range", 6)]
	i, j := ij[0], ij[1]
	s, err = c.GetRange("k", i, j)
	if i < 0 {
		i += len(v)
	}
	if i < 0 {
		i = 0
	}
	if j < 0 {
		j += len(v)
	}
	if j >= len(v) {
		j = len(v) - 1
	}
	nd.Assert(err == nil && s == v[i:j+1], "GetRange answers wrongly")
}

// C02_far: edits at and reads from positions far into a value.
func C02_far() {
	defer guard()
	nd.Steps(60000000)
	c, m := start()
	v := ""
	if nd.Bool("old") {
		v = "abc"
		op{c: oSet, k: "k", v: v}.do(c, m)
	}
	i := []int{127, 128, 255, 256, 257, 259, 1000, 4096, 65535, 65536, 70000}[nd.Choice("pos", 11)]
	b := nd.Str("b", 1)
	switch nd.Choice("cmd", 2) {
	case 0:
		n, err := c.SetRange("k", i, b+"y")
		nd.Assert(err == nil && n == i+2, "SetRange answers wrongly")
		v += strings.Repeat("\x00", i-len(v)) + b + "y"
	case 1:
		s := b + strings.Repeat("x", i)
		n, err := c.Append("k", s)
		v += s
		nd.Assert(err == nil && n == len(v), "Append answers wrongly")
	}
	s, err := c.Get("k")
	nd.Assert(err == nil && s == v, "the edit left a wrong value")
	// inside
	from := []int{0, 3, len(v) / 2, len(v) - 3}[nd.Choice("from", 4)]
	n, err := c.SetRange("k", from, "QRS")
	v = v[:from] + "QRS" + v[from+3:]
	nd.Assert(err == nil && n == len(v), "SetRange answers wrongly")
	s, err = c.GetRange("k", from-1, from+3)
	lo, hi := from-1, from+4
	if lo < 0 {
		// -1 is the last byte
		lo = len(v)
		if lo > hi {
			lo = hi
		}
	}
	if hi > len(v) {
		hi = len(v)
	}
	nd.Assert(err == nil && s == v[lo:hi], "GetRange answers wrongly")
	s, err = c.GetRange("k", -4, -1)
	nd.Assert(err == nil && s == v[len(v)-4:], "GetRange answers wrongly")
	s, err = c.Get("k")
	nd.Assert(err == nil && s == v, "the edit left a wrong value")
	n, err = c.StrLen("k")
	nd.Assert(err == nil && n == len(v), "StrLen is wrong")
}

var extremes = []int{math.MinInt64, math.MinInt64 + 1, -1 << 62, -1 << 32, -1 << 31, -4, -1, 0, 1, 2, 3, 1 << 31, 1 << 32, 1 << 62, math.MaxInt64 - 1, math.MaxInt64}

// C02_extremes: GetRange between the largest and smallest positions.
func C02_extremes() {
	defer guard()
	nd.Steps(100000)
	c, m := start()
	op{c: oSet, k: "k", v: []string{"abc", "a", ""}[nd.Choice("v", 3)]}.do(c, m)
	op{c: oGetRange, k: "k", i: extremes[nd.Choice("i", len(extremes))], j: extremes[nd.Choice("j", len(extremes))]}.do(c, m)
}

// C14_extremes: the largest and smallest numbers take no longer than others.
func C14_extremes() {
	defer guard()
	nd.Steps(100000)
	c, m := start()
	switch nd.Choice("state", 5) {
	case 1:
		op{c: oSet, k: "k", v: "abc"}.do(c, m)
	case 2:
		op{c: oIncrBy, k: "k", n: -7}.do(c, m)
	case 3:
		op{c: oHSet, k: "k", f: "f", v: "5"}.do(c, m)
	case 4:
		op{c: oSetEX, k: "k", v: "1.5", n: 10}.do(c, m)
	}
	o := op{k: "k", v: []string{"", "5"}[nd.Choice("v", 2)], f: "f", i: extremes[nd.Choice("i", len(extremes))]}
	o.c = []int{oGetRange, oSetRange, oIncrBy, oDecrBy, oHIncrBy, oSetEX, oPSetEX}[nd.Choice("cmd", 7)]
	o.n = int64(o.i)
	switch o.c {
	case oGetRange:
		o.j = extremes[nd.Choice("j", len(extremes))]
	case oSetRange:
		nd.Assume(o.i < 1<<20 || o.i > 1<<30)
	}
	o.run(c)
	usable(c)
}

// C14_wide: many arguments, present or not.
func C14_wide() {
	defer guard()
	nd.Steps(3000000)
	c, m := start()
	prepare(c, m, "k", []int{0, 1, 2, 8, 9}[nd.Choice("state", 5)])
	n := width()
	var l []string
	kv := map[string]string{}
	first := []string{"f", "k", ""}[nd.Choice("first", 3)]
	for i := 0; i < n; i++ {
		s := name(i)
		if i == 1 {
			s = first
		}
		l = append(l, s)
		kv[s] = s
	}
	switch nd.Choice("cmd", 8) {
	case 0:
		c.HDel("k", l...)
	case 1:
		c.HMGet("k", l...)
	case 2:
		c.HMSet("k", kv)
	case 3:
		c.MSet(kv)
	case 4:
		c.MSetNX(kv)
	case 5:
		c.MGet(l...)
	case 6:
		c.Exists(l...)
	case 7:
		c.HMSet("k", kv)
		c.HDel("k", l...)
		c.HGetAll("k")
		c.HKeys("k")
		c.HVals("k")
	}
	usable(c)
}
