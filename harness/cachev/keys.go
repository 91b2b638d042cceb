package cachev

import (
	"math"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/zzverif/nd"
)

const ms = int64(time.Millisecond)
const sec = int64(time.Second)

// C05_one: SetNX and HSetNX against every prior state.
func C05_one() {
	c, m := start()
	prepare(c, m, "k", nd.Choice("state", states))
	if nd.Bool("hash") {
		op{c: oHSetNX, k: "k", f: []string{"f", "g", "n", ""}[nd.Choice("field", 4)], v: value("v", 3)}.do(c, m)
	} else {
		op{c: oSetNX, k: "k", v: value("v", 3)}.do(c, m)
	}
	agree(c, m, "a conditional write left a wrong value", "k")
	// once more: now it is there
	op{c: []int{oSetNX, oHSetNX}[nd.Choice("again", 2)], k: "k", f: "f", v: "again"}.do(c, m)
	agree(c, m, "a second conditional write left a wrong value", "k")
}

// C05_many: MSetNX of one to three keys, each in any state, in every map order.
func C05_many() {
	c, m := start()
	nd.MapOrder(3)
	keys := []string{"a", "b", "c"}[:1+nd.Choice("keys", 3)]
	kv := map[string]string{}
	present := false
	for _, k := range keys {
		if len(keys) == 3 && nd.Tier() == 0 {
			prepare(c, m, k, []int{0, 1, 2, 5}[nd.Choice("state", 4)])
		} else {
			prepare(c, m, k, nd.Choice("state", states))
		}
	}
	for _, k := range keys {
		present = present || m.at(k).kind != none
		kv[k] = ""
		if !nd.Bool("empty") {
			kv[k] = value("v"+k, 1+nd.Tier())
		}
	}
	n := c.MSetNX(kv)
	if present {
		nd.Assert(n == 0, "MSetNX on a present key does not answer 0")
	} else {
		nd.Assert(n == len(keys), "MSetNX on absent keys does not answer their number")
		for _, k := range keys {
			m.setStr(k, kv[k])
		}
	}
	agree(c, m, "MSetNX left a wrong value", keys...)
	// what was written has no lifetime of its predecessor
	m.advance(5 * ms)
	agree(c, m, "MSetNX left a wrong lifetime", keys...)
}

// C05_empty: MSetNX of nothing.
func C05_empty() {
	c, m := start()
	prepare(c, m, "k", nd.Choice("state", states))
	nd.Assert(c.MSetNX(map[string]string{}) == 0, "MSetNX of nothing does not answer 0")
	nd.Assert(c.MSetNX(nil) == 0, "MSetNX of nothing does not answer 0")
	agree(c, m, "MSetNX of nothing changed something", "k")
}

// anyOp is a command on key k with a fixed set of arguments.
func anyOp(name string, ops []int) op {
	return op{c: ops[nd.Choice(name, len(ops))], k: "k", k2: "l", v: "5", v2: "6", f: "f", f2: "g", n: 1000, i: 1, j: -1, x: 0.5}
}

func all() []int {
	var r []int
	for _, l := range [][]int{stringOps, multiOps, keyOps, hashOps} {
		r = append(r, l...)
	}
	return r
}

// C06_deadline: any lifetime, any later moment, then any command, then the rest.
func C06_deadline() {
	c, m := start()
	n := nd.Int64("life")
	nd.Assume(n > 0)
	o := op{c: []int{oSetEX, oPSetEX}[nd.Choice("cmd", 2)], k: "k", v: []string{"w", "12", "1.5", ""}[nd.Choice("v", 4)], n: n}
	then := anyOp("then", all())
	if nd.Bool("no name") {
		o.k, then.k = "", ""
	}
	o.do(c, m)
	d := nd.Int64("later")
	nd.Assume(d >= 0 && d < 1<<60)
	m.advance(d)
	then.do(c, m)
	agree(c, m, "wrong contents around a deadline", o.k, "l")
	// a value that outlives it has no deadline unless it is the same value
	m.advance(1 << 59)
	agree(c, m, "wrong contents long after a deadline", o.k, "l")
}

// C06_stays: what is written without a lifetime stays, whatever it is and whatever was
// there before.
func C06_stays() {
	c, m := start()
	k := []string{"k", ""}[nd.Choice("key", 2)]
	prepare(c, m, k, []int{0, 5, 6, 8, 10, 11, 2, 20}[nd.Choice("state", 8)])
	switch nd.Choice("between", 3) {
	case 1:
		op{c: oFlush}.do(c, m)
	case 2:
		op{c: oPSetEX, k: k, v: "x", n: 10}.do(c, m)
		op{c: oFlush}.do(c, m)
	}
	o := op{c: []int{oSet, oSetNX, oGetSet, oMSet, oMSetNX, oAppend, oSetRange, oIncr, oDecrBy, oIncrByFloat, oHSet, oHSetNX, oHMSet, oHIncrBy, oHIncrByFloat}[nd.Choice("cmd", 15)],
		k: k, f: "f", v: []string{"", "w", "0", "-1", "1.5"}[nd.Choice("v", 5)], one: true, n: 3, i: 1, x: 0.5}
	if o.c == oSetRange && o.v == "" {
		return
	}
	o.do(c, m)
	d := nd.Int64("later")
	nd.Assume(d >= 0 && d < 1<<60)
	m.advance(d)
	agree(c, m, "a key without a lifetime expired", k)
}

// C06_huge: lifetimes up to the largest number never end at once.
func C06_huge() {
	c, m := start()
	n := nd.Int64("life")
	nd.Assume(n > 0)
	unit := sec
	if nd.Bool("ms") {
		op{c: oPSetEX, k: "k", v: "w", n: n}.do(c, m)
		unit = ms
	} else {
		op{c: oSetEX, k: "k", v: "w", n: n}.do(c, m)
	}
	// just before the deadline, or as far as the clock goes
	d := int64(200 * 365 * 24 * time.Hour)
	if n <= d/unit {
		d = n*unit - 1
	}
	m.advance(d)
	agree(c, m, "a key expired before its deadline", "k")
	if n <= int64(200*365*24*time.Hour)/unit {
		m.advance(2)
		agree(c, m, "a key outlived its deadline", "k")
	}
}

// C06_sequence: two commands at different times between a short lifetime and its
// end.
func C06_sequence() {
	c, m := start()
	op{c: oPSetEX, k: "k", v: "7", n: 10}.do(c, m)
	one := []int{oSet, oSetNX, oSetEX, oPSetEX, oGetSet, oAppend, oSetRange, oIncr, oIncrByFloat, oDecrBy, oMSet, oMSetNX, oDel, oHSet, oGet, oFlush}
	for i := 0; i < 2+nd.Tier(); i++ {
		if nd.Bool("wait") {
			m.advance([]int64{6 * ms, 30 * ms}[nd.Choice("step", 2)])
		}
		o := op{c: one[nd.Choice("cmd", len(one))], k: "k", k2: "l", v: "8", v2: "9", f: "f", n: 20, i: 1, x: 0.5}
		if o.c == oSetEX {
			o.n = 1
		}
		o.do(c, m)
	}
	m.advance([]int64{1 * ms, 7 * ms, 12 * ms, 100 * ms, 5 * sec}[nd.Choice("end", 5)])
	agree(c, m, "wrong contents after a lifetime", "k", "l")
}

// C06_replaced: every way of replacing or removing a value drops its lifetime, every
// way of editing keeps it.
func C06_replaced() {
	c, m := start()
	a, b := nd.Int64("first"), nd.Int64("second")
	nd.Assume(a > 0 && b > 0 && a < 1<<30 && b < 1<<30)
	op{c: oPSetEX, k: "k", v: []string{"1", "", "w", "0.5"}[nd.Choice("v", 4)], n: a}.do(c, m)
	op{c: []int{oSet, oGetSet, oMSet, oSetEX, oPSetEX, oAppend, oSetRange, oIncr, oDecr, oIncrBy, oDecrBy, oIncrByFloat, oSetNX, oMSetNX}[nd.Choice("cmd", 14)],
		k: "k", k2: "l", v: "2", v2: "3", n: b, i: 1, x: 1}.do(c, m)
	d := nd.Int64("later")
	nd.Assume(d > 0 && d < 1<<60)
	m.advance(d)
	agree(c, m, "a lifetime was kept or dropped wrongly", "k")
}

// C07_sweep: keys in any state, a sweep, the clock, and another sweep.
func C07_sweep() {
	c, m := start()
	nd.MapOrder(2)
	c.Cron()
	nd.Quiesce()
	nd.Assert(nd.Tickers() >= 1, "Cron started no periodic cleaning")
	keys := []string{"a", "b", "c"}[:2+nd.Tier()]
	st := []int{0, 1, 2, 3, 4, 5, 8, 9, 12, 13}
	for _, k := range keys {
		switch s := st[nd.Choice("state", len(st))]; s {
		case 12: // ends between the sweeps
			op{c: oSetEX, k: k, v: "x", n: 3}.do(c, m)
		case 13: // ends just after the first sweep
			op{c: oPSetEX, k: k, v: "12", n: 1100}.do(c, m)
			op{c: oIncr, k: k}.do(c, m)
		default:
			prepare(c, m, k, s)
		}
	}
	m.advance(sec)
	nd.Tick()
	nd.Quiesce()
	if nd.Bool("look") {
		agree(c, m, "the sweep changed a key", keys...)
	}
	// keep its lifetime
	m.advance([]int64{50 * ms, 3 * sec, 2000 * sec}[nd.Choice("wait", 3)])
	if nd.Bool("look2") {
		agree(c, m, "the sweep changed a lifetime", keys...)
	}
	nd.Tick()
	nd.Quiesce()
	agree(c, m, "the second sweep changed a key", keys...)
	// a new value is not touched by the deadline of the old one
	op{c: oSet, k: "a", v: "new"}.do(c, m)
	op{c: oHSet, k: "b", f: "f", v: "new"}.run(c)
	nd.Tick()
	nd.Quiesce()
	s, err := c.Get("a")
	nd.Assert(err == nil && s == "new", "a sweep removed a new value")
}

// C07_time: the sweep against any lifetime and any moment.
func C07_time() {
	c, m := start()
	c.Cron()
	nd.Quiesce()
	n, d := nd.Int64("life"), nd.Int64("later")
	nd.Assume(n > 0 && n < 1<<40 && d > 0 && d < 1<<60)
	k := []string{"k", ""}[nd.Choice("key", 2)]
	op{c: oPSetEX, k: k, v: []string{"w", "", "12", "0.5"}[nd.Choice("v", 4)], n: n}.do(c, m)
	op{c: oSet, k: "l", v: []string{"stay", "", "0"}[nd.Choice("other", 3)]}.do(c, m)
	m.advance(d)
	nd.Tick()
	nd.Quiesce()
	agree(c, m, "the sweep missed or removed a key", k, "l")
	e := nd.Int64("later2")
	nd.Assume(e >= 0 && e < 1<<60)
	m.advance(e)
	agree(c, m, "the sweep changed a lifetime", k, "l")
	c.SetNX(k, "new")
	nd.Assert(c.Exists(k, "l") == 2, "a key cannot be written after a sweep")
}

// C07_many: many keys, half of them expired.
func C07_many() {
	c, m := start()
	c.Cron()
	nd.Quiesce()
	n := []int{30, 180, 400}[nd.Choice("n", 2+nd.Tier())]
	var keys []string
	for i := 0; i < n; i++ {
		k := "key" + string([]byte{'a' + byte(i%26), 'a' + byte(i/26)})
		keys = append(keys, k)
		switch i % 4 {
		case 0:
			op{c: oSet, k: k, v: "v"}.do(c, m)
		case 1:
			op{c: oPSetEX, k: k, v: "v", n: int64(100 + i)}.do(c, m)
		case 2:
			op{c: oSetEX, k: k, v: "3", n: 100}.do(c, m)
		case 3:
			op{c: oHSet, k: k, f: "f", v: "v"}.do(c, m)
		}
	}
	m.advance([]int64{50, 110, 120, 1000}[nd.Choice("wait", 4)]*ms + 1)
	nd.Tick()
	nd.Quiesce()
	agree(c, m, "the sweep missed or removed a key", keys...)
}

// C08_others: any command leaves a key it does not name alone.
func C08_others() {
	c, m := start()
	prepare(c, m, "z", nd.Choice("other", states))
	prepare(c, m, "k", []int{0, 1, 2, 20, 4}[nd.Choice("state", 5)])
	ops := all()
	if nd.Tier() == 0 {
		ops = []int{oSet, oSetNX, oSetEX, oGetSet, oAppend, oSetRange, oIncr, oIncrByFloat, oMSet, oMSetNX, oMGet, oDel, oHSet, oHSetNX, oHMSet, oHDel, oHIncrBy, oHIncrByFloat, oHGetAll}
	}
	anyOp("cmd", ops).do(c, m)
	agree(c, m, "a command changed another key", "z")
	m.advance(40 * ms)
	agree(c, m, "a command changed the lifetime of another key", "z")
}

// C08_names: the same for keys of any name of up to two bytes.
func C08_names() {
	c, m := start()
	a, b := nd.Str("a", nd.Choice("alen", 3)), nd.Str("b", nd.Choice("blen", 3))
	nd.Assume(a != b)
	mk := func(k string, st int) {
		switch st {
		case 1:
			op{c: oSet, k: k, v: "s"}.do(c, m)
		case 2:
			op{c: oHSet, k: k, f: "f", v: "h"}.do(c, m)
		case 3:
			op{c: oSetEX, k: k, v: "t", n: 1}.do(c, m)
		}
	}
	mk(a, nd.Choice("astate", 4))
	mk(b, nd.Choice("bstate", 4))
	switch nd.Choice("cmd", 4) {
	case 0:
		op{c: oDel, k: a}.do(c, m)
	case 1:
		op{c: oMSet, k: a, k2: b, v: "x", v2: "y"}.do(c, m)
	case 2:
		op{c: oSet, k: a, v: "x"}.do(c, m)
	case 3:
		op{c: oIncr, k: a}.do(c, m)
	}
	op{c: oExists, k: a, k2: b}.do(c, m)
	op{c: oMGet, k: b, k2: a}.do(c, m)
	agree(c, m, "a command changed another key", a, b)
	m.advance(2 * sec)
	agree(c, m, "a command changed the lifetime of another key", a, b)
}

// C08_census: Exists, Type, MGet, Del and Flush against keys in any state.
func C08_census() {
	c, m := start()
	prepare(c, m, "k", nd.Choice("state", states))
	prepare(c, m, "l", nd.Choice("state2", states))
	// a read of an expired key may come before or not
	switch nd.Choice("cmd", 6) {
	case 0:
		op{c: oExists, k: "k", k2: "l"}.do(c, m)
		op{c: oExists, k: "m", k2: "k"}.do(c, m)
		nd.Assert(c.Exists() == 0, "Exists of nothing is not 0")
	case 1:
		op{c: oType, k: "k"}.do(c, m)
		op{c: oType, k: "l"}.do(c, m)
		op{c: oType, k: "m"}.do(c, m)
	case 2:
		op{c: oMGet, k: "k", k2: "l"}.do(c, m)
		op{c: oMGet, k: "m", k2: "k"}.do(c, m)
		nd.Assert(len(c.MGet()) == 0, "MGet of nothing")
	case 3:
		op{c: oDel, k: "k"}.do(c, m)
		op{c: oDel, k: "k"}.do(c, m)
	case 4:
		op{c: oFlush}.do(c, m)
		op{c: oExists, k: "k", k2: "l"}.do(c, m)
	case 5:
	}
	agree(c, m, "a key is not what it should be", "k", "l")
}

// C08_gone: a removed key is absent for every command and has no trace of its past.
func C08_gone() {
	c, m := start()
	switch nd.Choice("state", 4) {
	case 0:
		op{c: oPSetEX, k: "k", v: "1", n: 10}.do(c, m)
	case 1:
		op{c: oHSet, k: "k", f: "f", v: "1"}.do(c, m)
	case 2:
		op{c: oIncr, k: "k"}.do(c, m)
	case 3:
		op{c: oSet, k: "k", v: "w"}.do(c, m)
	}
	op{c: []int{oDel, oFlush}[nd.Choice("how", 2)], k: "k"}.do(c, m)
	anyOp("then", all()).do(c, m)
	agree(c, m, "a removed key is not absent", "k", "l")
	m.advance(20 * ms)
	agree(c, m, "a removed key left its lifetime", "k", "l")
}

// C09_wrong: every command on a key of the other kind.
func C09_wrong() {
	c, m := start()
	if nd.Bool("string") {
		switch nd.Choice("kind", 4) {
		case 0:
			op{c: oSet, k: "k", v: value("v", 6)}.do(c, m)
		case 1:
			op{c: oSetEX, k: "k", v: "w", n: 1}.do(c, m)
		case 2:
			op{c: oIncrBy, k: "k", n: nd.Int64("n")}.do(c, m)
		case 3:
			op{c: oIncrByFloat, k: "k", x: 2.5}.do(c, m)
		}
		o := anyOp("cmd", hashOps)
		o.one = nd.Bool("one")
		o.f, o.f2 = []string{"f", ""}[nd.Choice("field", 2)], "g"
		o.n = nd.Int64("by")
		o.x = 1.5
		nd.Assert(o.run(c).err != 0, names[o.c]+" on a string does not fail")
	} else {
		switch nd.Choice("kind", 3) {
		case 0:
			op{c: oHSet, k: "k", f: "f", v: value("v", 6)}.do(c, m)
		case 1:
			op{c: oHMSet, k: "k", f: "f", f2: "g", v: "1", v2: "2"}.do(c, m)
		case 2: // over an expired string
			op{c: oPSetEX, k: "k", v: "w", n: 1}.do(c, m)
			m.advance(2 * ms)
			op{c: oHSet, k: "k", f: "f", v: "1"}.do(c, m)
		}
		if nd.Choice("mget", 4) == 0 {
			r := op{c: oMGet, k: "k", k2: "other"}.run(c)
			nd.Assert(len(r.list) == 2 && r.errs[0] != 0, "MGet of a hash has no error in its position")
		} else {
			o := anyOp("cmd", []int{oGet, oGetSet, oStrLen, oAppend, oSetRange, oGetRange, oIncr, oIncrBy, oIncrByFloat, oDecr, oDecrBy})
			o.n = nd.Int64("by")
			o.v = []string{"", "9"}[nd.Choice("arg", 2)]
			nd.Assert(o.run(c).err != 0, names[o.c]+" on a hash does not fail")
		}
	}
	agree(c, m, "a command of the wrong kind changed the key", "k")
	m.advance([]int64{500 * ms, 1500 * ms, math.MaxInt64 >> 1}[nd.Choice("later", 3)])
	agree(c, m, "a command of the wrong kind changed the lifetime", "k")
}

var _ = cache.OK
