package cachev

import (
	"math"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/zzverif/nd"
)

// fits1 reports whether the answers and the final contents are those of the
// commands in the given order.
func fits1(c *cache.Cache, m0 *model, ops []op, got []res, order []int, keys []string) bool {
	m := m0.clone()
	for _, i := range order {
		if !same(got[i], ops[i].ref(m)) {
			return false
		}
	}
	for _, k := range keys {
		if !matches(c, m, k) {
			return false
		}
	}
	return true
}

// together issues the commands of two clients at the same time. a[i] of the second
// client come after each other, as do those of the first.
func together(c *cache.Cache, m *model, a, b []op, keys ...string) {
	ops := append(append([]op(nil), a...), b...)
	got := make([]res, len(ops))
	done := make(chan bool, 2)
	nd.Explore(2 + nd.Tier())
	go func() {
		for i := range a {
			got[i] = a[i].run(c)
		}
		done <- true
	}()
	go func() {
		for i := range b {
			got[len(a)+i] = b[i].run(c)
		}
		done <- true
	}()
	<-done
	<-done
	nd.Explore(-1)
	orders := [][]int{{0, 1}, {1, 0}}
	if len(a) == 2 && len(b) == 1 {
		orders = [][]int{{0, 1, 2}, {0, 2, 1}, {2, 0, 1}}
	} else if len(a) == 2 && len(b) == 2 {
		orders = [][]int{{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 2, 3, 1}, {2, 0, 1, 3}, {2, 0, 3, 1}, {2, 3, 0, 1}}
	}
	ok := false
	for _, o := range orders {
		if fits1(c, m, ops, got, o, keys) {
			ok = true
			break
		}
	}
	t := ""
	for i, o := range ops {
		if i > 0 {
			t += ", "
		}
		t += names[o.c]
	}
	nd.Assert(ok, "clients issuing "+t+" together got an outcome of neither order")
}

// strOp is a string or key command with fixed arguments; w tells clients apart.
func strOp(name, w string, ops []int) op {
	o := op{c: ops[nd.Choice(name, len(ops))], k: "k", k2: "l", v: w, v2: w + w, n: 10, i: 1, j: -1, x: 0.5}
	if w == "2" {
		o.n, o.x, o.i = 300, 0.25, 2
	}
	return o
}

// step gives a counter command any step but the one that cannot be negated, unless
// the other command edits the digits.
func step(o *op, name string, other int) {
	if (o.c == oIncrBy || o.c == oDecrBy) && other != oAppend && other != oSetRange && other != oIncrByFloat {
		o.n = nd.Int64(name)
		nd.Assume(o.n != math.MinInt64)
	}
}

// C12_pairs: every pair of string and key commands on the same keys, in every state
// of the first.
func C12_pairs() {
	c, m := start()
	ops := []int{oSet, oSetNX, oSetEX, oPSetEX, oGet, oGetSet, oStrLen, oAppend, oSetRange, oGetRange, oIncr, oIncrBy, oIncrByFloat, oDecr, oDecrBy, oMSet, oMSetNX, oMGet, oDel, oExists, oType, oFlush}
	a := strOp("a", "1", ops)
	b := strOp("b", "2", ops)
	step(&a, "an", b.c)
	step(&b, "bn", a.c)
	switch nd.Choice("state", 4) {
	case 0:
	case 1:
		op{c: oSet, k: "k", v: "40"}.do(c, m)
	case 2:
		op{c: oPSetEX, k: "k", v: "7", n: 10}.do(c, m)
		m.advance(20 * ms)
	case 3:
		op{c: oSet, k: "l", v: "x"}.do(c, m)
	}
	together(c, m, []op{a}, []op{b}, "k", "l")
}

// C12_multi: the commands on several keys against each other, the keys named in
// either order, in every map order.
func C12_multi() {
	c, m := start()
	nd.MapOrder(2)
	ops := []int{oMSet, oMSetNX, oMGet, oExists}
	a := strOp("a", "1", ops)
	b := strOp("b", "2", append(ops, oGet, oSet, oSetNX, oDel, oIncr))
	if nd.Bool("swap") {
		b.k, b.k2 = b.k2, b.k
	}
	switch nd.Choice("state", 3) {
	case 0:
	case 1:
		op{c: oSet, k: "k", v: "40"}.do(c, m)
	case 2:
		op{c: oPSetEX, k: "l", v: "7", n: 10}.do(c, m)
		m.advance(20 * ms)
	}
	together(c, m, []op{a}, []op{b}, "k", "l")
}

// C12_three: one client issues two commands while another issues one.
func C12_three() {
	c, m := start()
	ops := []int{oSetNX, oAppend, oIncr, oIncrByFloat, oDel, oGetSet, oMSetNX, oPSetEX}
	a := strOp("a", "1", ops)
	a2 := strOp("a2", "3", []int{oGet, oIncrBy, oAppend, oSetNX, oSet})
	b := strOp("b", "2", ops)
	if nd.Bool("set") {
		op{c: oSet, k: "k", v: "40"}.do(c, m)
	}
	together(c, m, []op{a, a2}, []op{b}, "k", "l")
}

// C12_lapse: commands meeting a key whose lifetime is over.
func C12_lapse() {
	c, m := start()
	op{c: oPSetEX, k: "k", v: "7", n: 10}.do(c, m)
	m.advance(20 * ms)
	reads := []int{oGet, oStrLen, oGetRange, oMGet, oExists, oType}
	ops := append([]int{oSet, oSetNX, oIncr, oAppend, oMSetNX, oSetEX, oDel, oHSet}, reads...)
	a := strOp("a", "1", reads)
	a2 := strOp("a2", "3", []int{oGet, oExists})
	b := strOp("b", "2", ops)
	b.f = "f"
	together(c, m, []op{a, a2}, []op{b}, "k", "l")
}

// C12_sweep: commands while the periodic cleaning runs.
func C12_sweep() {
	sweepDuring([]int{oSet, oSetNX, oIncr, oGet, oGetSet, oMSet, oMSetNX, oSetEX, oAppend, oDel, oExists}, []int{oGet, oExists, oIncr})
}

// C07_busy: the sweep while a client writes the keys it is about to remove.
func C07_busy() {
	sweepDuring([]int{oSet, oSetNX, oGetSet, oSetEX, oAppend, oHSet, oHIncrBy, oDel, oMSetNX}, []int{oGet, oExists, oHGet})
}

func sweepDuring(first, second []int) {
	c, m := start()
	c.Cron()
	nd.Quiesce()
	switch nd.Choice("state", 3) {
	case 0:
		op{c: oPSetEX, k: "k", v: "7", n: 10}.do(c, m)
	case 1:
		op{c: oPSetEX, k: "k", v: "7", n: 50}.do(c, m)
	case 2:
		op{c: oPSetEX, k: "l", v: "7", n: 10}.do(c, m)
	}
	m.advance(20 * ms)
	a := strOp("a", "1", first)
	a2 := strOp("a2", "3", second)
	a.f, a2.f = "f", "f"
	want := m.clone()
	w := []res{a.ref(want), a2.ref(want)}
	got := make([]res, 2)
	done := make(chan bool, 1)
	nd.Tick()
	nd.Explore(2 + nd.Tier())
	go func() {
		got[0] = a.run(c)
		got[1] = a2.run(c)
		done <- true
	}()
	<-done
	nd.Explore(-1)
	nd.Quiesce()
	nd.Assert(same(got[0], w[0]) && same(got[1], w[1]), names[a.c]+" during a sweep answers wrongly")
	agree(c, want, "a sweep during "+names[a.c]+" left a wrong value", "k", "l")
}

func hashOp(name, w string, ops []int) op {
	o := op{c: ops[nd.Choice(name, len(ops))], k: "k", f: "f", f2: "g", v: w, v2: w + w, n: 10, x: 0.5}
	if w == "2" {
		o.n, o.x = 300, 0.25
	}
	return o
}

// C13_pairs: every pair of hash commands on the same key.
func C13_pairs() {
	c, m := start()
	a, b := hashOp("a", "1", hashOps), hashOp("b", "2", hashOps)
	if nd.Bool("other") {
		b.f, b.f2 = b.f2, b.f
	}
	switch nd.Choice("state", 4) {
	case 0:
	case 1:
		op{c: oHSet, k: "k", f: "f", v: "40"}.do(c, m)
	case 2:
		op{c: oHMSet, k: "k", f: "g", v: "40", f2: "h", v2: "x"}.do(c, m)
	case 3:
		op{c: oPSetEX, k: "k", v: "7", n: 10}.do(c, m)
		m.advance(20 * ms)
	}
	together(c, m, []op{a}, []op{b}, "k")
}

// C13_mixed: a hash command against a key or string command.
func C13_mixed() {
	c, m := start()
	a := hashOp("a", "1", []int{oHSet, oHSetNX, oHMSet, oHDel, oHIncrBy, oHIncrByFloat, oHGetAll, oHLen})
	b := strOp("b", "2", []int{oDel, oSet, oSetNX, oExists, oType, oGet, oIncr, oMSet, oGetSet, oFlush})
	switch nd.Choice("state", 3) {
	case 0:
	case 1:
		op{c: oHSet, k: "k", f: "f", v: "40"}.do(c, m)
	case 2:
		op{c: oPSetEX, k: "k", v: "7", n: 10}.do(c, m)
		m.advance(20 * ms)
	}
	together(c, m, []op{a}, []op{b}, "k", "l")
}

// C13_three: one client issues two hash commands while another issues one.
func C13_three() {
	c, m := start()
	ops := []int{oHSet, oHSetNX, oHMSet, oHDel, oHIncrBy, oHIncrByFloat}
	a := hashOp("a", "1", ops)
	a2 := hashOp("a2", "3", []int{oHLen, oHGetAll, oHIncrBy, oHDel})
	b := hashOp("b", "2", ops)
	if nd.Bool("set") {
		op{c: oHSet, k: "k", f: "f", v: "40"}.do(c, m)
	}
	together(c, m, []op{a, a2}, []op{b}, "k")
}

// C13_values: hash commands on any fields with one-byte names and any numbers.
func C13_values() {
	c, m := start()
	a := hashOp("a", "1", []int{oHSetNX, oHDel, oHIncrBy, oHMSet})
	b := hashOp("b", "2", []int{oHSet, oHIncrBy, oHGet, oHDel})
	b.f = nd.Str("bf", 1)
	nd.Assume(b.f != "g")
	if nd.Bool("set") {
		op{c: oHSet, k: "k", f: "f", v: "40"}.do(c, m)
	}
	for _, o := range []*op{&a, &b} {
		if o.c == oHIncrBy {
			o.n = nd.Int64("by")
		} else {
			o.v = "v" + nd.Str("text", 1)
		}
	}
	together(c, m, []op{a}, []op{b}, "k")
}

// C13_sums: increments of any size on a counter of any value.
func C13_sums() {
	c, m := start()
	op{c: oHIncrBy, k: "k", f: "f", n: nd.Int64("start")}.do(c, m)
	together(c, m, []op{{c: oHIncrBy, k: "k", f: "f", n: nd.Int64("a")}}, []op{{c: oHIncrBy, k: "k", f: "f", n: nd.Int64("b")}}, "k")
}
