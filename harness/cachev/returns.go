package cachev

import (
	"math"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/zzverif/nd"
)

// usable issues a few commands that must all complete.
func usable(c *cache.Cache) {
	c.Set("u", "1")
	s, err := c.Get("u")
	nd.Assert(err == nil && s == "1", "the cache is not usable any more")
	n, err := c.HSet("uh", "f", "v")
	nd.Assert(err == nil && n == 1, "the cache is not usable any more")
	c.Get("k")
	c.HGetAll("k")
	c.Type("k")
	c.Exists("k", "l")
	c.MGet("k", "l")
	c.Del("k")
	nd.Assert(c.Exists("k") == 0, "a deleted key exists")
}

// C14_any: every command with any numbers and short texts on a key in any state.
func C14_any() {
	defer guard()
	nd.Steps(2000000)
	nd.AllocLimit(64 << 20)
	c, m := start()
	prepare(c, m, "k", []int{0, 1, 2, 20, 4, 5, 6, 7, 8, 9, 10, 11, 12}[nd.Choice("state", 13)])
	o := anyOp("cmd", append(all(), oFlush))
	o.v = []string{"", "5", "x"}[nd.Choice("v", 3)]
	o.f = []string{"f", "", "n"}[nd.Choice("f", 3)]
	o.n = nd.Int64("n")
	o.i, o.j = 1, 2
	switch o.c {
	case oSetRange:
		// up to half a gigabyte is the documented limit and needs that much room
		o.i = nd.Int("i")
		nd.Assume(o.i < 12 || o.i >= 1<<30)
	case oGetRange:
		o.i, o.j = nd.Int("i"), nd.Int("j")
	case oIncrByFloat, oHIncrByFloat:
		o.x = nd.Float64("x")
	case oHIncrBy:
		o.n = []int64{1, -1, math.MaxInt64, math.MinInt64}[nd.Choice("by", 4)]
	}
	o.run(c)
	usable(c)
}

// C14_floats: not-a-number and the infinities as increments, then other commands.
func C14_floats() {
	defer guard()
	c, _ := start()
	x := nd.Float64("x")
	switch nd.Choice("cmd", 4) {
	case 0:
		c.IncrByFloat("k", x)
	case 1:
		c.Set("k", []string{"1", "1.5", "inf", "nan", "-Inf", "1e308"}[nd.Choice("v", 6)])
		c.IncrByFloat("k", x)
	case 2:
		c.HIncrByFloat("k", "f", x)
	case 3:
		c.HSet("k", "f", []string{"1", "1.5", "inf", "nan", "-Inf", "1e308"}[nd.Choice("v", 6)])
		c.HIncrByFloat("k", "f", x)
	}
	c.Get("k")
	c.StrLen("k")
	c.HGet("k", "f")
	c.Incr("k")
	c.HIncrBy("k", "f", 1)
	usable(c)
}

// C14_empty: nil and empty arguments.
func C14_empty() {
	defer guard()
	c, m := start()
	prepare(c, m, "k", nd.Choice("state", states))
	switch nd.Choice("cmd", 7) {
	case 0:
		c.MSet(nil)
	case 1:
		c.MSetNX(nil)
	case 2:
		c.MGet()
	case 3:
		// whether this makes an empty hash is left open
		c.HMSet("k", nil)
		usable(c)
		return
	case 4:
		c.HMGet("k")
	case 5:
		c.HDel("k")
	case 6:
		c.Exists()
	}
	agree(c, m, "a command without arguments changed something", "k")
	usable(c)
}

// C14_range: positions of any size on values of several lengths, in bounded time.
func C14_range() {
	defer guard()
	nd.Steps(200000)
	c, m := start()
	switch nd.Choice("state", 4) {
	case 0:
	case 1:
		op{c: oSet, k: "k", v: "abc"}.do(c, m)
	case 2:
		op{c: oSet, k: "k", v: ""}.do(c, m)
	case 3:
		op{c: oHSet, k: "k", f: "f", v: "x"}.do(c, m)
	}
	if nd.Bool("set") {
		i := nd.Int("i")
		nd.Assume(i < 1<<8 || i > 1<<29)
		c.SetRange("k", i, []string{"", "x", "yz"}[nd.Choice("v", 3)])
	} else {
		c.GetRange("k", nd.Int("i"), nd.Int("j"))
	}
	usable(c)
}

// C14_lifetimes: any lifetime, also zero and negative ones.
func C14_lifetimes() {
	defer guard()
	c, m := start()
	prepare(c, m, "k", nd.Choice("state", states))
	if nd.Bool("ms") {
		c.PSetEX("k", "v", nd.Int64("n"))
	} else {
		c.SetEX("k", "v", nd.Int64("n"))
	}
	c.Get("k")
	c.Incr("k")
	c.HSet("k", "f", "v")
	usable(c)
}

// C14_readers: every command while another client writes.
func C14_readers() {
	c, m := start()
	prepare(c, m, "k", []int{1, 5}[nd.Choice("state", 2)])
	a := anyOp("a", all())
	b := anyOp("b", []int{oSet, oHSet})
	done := make(chan bool, 2)
	nd.Explore(2)
	go func() { a.run(c); done <- true }()
	go func() { b.run(c); done <- true }()
	<-done
	<-done
	nd.Explore(-1)
	usable(c)
}

// C14_clients: two clients never block each other for good.
func C14_clients() {
	c, m := start()
	prepare(c, m, "k", []int{0, 1, 2, 5}[nd.Choice("state", 4)])
	a := anyOp("a", []int{oGet, oSet, oDel, oExists, oType, oMGet, oMSet, oHGetAll, oHSet, oHLen, oHVals, oHMGet, oIncrByFloat, oGetRange, oGetSet, oAppend})
	b := anyOp("b", []int{oSet, oFlush, oHSet, oMSetNX, oGetSet, oDel})
	done := make(chan bool, 2)
	nd.Explore(2)
	go func() { a.run(c); done <- true }()
	go func() { b.run(c); done <- true }()
	<-done
	<-done
	nd.Explore(-1)
	usable(c)
}
