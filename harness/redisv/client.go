package redisv

import (
	"errors"
	"math"
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/zzverif/nd"
	"github.com/liujiangwei/xxcache/zzverif/sup"
)

// what a method answers
const (
	status = iota
	number
	bulk
	float
	array
)

// call is one method of the client with its arguments, and the request it makes.
type call struct {
	name  string
	kind  int
	args  []string
	pairs bool // args are pairs in any order
	run   func(r *redis.Redis) (res interface{}, err error)
}

const methods = 19

func method(i int, key, val string, n, m int, u uint64, x float64) call {
	num := strconv.Itoa
	switch i {
	case 0:
		return call{"SET", status, []string{key, val}, false, func(r *redis.Redis) (interface{}, error) { return r.Set(key, val) }}
	case 1:
		return call{"SELECT", status, []string{num(n)}, false, func(r *redis.Redis) (interface{}, error) { return r.Select(n) }}
	case 2:
		return call{"SETNX", number, []string{key, val}, false, func(r *redis.Redis) (interface{}, error) { return r.SetNX(key, val) }}
	case 3:
		return call{"SETEX", status, []string{key, strconv.FormatUint(u, 10), val}, false, func(r *redis.Redis) (interface{}, error) { return r.SetEX(key, val, u) }}
	case 4:
		return call{"PSETEX", status, []string{key, strconv.FormatUint(u, 10), val}, false, func(r *redis.Redis) (interface{}, error) { return r.PSetEX(key, val, u) }}
	case 5:
		return call{"GET", bulk, []string{key}, false, func(r *redis.Redis) (interface{}, error) { return r.Get(key) }}
	case 6:
		return call{"GETSET", bulk, []string{key, val}, false, func(r *redis.Redis) (interface{}, error) { return r.GetSet(key, val) }}
	case 7:
		return call{"STRLEN", number, []string{key}, false, func(r *redis.Redis) (interface{}, error) { return r.StrLen(key) }}
	case 8:
		return call{"APPEND", number, []string{key, val}, false, func(r *redis.Redis) (interface{}, error) { return r.Append(key, val) }}
	case 9:
		return call{"SETRANGE", number, []string{key, num(n), val}, false, func(r *redis.Redis) (interface{}, error) { return r.SetRange(key, n, val) }}
	case 10:
		return call{"GETRANGE", bulk, []string{key, num(n), num(m)}, false, func(r *redis.Redis) (interface{}, error) { return r.GetRange(key, n, m) }}
	case 11:
		return call{"INCR", number, []string{key}, false, func(r *redis.Redis) (interface{}, error) { return r.Incr(key) }}
	case 12:
		return call{"INCRBY", number, []string{key, num(n)}, false, func(r *redis.Redis) (interface{}, error) { return r.IncrBy(key, n) }}
	case 13:
		return call{"INCRBYFLOAT", float, []string{key, ""}, false, func(r *redis.Redis) (interface{}, error) { return r.IncrByFloat(key, x) }}
	case 14:
		return call{"DECR", number, []string{key}, false, func(r *redis.Redis) (interface{}, error) { return r.Decr(key) }}
	case 15:
		return call{"DECRBY", number, []string{key, num(n)}, false, func(r *redis.Redis) (interface{}, error) { return r.DecrBy(key, n) }}
	case 16:
		return call{"MSET", status, []string{key, val, key + "2", val + "x"}, true, func(r *redis.Redis) (interface{}, error) {
			return r.MSet(map[string]string{key: val, key + "2": val + "x"})
		}}
	case 17:
		return call{"MSETNX", number, []string{key, val, key + "2", val + "x"}, true, func(r *redis.Redis) (interface{}, error) {
			return r.MSetNX(map[string]string{key: val, key + "2": val + "x"})
		}}
	}
	return call{"MGET", array, []string{key, val, key}, false, func(r *redis.Redis) (interface{}, error) { return r.MGet(key, val, key) }}
}

// client is connected to a server that answers reply to every request.
func client(reply string) (*redis.Redis, *sup.Link) {
	l := sup.NewLink("")
	nd.SetDial(sup.Dial(func(i int) (*sup.Link, error) { return l, nil }))
	at := 0
	l.Serve = func(l *sup.Link, data string) {
		if _, n := sup.Request(l.Out[at:]); n > 0 {
			at += n
			l.In += reply
		}
	}
	return redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 1}), l
}

// asked checks that exactly the request of the call was sent.
func asked(c call, out string, x float64) {
	args, n := sup.Request(out)
	nd.Assert(n > 0 && n == len(out), c.name+" does not send one request")
	nd.Assert(sup.Is(args, c.name), c.name+" sends another command")
	nd.Assert(len(args) == 1+len(c.args), c.name+" sends another number of arguments")
	if c.kind == float {
		y, err := strconv.ParseFloat(args[2], 64)
		nd.Assert(args[1] == c.args[0] && err == nil && math.Float64bits(x) == math.Float64bits(y), c.name+" sends other arguments")
		return
	}
	ok := true
	for i, a := range c.args {
		ok = nd.And(ok, args[i+1] == a)
	}
	if c.pairs {
		other := true
		for i, a := range c.args {
			other = nd.And(other, args[1+(i+2)%4] == a)
		}
		ok = nd.Or(ok, other)
	}
	nd.Assert(ok, c.name+" sends other arguments")
}

// C18_texts: every method with any short texts.
func C18_texts() {
	nd.MapOrder(2)
	key, val := sup.Name("key", 3), sup.Name("val", 3)
	c := method(nd.Choice("method", methods), key, val, 7, -1, 60, 0.5)
	r, l := client("-ERR\r\n")
	c.run(r)
	asked(c, l.Out, 0.5)
}

// C18_numbers: the methods with numbers, any number.
func C18_numbers() {
	n, m, u := nd.Int("n"), 3, nd.Uint64("u")
	i := []int{1, 3, 4, 9, 10, 12, 15}[nd.Choice("method", 7)]
	if i == 10 && nd.Bool("other") {
		n, m = m, n
	}
	c := method(i, "k", "v", n, m, u, 0)
	r, l := client("-ERR\r\n")
	c.run(r)
	asked(c, l.Out, 0)
}

// C18_large: numbers around the bounds of narrower types and of the integers a
// float holds.
func C18_large() {
	near := []int{1 << 31, 1 << 32, 1 << 53, -1 << 31, -1 << 53, 1<<63 - 128, -1<<63 + 128}[nd.Choice("near", 7)]
	n, m := near+int(int8(nd.Byte("off"))), 3
	i := []int{3, 4, 9, 10, 12, 15}[nd.Choice("method", 6)]
	if i == 10 && nd.Bool("other") {
		n, m = m, n
	}
	c := method(i, "k", "v", n, m, uint64(n), 0)
	r, l := client("-ERR\r\n")
	c.run(r)
	asked(c, l.Out, 0)
}

// anyFloat is any finite number, or one of those whose text is special.
func anyFloat() float64 {
	k := nd.Choice("float", 12)
	if k > 0 {
		return []float64{0, math.Copysign(0, -1), 1e21, -1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 16777217, 9007199254740993, 1.0 / 3, -123456.75}[k-1]
	}
	x := nd.Float64("x")
	nd.Assume(x-x == 0)
	return x
}

// C18_floats: any finite increment.
func C18_floats() {
	x := anyFloat()
	c := method(13, "k", "v", 0, 0, 0, x)
	r, l := client("-ERR\r\n")
	c.run(r)
	asked(c, l.Out, x)
}

// C18_long: arguments longer than the buffers, also with line ends in them.
func C18_long() {
	nd.Steps(20000000)
	val := text([]int{4070, 4096, 9000}[nd.Choice("size", 3)])
	if nd.Bool("long key") {
		val = "k" + val + "\r\n$3\r\nabc\r\n"
		c := method([]int{0, 5, 18, 9}[nd.Choice("method", 4)], val, "v", 1, 2, 3, 0)
		r, l := client("-ERR\r\n")
		c.run(r)
		asked(c, l.Out, 0)
		return
	}
	c := method([]int{0, 2, 3, 8, 6}[nd.Choice("method", 5)], "k", val, 1, 2, 3, 0)
	r, l := client("-ERR\r\n")
	c.run(r)
	asked(c, l.Out, 0)
}

// C18_sets: no, one and more keys.
func C18_sets() {
	nd.MapOrder(3)
	n := []int{0, 1, 2, 3, 9, 40, 300, 1030}[nd.Choice("n", 8)]
	keys := []string{"a", "b" + nd.Str("x", 1), ""}
	for i := 3; i < n; i++ {
		keys = append(keys, "name"+strconv.Itoa(i))
	}
	keys = keys[:n]
	if n > 3 {
		nd.MapOrder(0)
		nd.Steps(20000000)
	}
	r, l := client("-ERR\r\n")
	switch k := nd.Choice("method", 3); k {
	case 0:
		nd.Assume(n > 0)
		r.MGet(keys...)
		asked(call{name: "MGET", args: keys}, l.Out, 0)
	default:
		nd.Assume(n > 0)
		kv := map[string]string{}
		for i, s := range keys {
			kv[s] = strconv.Itoa(i)
		}
		name := "MSET"
		if k == 1 {
			r.MSet(kv)
		} else {
			name = "MSETNX"
			r.MSetNX(kv)
		}
		args, size := sup.Request(l.Out)
		nd.Assert(size > 0 && size == len(l.Out) && sup.Is(args, name) && len(args) == 1+2*n, name+" sends another request")
		seen := map[string]bool{}
		for i := 1; i < len(args); i += 2 {
			v, ok := kv[args[i]]
			nd.Assert(ok && !seen[args[i]] && v == args[i+1], name+" sends other pairs")
			seen[args[i]] = true
		}
	}
}

// C18_twice: requests in a row keep to one request each.
func C18_twice() {
	val := sup.Name("val", 1)
	a := method(nd.Choice("first", methods-3), "k", val, 7, -1, 60, 0.5)
	b := method(nd.Choice("second", methods-3), "kk", val, 8, -2, 61, 0.25)
	r, l := client(":1\r\n")
	a.run(r)
	k := len(l.Out)
	asked(a, l.Out[:k], 0.5)
	b.run(r)
	asked(b, l.Out[k:], 0.25)
}

func carries(err error, text string) bool { return err != nil && strings.Contains(err.Error(), text) }

// answer checks the result of a method with the given kind of answer.
func answer(c call, res interface{}, err error, reply int, s string, n int) {
	w := c.name + " on "
	switch reply {
	case 0:
		nd.Assert(err != nil, w+"an error reply gives no error")
		nd.Assert(carries(err, s), w+"an error reply gives another error")
	case 1:
		nd.Assert(err != nil, w+"a nil reply gives no error")
	case 2: // a status
		switch c.kind {
		case status:
			if s == "OK" {
				nd.Assert(err == nil && res.(string) == "OK", w+"OK is not OK")
			} else {
				nd.Assert(err != nil, w+"a status other than OK gives no error")
			}
		case bulk:
			nd.Assert(err != nil || res.(string) == s, w+"a status gives another text")
		case float:
			y, e := strconv.ParseFloat(s, 64)
			nd.Assert(err != nil || e == nil && res.(float64) == y, w+"a status gives a number")
		default:
			nd.Assert(err != nil, w+"a status gives no error")
		}
	case 3: // a number
		switch c.kind {
		case number:
			nd.Assert(err == nil, w+"a number gives an error")
			nd.Assert(res.(int) == n, w+"a number gives another number")
		case float:
			nd.Assert(err != nil || res.(float64) == float64(n), w+"a number gives another number")
		default:
			nd.Assert(err != nil, w+"a number gives no error")
		}
	case 4: // a text
		switch c.kind {
		case bulk:
			nd.Assert(err == nil && res.(string) == s, w+"a text gives another one")
		case float:
			y, e := strconv.ParseFloat(s, 64)
			if e != nil {
				nd.Assert(err != nil, w+"a text that is no number gives no error")
			} else {
				nd.Assert(err == nil && math.Float64bits(res.(float64)) == math.Float64bits(y), w+"a number as text gives another number")
			}
		default:
			nd.Assert(err != nil, w+"a text gives no error")
		}
	case 5: // an array
		if c.kind != array {
			nd.Assert(err != nil, w+"an array gives no error")
		}
	}
}

// C19_kinds: every method against every kind of reply.
func C19_kinds() {
	c := method(nd.Choice("method", methods), "k", "v", 1, 2, 3, 0.5)
	reply := nd.Choice("reply", 6)
	s, n, e := "", 0, ""
	switch reply {
	case 0:
		s = line("error", 2)
		e = "-" + s + "\r\n"
	case 1:
		e = []string{"$-1\r\n", "*-1\r\n"}[nd.Choice("nil", 2)]
	case 2:
		s = []string{"OK", "", "QUEUED", "1", "0", "ok"}[nd.Choice("status", 6)]
		e = "+" + s + "\r\n"
	case 3:
		n = nd.Int("n")
		e = ":" + strconv.Itoa(n) + "\r\n"
	case 4:
		s = sup.Name("text", 2)
		if c.kind == float {
			s = []string{"0.5", "", "-1.25e3", "x", "10", "1.5x", "OK", "-0", "3.0000000000000001"}[nd.Choice("number", 9)]
		}
		e = sup.Bulk(s)
	case 5:
		e = []string{"*0\r\n", "*1\r\n:1\r\n", "*1\r\n$1\r\n5\r\n", "*2\r\n+OK\r\n$-1\r\n"}[nd.Choice("array", 4)]
	}
	r, l := client(e)
	l.Byte = nd.Bool("bytes")
	res, err := c.run(r)
	answer(c, res, err, reply, s, n)
}

// C19_mget: the elements of a reply, in order.
func C19_mget() {
	n := nd.Choice("n", 4)
	e := "*" + strconv.Itoa(n) + "\r\n"
	var kinds []int
	var texts []string
	for i := 0; i < n; i++ {
		k := nd.Choice("kind", 3)
		s := ""
		switch k {
		case 0:
			s = sup.Name("text", 2)
			e += sup.Bulk(s)
		case 1:
			e += "$-1\r\n"
		case 2:
			s = line("error", 1)
			e += "-" + s + "\r\n"
		}
		kinds = append(kinds, k)
		texts = append(texts, s)
	}
	r, _ := client(e)
	res, err := r.MGet([]string{"a", "b", "c"}[:n]...)
	nd.Assert(err == nil && len(res) == n, "MGET gives another number of elements")
	for i := range kinds {
		switch kinds[i] {
		case 0:
			s, ok := res[i].(string)
			nd.Assert(ok && s == texts[i], "MGET gives another element")
		case 1:
			_, ok := res[i].(error)
			nd.Assert(ok, "MGET gives no error for an absent element")
		case 2:
			err, ok := res[i].(error)
			nd.Assert(ok && carries(err, texts[i]), "MGET gives no error for a failed element")
		}
	}
}

// C19_many: the elements of a long reply.
func C19_many() {
	nd.Steps(20000000)
	nd.AllocLimit(1 << 30)
	n := []int{9, 40, 130, 300, 2100}[nd.Choice("n", 5)]
	e := "*" + strconv.Itoa(n) + "\r\n"
	at := []int{0, n / 2, n - 1}[nd.Choice("at", 3)]
	kind, s := nd.Choice("kind", 3), nd.Str("text", 1)
	var keys []string
	for i := 0; i < n; i++ {
		switch {
		case i != at:
			e += sup.Bulk("v" + strconv.Itoa(i))
		case kind == 0:
			e += sup.Bulk(s)
		case kind == 1:
			e += "$-1\r\n"
		default:
			e += "-ERR\r\n"
		}
		keys = append(keys, "k"+strconv.Itoa(i))
	}
	r, _ := client(e)
	res, err := r.MGet(keys...)
	nd.Assert(err == nil && len(res) == n, "MGET gives another number of elements")
	for i := range res {
		x, text := res[i].(string)
		_, fail := res[i].(error)
		switch {
		case i != at:
			nd.Assert(text && x == "v"+strconv.Itoa(i), "MGET gives another element")
		case kind == 0:
			nd.Assert(text && x == s, "MGET gives another element")
		default:
			nd.Assert(fail, "MGET gives no error for an element")
		}
	}
}

// C19_floats: any finite number.
func C19_floats() {
	x := anyFloat()
	r, _ := client(sup.Bulk(strconv.FormatFloat(x, 'f', -1, 64)))
	y, err := r.IncrByFloat("k", 1)
	nd.Assert(err == nil && math.Float64bits(x) == math.Float64bits(y), "INCRBYFLOAT gives another number")
}

// C19_twice: each command gets its own reply.
func C19_twice() {
	x, y := sup.Name("x", 1), sup.Name("y", 1)
	l := sup.NewLink("")
	nd.SetDial(sup.Dial(func(i int) (*sup.Link, error) { return l, nil }))
	i := 0
	replies := []string{sup.Bulk(x), "-ERR a\r\n", "$-1\r\n", ":5\r\n"}
	k := nd.Choice("first", 4)
	l.Serve = func(l *sup.Link, data string) {
		if i == 0 {
			l.In += replies[k]
		} else {
			l.In += sup.Bulk(y)
		}
		i++
	}
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 1})
	a, err := r.Get("a")
	nd.Assert((err == nil) == (k == 0), "GET mixes up errors")
	nd.Assert(k != 0 || a == x, "GET gives another text")
	b, err := r.Get("b")
	nd.Assert(err == nil && b == y, "the second GET gives another text")
}

var errRefused = errors.New("connection refused")
