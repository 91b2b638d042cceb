package replv

import (
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/zzverif/nd"
)

// filled is a cache with a string under a and a hash under h.
func filled() *cache.Cache {
	c := cache.New()
	_, err := c.Set("a", "text")
	nd.Assume(err == nil)
	_, err = c.HMSet("h", map[string]string{"f": "1", "g": "two"})
	nd.Assume(err == nil)
	return c
}

// holds checks the string under a key.
func holds(c *cache.Cache, k, v string) {
	s, err := c.Get(k)
	nd.Assert(err == nil && s == v, "a key does not hold its value")
}

// pairs checks the hash under a key; fv are its fields and values.
func pairs(c *cache.Cache, k string, fv ...string) {
	n, err := c.HLen(k)
	nd.Assert(err == nil && n == len(fv)/2, "a hash has another number of fields")
	for i := 0; i < len(fv); i += 2 {
		v, err := c.HGet(k, fv[i])
		nd.Assert(err == nil && v == fv[i+1], "a hash does not hold its pairs")
	}
}

func missing(c *cache.Cache, ks ...string) {
	for _, k := range ks {
		_, err := c.Get(k)
		nd.Assert(err == cache.ErrKeyNil, "a key appeared or vanished")
	}
}

func same(c *cache.Cache) {
	holds(c, "a", "text")
	pairs(c, "h", "f", "1", "g", "two")
	missing(c, "n")
}

// cased is a word in any mix of letter cases.
func cased(name, w string) string {
	b := []byte(w)
	x := nd.Str(name, len(w))
	for i := range b {
		nd.Assume(x[i]&^0x20 == 0)
		b[i] ^= x[i]
	}
	return string(b)
}

// isWord reports whether w is the word in any mix of letter cases.
func isWord(w, word string) bool {
	if len(w) != len(word) {
		return false
	}
	r := true
	for i := range word {
		r = nd.And(r, w[i]|0x20 == word[i])
	}
	return r
}

// C33_set: SET in any letter case on a new, a string and a hash key.
func C33_set() {
	defer guard("HandleMessage")
	c := filled()
	v := nd.Str("value", nd.Choice("length", 3))
	k := []string{"a", "h", "n", "m" + nd.Str("key", 1), ""}[nd.Choice("which", 5)]
	err := cache.HandleMessage(c, redis.ConvertToMessage(cased("case", "set"), k, v))
	nd.Assert(err == nil, "a replicated SET is refused")
	holds(c, k, v)
	if k != "a" {
		holds(c, "a", "text")
	}
	if k != "h" {
		pairs(c, "h", "f", "1", "g", "two")
	}
	if k != "n" {
		missing(c, "n")
	}
}

// C33_hmset: HMSET in any letter case with up to two (thorough: three) pairs.
func C33_hmset() {
	defer guard("HandleMessage")
	c := filled()
	w := "hmset"
	c1 := nd.Bool("cased")
	if c1 {
		w = cased("case", w)
	}
	k := []string{"h", "n"}[nd.Choice("which", 2)]
	var old []string
	if k == "h" {
		old = []string{"f", "1", "g", "two"}
	}
	args := []string{w, k}
	want := append([]string{}, old...)
	n := 1
	if !c1 {
		n += nd.Choice("pairs", 2+nd.Tier())
	}
	for i := 0; i < n; i++ {
		f, v := nd.Str("field", 1), nd.Str("value", nd.Choice("length", 2))
		args = append(args, f, v)
		for j := 0; ; j += 2 {
			if j == len(want) {
				want = append(want, f, v)
				break
			}
			if want[j] == f {
				want[j+1] = v
				break
			}
		}
	}
	err := cache.HandleMessage(c, redis.ConvertToMessage(args...))
	nd.Assert(err == nil, "a replicated HMSET is refused")
	pairs(c, k, want...)
	holds(c, "a", "text")
	if k != "h" {
		pairs(c, "h", "f", "1", "g", "two")
	} else {
		missing(c, "n")
	}
}

// C33_long: long keys, fields and values.
func C33_long() {
	defer guard("HandleMessage")
	nd.Steps(20000000)
	c := filled()
	long := long("text", []int{60, 255, 520, 4100, 70000}[nd.Choice("size", 5)])
	other := "n" + long[1:]
	if long[0] == 'n' {
		other = "m" + long[1:]
	}
	switch nd.Choice("command", 4) {
	case 0:
		err := cache.HandleMessage(c, redis.ConvertToMessage("SET", "a2", long))
		nd.Assert(err == nil, "a replicated SET is refused")
		holds(c, "a2", long)
	case 1:
		err := cache.HandleMessage(c, redis.ConvertToMessage("SET", long, "v"))
		nd.Assert(err == nil, "a replicated SET is refused")
		holds(c, long, "v")
		missing(c, other)
	case 2:
		err := cache.HandleMessage(c, redis.ConvertToMessage("HMSET", "h2", long, "v", "f", long, other, "w"))
		nd.Assert(err == nil, "a replicated HMSET is refused")
		pairs(c, "h2", long, "v", "f", long, other, "w")
	case 3:
		err := cache.HandleMessage(c, redis.ConvertToMessage("HMSET", long, "f", "v"))
		nd.Assert(err == nil, "a replicated HMSET is refused")
		pairs(c, long, "f", "v")
		missing(c, other)
	}
	same(c)
}

// C33_many: HMSET with many pairs, some of them of one field.
func C33_many() {
	defer guard("HandleMessage")
	nd.Steps(20000000)
	c := filled()
	n := []int{9, 40, 130, 300, 1030}[nd.Choice("pairs", 5)]
	at := []int{0, n / 2, n - 1}[nd.Choice("at", 3)]
	f, v := "s"+nd.Str("field", 1), nd.Str("value", 1)
	args := []string{"hmset", "h2"}
	want := []string{}
	for i := 0; i < n; i++ {
		p := []string{"n" + strconv.Itoa(i), "v" + strconv.Itoa(i)}
		if i == at {
			p = []string{f, v}
		}
		args = append(args, p...)
		want = append(want, p...)
	}
	if nd.Bool("again") {
		args = append(args, f, "last")
		want[2*at+1] = "last"
	}
	err := cache.HandleMessage(c, redis.ConvertToMessage(args...))
	nd.Assert(err == nil, "a replicated HMSET is refused")
	pairs(c, "h2", want...)
	same(c)
}

// C33_run: many commands in a row, on one key or on many.
func C33_run() {
	defer guard("HandleMessage")
	nd.Steps(20000000)
	c := filled()
	n := []int{20, 150, 600}[nd.Choice("commands", 3)]
	one := nd.Bool("one key")
	last := ""
	for i := 0; i < n; i++ {
		k := "k"
		if !one {
			k += strconv.Itoa(i)
		}
		last = "v" + strconv.Itoa(i)
		if i%5 == 4 {
			err := cache.HandleMessage(c, redis.ConvertToMessage("DEL", "a"))
			nd.Assert(err != nil, "a command that is not supported is accepted")
		}
		if i == n-1 {
			last = nd.Str("last", 2)
		}
		err := cache.HandleMessage(c, redis.ConvertToMessage("SET", k, last))
		nd.Assert(err == nil, "a replicated SET is refused")
	}
	if one {
		holds(c, "k", last)
	} else {
		holds(c, "k"+strconv.Itoa(n-1), last)
		for i := 0; i < n-1; i++ {
			holds(c, "k"+strconv.Itoa(i), "v"+strconv.Itoa(i))
		}
	}
	same(c)
}

// long is a text of n bytes, the first, the middle and the last one symbolic.
func long(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	s := string(b)
	for i, p := range []int{0, n / 2, n - 1} {
		s = s[:p] + nd.Str(name+strconv.Itoa(i), 1) + s[p+1:]
	}
	// no number
	nd.Assume(s[0] >= 'a')
	return s
}

// C33_wrong: HMSET on a string.
func C33_wrong() {
	defer guard("HandleMessage")
	c := filled()
	err := cache.HandleMessage(c, redis.ConvertToMessage("hmset", "a", nd.Str("f", 1), nd.Str("v", 1)))
	nd.Assert(err != nil, "a command that cannot be applied is not reported")
	same(c)
}

// C33_counts: SET and HMSET with wrong numbers of arguments.
func C33_counts() {
	defer guard("HandleMessage")
	c := filled()
	n := nd.Choice("arguments", 7)
	w := "set"
	if nd.Bool("hash") {
		w = "hmset"
		nd.Assume(n < 3 || n%2 == 0)
	} else {
		nd.Assume(n != 2)
	}
	args := []string{w}
	for i := 0; i < n; i++ {
		args = append(args, []string{"a", "h", "n", "x"}[nd.Choice("argument", 2+i/3)])
	}
	err := cache.HandleMessage(c, redis.ConvertToMessage(args...))
	nd.Assert(err != nil, "a command with wrong arguments is not reported")
	same(c)
}

// C33_others: any other command word, with keys that are there.
func C33_others() {
	defer guard("HandleMessage")
	c := filled()
	w := ""
	if i := nd.Choice("word", 22); i > 3 {
		w = []string{"del", "rpush", "lpush", "sadd", "zadd", "expire", "pexpireat", "flushall", "flushdb", "incr", "append",
			"hset", "hdel", "mset", "setex", "select", "multi", "rename"}[i-4]
		if nd.Bool("upper") {
			w = strings.ToUpper(w)
		}
	} else {
		w = nd.Str("w", []int{0, 1, 3, 5}[i])
		nd.Assume(!isWord(w, "set"))
		nd.Assume(!isWord(w, "hmset"))
	}
	args := []string{w}
	for i := nd.Choice("arguments", 5); i > 0; i-- {
		args = append(args, []string{"a", "h", "n"}[nd.Choice("argument", 3)])
	}
	err := cache.HandleMessage(c, redis.ConvertToMessage(args...))
	nd.Assert(err != nil, "an unknown command is not reported")
	same(c)
}

// element is part of a message; odd is set when it is no string.
func element(name string, kinds int) (m redis.Message, odd bool) {
	switch nd.Choice(name, kinds) {
	case 0:
		return redis.NewBulkStringMessage([]string{"set", "hmset", "a", "h"}[nd.Choice(name+".text", 4)]), false
	case 1:
		return redis.NilMessage{}, true
	case 2:
		return redis.ErrorMessage("set"), true
	case 3:
		return redis.ConvertToMessage("set", "a", "x"), true
	case 4:
		return redis.ArrayMessage{}, true
	}
	return nil, true
}

// C33_kinds: messages of every kind, and arrays with elements of every kind.
func C33_kinds() {
	defer guard("HandleMessage")
	c := filled()
	var m redis.Message
	switch nd.Choice("kind", 9) {
	case 0:
		m = nil
	case 1:
		m = redis.NilMessage{}
	case 2:
		m = redis.ErrorMessage("set a b")
	case 3:
		m = redis.SimpleStringMessage("set")
	case 4:
		m = redis.IntMessage(nd.Int("int"))
	case 5:
		m = redis.NewBulkStringMessage("set")
	case 6:
		m = redis.ArrayMessage(nil)
	case 7:
		m = redis.ArrayMessage{}
	case 8:
		var l redis.ArrayMessage
		some := false
		n := 1 + nd.Choice("elements", 4)
		for i := 0; i < n; i++ {
			e, odd := element("element", 6)
			l = append(l, e)
			some = some || odd
		}
		nd.Assume(some)
		m = l
	}
	err := cache.HandleMessage(c, m)
	nd.Assert(err != nil, "a message that is no command is not reported")
	same(c)
}

// C33_loose: strings of other kinds are applied or refused, never more.
func C33_loose() {
	defer guard("HandleMessage")
	c := filled()
	word := []string{"set", "hmset"}[nd.Choice("word", 2)]
	l := redis.ArrayMessage{redis.NewBulkStringMessage(word)}
	if nd.Bool("simple") {
		l[0] = redis.SimpleStringMessage(word)
	}
	n := nd.Choice("arguments", 4)
	for i := 0; i < n; i++ {
		switch nd.Choice("kind", 3) {
		case 0:
			l = append(l, redis.NewBulkStringMessage("x"))
		case 1:
			l = append(l, redis.SimpleStringMessage("y"))
		case 2:
			l = append(l, redis.IntMessage(7))
		}
	}
	cache.HandleMessage(c, l)
	same(c)
}

// C33_sequence: what earlier messages did stays when later ones are refused.
func C33_sequence() {
	defer guard("HandleMessage")
	c := filled()
	want := ""
	n := 3 + nd.Tier()
	for i := 0; i < n; i++ {
		var args []string
		ok := false
		v := nd.Str("value", 1)
		switch nd.Choice("message", 5) {
		case 0:
			args, ok = []string{"SET", "n", v}, true
			want = v
		case 1:
			args = []string{"set", "n"}
		case 2:
			args = []string{"hmset", "a", "n", v}
		case 3:
			args = []string{"del", "n"}
		case 4:
			args = []string{"set", "n", v, "EX", "1"}
		}
		err := cache.HandleMessage(c, redis.ConvertToMessage(args...))
		nd.Assert((err == nil) == ok, "a command is refused or accepted wrongly")
	}
	if want != "" {
		holds(c, "n", want)
	} else {
		missing(c, "n")
	}
	holds(c, "a", "text")
	pairs(c, "h", "f", "1", "g", "two")
}
