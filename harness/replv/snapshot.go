// Package replv holds the proof harnesses of snapshot loading and replication.
package replv

import (
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/zzverif/nd"
	"github.com/liujiangwei/xxcache/zzverif/sup"
)

// guard turns a panic into a failure.
func guard(what string) {
	if e := recover(); e != nil {
		nd.Fail(what + " panicked")
	}
}

// load loads a snapshot.
func load(data string) (*redis.Replication, []redis.ReplicationMessage, error) {
	return loadN(data, 64)
}

func loadN(data string, n int) (*redis.Replication, []redis.ReplicationMessage, error) {
	f := nd.TempPath("dump.rdb")
	nd.WriteFile(f, data)
	r := &redis.Replication{RdbFile: f}
	r.Messages = make(chan redis.ReplicationMessage, n)
	err := r.Load()
	var ms []redis.ReplicationMessage
	for len(r.Messages) > 0 {
		ms = append(ms, <-r.Messages)
	}
	return r, ms, err
}

// arguments are those of the command in a message.
func arguments(m redis.Message) []string {
	if m == nil {
		return nil
	}
	s := m.Serialize()
	args, n := sup.Request(s)
	if n != len(s) {
		return nil
	}
	return args
}

func expect(s *sup.Snap, ms []redis.ReplicationMessage) {
	nd.Assert(len(ms) == len(s.Want), "loading emits another number of commands")
	for i, w := range s.Want {
		nd.Assert(w.Agrees(ms[i].Database, arguments(ms[i].Message)), "loading emits another command than the one that recreates the key")
	}
}

func loads(s *sup.Snap) *redis.Replication {
	r, ms, err := load(s.End())
	nd.Assert(err == nil, "a well-formed snapshot is rejected")
	expect(s, ms)
	return r
}

// millis and seconds are timestamps: any in the thorough check, any of a usual
// number of digits and small ones in the quick one.
func millis(name string) int64 {
	ms := nd.Int64(name)
	nd.Assume(ms > 0)
	if nd.Tier() == 0 {
		nd.Assume(nd.Or(ms < 10, nd.And(ms >= 1000000000000, ms < 10000000000000)))
	}
	return ms
}

func seconds(name string) uint32 {
	s := nd.Uint32(name)
	if nd.Tier() == 0 {
		nd.Assume(nd.Or(nd.And(s > 0, s < 10), s >= 1000000000))
	}
	return s
}

// C31_kinds: a key of every kind and encoding, with or without an expiry, in any
// database, followed by another key.
func C31_kinds() {
	defer guard("Load")
	s := sup.NewSnap()
	if db := nd.Choice("db", 3); db > 0 {
		s.Select([]int{0, 1, 300}[db])
	}
	switch nd.Choice("expiry", 3) {
	case 1:
		s.ExpireMs(millis("ms"))
	case 2:
		s.ExpireS(seconds("sec"))
	}
	kind := nd.Choice("kind", sup.Kinds)
	s.Key(kind, "k"+nd.Str("key", 1), 2)
	s.B += "\x00\x01z\x01w"
	s.Want = append(s.Want, sup.Cmd{Db: s.Db, Args: []string{"set", "z", "w"}})
	nd.Cover("kind" + strconv.Itoa(kind))
	loads(s)
}

// other adds a record that is no key.
func other(s *sup.Snap, r *redis.Replication, name string) {
	switch nd.Choice(name, 11) {
	case 10: // the module wrote nothing
		s.B += "\xf7\x81" + nd.Str(name+".module", 1) + sup.BE(7, 0x1234567890abcd) + "\x02" + []string{"\x01", "\x02"}[nd.Choice(name+".when", 2)] + "\x00"
	case 0:
		s.Select(nd.Choice(name+".db", 3))
	case 1:
		s.ExpireMs(millis(name+".ms"))
	case 2:
		s.ExpireS(seconds(name+".sec"))
	case 3:
		s.B += "\xf9" + nd.Str(name+".freq", 1)
	case 4:
		s.B += "\xf8" + sup.Len([]int{5, 500, 70000}[nd.Choice(name+".idle", 3)])
	case 5:
		s.B += "\xfb" + sup.Len(nd.Choice(name+".size", 2)*300) + sup.Len(1)
	case 6:
		s.B += "\xfa" + sup.Raw([]string{"redis-ver", "repl-stream-db", "x"}[nd.Choice(name+".aux", 3)]) + sup.Raw(nd.Str(name+".value", 2))
	case 7:
		r.Id = nd.Str(name+".id", 2)
		s.B += "\xfa" + sup.Raw("repl-id") + sup.Raw(r.Id)
	case 8:
		n := nd.Int32(name + ".offset")
		r.Offset = int(n)
		e := "\xc2" + sup.LE(4, uint64(n))
		if nd.Bool(name + ".text") {
			r.Offset = 12345
			e = sup.Raw("12345")
		}
		s.B += "\xfa" + sup.Raw("repl-offset") + e
	case 9:
		s.B += "\xfa" + sup.Raw("ctime") + "\xc2" + sup.LE(4, uint64(nd.Uint32(name+".time")))
	}
}

// C31_slow: the messages are taken one by one by someone else.
func C31_slow() {
	defer guard("Load")
	s := sup.NewSnap()
	expiry := nd.Bool("expiry")
	for i := 0; i < 2; i++ {
		if expiry {
			s.ExpireMs(1700000000000 + int64(i))
		}
		if i == 0 {
			s.Key(nd.Choice("kind", sup.Kinds), "k", 1)
		} else {
			s.Select(2)
			s.Add(0, "l", "\x01v", sup.Cmd{Args: []string{"set", "l", "v"}})
		}
	}
	f := nd.TempPath("dump.rdb")
	nd.WriteFile(f, s.End())
	r := &redis.Replication{RdbFile: f}
	r.Messages = make(chan redis.ReplicationMessage, nd.Choice("room", 2))
	done := make(chan bool)
	var ms []redis.ReplicationMessage
	go func() {
		for m := range r.Messages {
			ms = append(ms, m)
		}
		done <- true
	}()
	err := r.Load()
	close(r.Messages)
	<-done
	nd.Assert(err == nil, "a well-formed snapshot is rejected")
	expect(s, ms)
}

// C31_records: keys with any two (thorough: three) other records between them.
func C31_records() {
	defer guard("Load")
	s := sup.NewSnap()
	r := &redis.Replication{}
	str := func(k string) {
		s.B += "\x00" + sup.Raw(k) + sup.Raw("v"+k)
		s.Want = append(s.Want, sup.Cmd{Db: s.Db, Args: []string{"set", k, "v" + k}})
		if s.Expires != "" {
			s.Want = append(s.Want, sup.Cmd{Db: s.Db, Args: []string{"pexpireat", k, s.Expires}})
			s.Expires = ""
		}
	}
	if nd.Bool("first") {
		str("a")
	}
	n := 2 + nd.Tier()
	for i := 0; i < n; i++ {
		other(s, r, "record"+strconv.Itoa(i))
	}
	str("b")
	if nd.Bool("more") {
		other(s, r, "later")
	}
	str("c")
	got := loads(s)
	nd.Assert(got.Id == r.Id, "the replication id is not taken over")
	nd.Assert(got.Offset == r.Offset, "the replication offset is not taken over")
}

// C31_offset: any offset and id of usual length.
func C31_offset() {
	defer guard("Load")
	s := sup.NewSnap()
	n := nd.Int64("offset")
	nd.Assume(n >= 0)
	id := nd.Str("id", 1) + "0123456789abcdef0123456789abcdef0123456"
	s.B += "\xfa" + sup.Raw("repl-id") + sup.Raw(id) + "\xfa" + sup.Raw("repl-offset") + sup.Raw(strconv.FormatInt(n, 10))
	s.B += "\x00\x01z\x01w"
	s.Want = append(s.Want, sup.Cmd{Args: []string{"set", "z", "w"}})
	got := loads(s)
	nd.Assert(got.Id == id, "the replication id is not taken over")
	nd.Assert(got.Offset == int(n), "the replication offset is not taken over")
}

// C31_databases: any database number in any of the formats of lengths.
func C31_databases() {
	defer guard("Load")
	s := sup.NewSnap()
	for i := 0; i < 2; i++ {
		n := nd.Uint64("db")
		switch nd.Choice("format", 4) {
		case 0:
			nd.Assume(n < 64)
			s.B += "\xfe" + string([]byte{byte(n)})
		case 1:
			nd.Assume(n < 1<<14)
			s.B += "\xfe" + string([]byte{0x40 | byte(n>>8), byte(n)})
		case 2:
			nd.Assume(n < 1<<31)
			s.B += "\xfe\x80" + sup.BE(4, n)
		case 3:
			nd.Assume(n < 1<<31)
			s.B += "\xfe\x81" + sup.BE(8, n)
		}
		k := "k" + strconv.Itoa(i)
		s.B += "\x00" + sup.Raw(k) + "\x01w"
		s.Want = append(s.Want, sup.Cmd{Db: int(n), Args: []string{"set", k, "w"}})
	}
	loads(s)
}

// C31_nodes: a quicklist of up to 4 (thorough: 6) nodes of 1 to 3 elements.
func C31_nodes() {
	defer guard("Load")
	s := sup.NewSnap()
	k := 1 + nd.Choice("nodes", 4+2*nd.Tier())
	args := []string{"rpush", "k"}
	s.B += "\x0e\x01k" + sup.Len(k)
	for i := 0; i < k; i++ {
		var zs []string
		for j := nd.Choice("elements", 3); j >= 0; j-- {
			e := nd.Str("e", 1)
			args = append(args, e)
			zs = append(zs, sup.ZlStr(e))
		}
		s.B += sup.Raw(sup.Zl(zs...))
	}
	s.Want = append(s.Want, sup.Cmd{Args: args})
	s.B += "\x00\x01z\x01w"
	s.Want = append(s.Want, sup.Cmd{Args: []string{"set", "z", "w"}})
	loads(s)
}

// C31_keys: two keys of any kinds in a row, each with or without an expiry, in
// one or two databases.
func C31_keys() {
	defer guard("Load")
	s := sup.NewSnap()
	s.Plain = nd.Tier() == 0
	for i := 0; i < 2; i++ {
		if nd.Bool("select") {
			s.Select(i + 1)
		}
		if nd.Bool("expiry") {
			s.ExpireMs(1700000000000 + int64(i))
		}
		s.Key(nd.Choice("kind", sup.Kinds), "k"+strconv.Itoa(i), 1)
	}
	loads(s)
}

// C31_many: many keys of all kinds, with and without expiries, in one and in many databases.
func C31_many() {
	defer guard("Load")
	nd.Steps(40000000)
	nd.Limit(100000)
	s := sup.NewSnap()
	n := []int{40, 300, 1100}[nd.Choice("keys", 3)]
	long := []int{0, 60, 300, 17000}[nd.Choice("long key", 4)]
	every := []int{3, 2000}[nd.Choice("every", 2)]
	at := []int{0, n / 2, n - 1}[nd.Choice("at", 3)]
	var l []string
	for i := 0; i < n; i++ {
		if i%every == every-1 {
			s.Select(i / every)
		}
		switch i % 5 {
		case 1:
			s.ExpireMs(1700000000000 + int64(i))
		case 3:
			s.ExpireS(1700000000 + uint32(i))
		}
		k, v := "k"+strconv.Itoa(i), "v"+strconv.Itoa(i)
		if i == at {
			v = nd.Str("value", 2)
			k += sup.Filler(long) + nd.Str("key", 1)
		}
		switch i % 4 {
		case 0:
			s.Add(0, k, sup.Raw(v), sup.Cmd{Args: []string{"set", k, v}})
		case 1:
			s.Add(1, k, "\x02"+sup.Raw(v)+"\x01b", sup.Cmd{Args: []string{"rpush", k, v, "b"}})
		case 2:
			s.Add(4, k, "\x01"+sup.Raw("f")+sup.Raw(v), sup.Cmd{Args: []string{"hmset", k, "f", v}})
		case 3:
			s.Add(2, k, "\x01"+sup.Raw(v), sup.Cmd{Args: []string{"sadd", k, v}})
		}
		l = append(l, s.B)
		s.B = ""
	}
	s.B = strings.Join(l, "")
	_, ms, err := loadN(s.End(), 9000)
	nd.Assert(err == nil, "a well-formed snapshot is rejected")
	expect(s, ms)
}

// C31_long: many and long elements.
func C31_long() {
	defer guard("Load")
	nd.Steps(20000000)
	s := sup.NewSnap()
	n := []int{63, 64, 65, 300, 700}[nd.Choice("count", 5)]
	at := []int{0, 1, n - 1}[nd.Choice("at", 3)]
	kind := nd.Choice("kind", 12)
	args := []string{"", "k"}
	body := ""
	var zs []string
	var sc []float64
	var is []int64
	pairs := kind >= 4 && kind < 7
	for i := 0; i < n; i++ {
		e := "e" + strconv.Itoa(i)
		if i == at {
			e = nd.Str("e", 1) + sup.Filler(n)
		}
		if pairs {
			args = append(args, "f"+strconv.Itoa(i))
			body += sup.Raw("f" + strconv.Itoa(i))
			zs = append(zs, sup.ZlStr("f"+strconv.Itoa(i)))
		}
		args = append(args, e)
		body += sup.Raw(e)
		zs = append(zs, sup.ZlStr(e))
		switch kind {
		case 7:
			body += sup.LE(8, 0x3ff8000000000000)
			sc = append(sc, 1.5)
		case 8:
			t := strconv.Itoa(i)
			body += string([]byte{byte(len(t))}) + t
			sc = append(sc, float64(i))
		case 9:
			zs = append(zs, sup.ZlInt(int64(i)))
			sc = append(sc, float64(i))
		case 10, 11:
			v := int64(3 * i)
			if i == n-1 {
				v = nd.Int64("last")
				nd.Assume(v >= 3000 && v < 3010)
			}
			is = append(is, v)
			args[len(args)-1] = strconv.FormatInt(v, 10)
		}
	}
	c := sup.Cmd{Args: args, Score: sc}
	switch kind {
	case 0:
		args[0] = "rpush"
		s.B += "\x01\x01k" + sup.Len(n) + body
	case 1:
		args[0] = "sadd"
		s.B += "\x02\x01k" + sup.Len(n) + body
	case 2:
		args[0] = "rpush"
		s.B += "\x0a\x01k" + sup.Raw(sup.Zl(zs...))
	case 3:
		args[0] = "rpush"
		s.B += "\x0e\x01k\x02" + sup.Raw(sup.Zl(zs[:n/2]...)) + sup.Raw(sup.Zl(zs[n/2:]...))
	case 4:
		args[0], c.Kind = "hmset", sup.Pairs
		s.B += "\x04\x01k" + sup.Len(n) + body
	case 5:
		args[0], c.Kind = "hmset", sup.Pairs
		s.B += "\x09\x01k" + sup.Raw(sup.Zm(0, args[2:]...))
	case 6:
		args[0], c.Kind = "hmset", sup.Pairs
		s.B += "\x0d\x01k" + sup.Raw(sup.Zl(zs...))
	case 7:
		args[0], c.Kind = "zadd", sup.Scores
		s.B += "\x05\x01k" + sup.Len(n) + body
	case 8:
		args[0], c.Kind = "zadd", sup.Scores
		s.B += "\x03\x01k" + sup.Len(n) + body
	case 9:
		args[0], c.Kind = "zadd", sup.Scores
		s.B += "\x0c\x01k" + sup.Raw(sup.Zl(zs...))
	case 10, 11:
		args[0] = "sadd"
		c.Kind = sup.Bag
		s.B += "\x0b\x01k" + sup.Raw(sup.IntSet([]int{2, 8}[kind-10], is...))
	}
	s.Want = append(s.Want, c)
	s.B += "\x00\x01z\x01w"
	s.Want = append(s.Want, sup.Cmd{Args: []string{"set", "z", "w"}})
	loads(s)
}

// C31_empty: elements without any text, quicklist nodes without any element.
func C31_empty() {
	defer guard("Load")
	s := sup.NewSnap()
	a := nd.Str("a", 1)
	z := func(es ...string) string {
		var zs []string
		for _, e := range es {
			zs = append(zs, sup.ZlStr(e))
		}
		return sup.Raw(sup.Zl(zs...))
	}
	switch nd.Choice("kind", 14) {
	case 0:
		s.B += "\x00\x01k\x00"
		s.Want = append(s.Want, sup.Cmd{Args: []string{"set", "k", ""}})
	case 1:
		s.B += "\x01\x01k\x03\x00\x01" + a + "\x00"
		s.Want = append(s.Want, sup.Cmd{Args: []string{"rpush", "k", "", a, ""}})
	case 2:
		s.B += "\x02\x01k\x02\x01" + a + "\x00"
		s.Want = append(s.Want, sup.Cmd{Kind: sup.Bag, Args: []string{"sadd", "k", a, ""}})
	case 3:
		s.B += "\x03\x01k\x02\x00\x011\x01" + a + "\x012"
		s.Want = append(s.Want, sup.Cmd{Kind: sup.Scores, Args: []string{"zadd", "k", "", a}, Score: []float64{1, 2}})
	case 4:
		s.B += "\x04\x01k\x02\x01f\x00\x00\x01" + a
		s.Want = append(s.Want, sup.Cmd{Kind: sup.Pairs, Args: []string{"hmset", "k", "f", "", "", a}})
	case 5:
		s.B += "\x05\x01k\x01\x00" + sup.LE(8, 0x3ff8000000000000)
		s.Want = append(s.Want, sup.Cmd{Kind: sup.Scores, Args: []string{"zadd", "k", ""}, Score: []float64{1.5}})
	case 6:
		s.B += "\x09\x01k" + sup.Raw(sup.Zm(nd.Choice("free", 2), "f", "", "", a))
		s.Want = append(s.Want, sup.Cmd{Kind: sup.Pairs, Args: []string{"hmset", "k", "f", "", "", a}})
	case 7:
		s.B += "\x0a\x01k" + z("", a, "")
		s.Want = append(s.Want, sup.Cmd{Args: []string{"rpush", "k", "", a, ""}})
	case 8:
		s.B += "\x0c\x01k" + z("", "1", a, "2")
		s.Want = append(s.Want, sup.Cmd{Kind: sup.Scores, Args: []string{"zadd", "k", "", a}, Score: []float64{1, 2}})
	case 9:
		s.B += "\x0d\x01k" + z("f", "", "", a)
		s.Want = append(s.Want, sup.Cmd{Kind: sup.Pairs, Args: []string{"hmset", "k", "f", "", "", a}})
	case 10:
		s.B += "\x0e\x01k\x02" + z("", a) + z(a, "")
		s.Want = append(s.Want, sup.Cmd{Args: []string{"rpush", "k", "", a, a, ""}})
	case 11:
		s.B += "\x0e\x01k\x03" + z(a) + z() + z("b")
		s.Want = append(s.Want, sup.Cmd{Args: []string{"rpush", "k", a, "b"}})
	case 12:
		s.B += "\xfa\x01x\x00\x00\x01k\x01" + a
		s.Want = append(s.Want, sup.Cmd{Args: []string{"set", "k", a}})
	case 13:
		s.B += "\xfa\x00\x00\xfa\x00\x01" + a + "\x00\x01k\x01" + a
		s.Want = append(s.Want, sup.Cmd{Args: []string{"set", "k", a}})
	}
	s.B += "\x00\x01z\x01w"
	s.Want = append(s.Want, sup.Cmd{Args: []string{"set", "z", "w"}})
	loads(s)
}

// C31_seams: keys of every kind wherever the buffer of the file ends.
func C31_seams() {
	defer guard("Load")
	nd.Steps(20000000)
	s := sup.NewSnap()
	s.Plain = true
	before := 1 + nd.Choice("before", 48+16*nd.Tier())
	pad := 4096*(1+nd.Choice("buffer", 2)) - before - len(s.B) - 5
	s.B += "\xfa\x01x" + sup.Raw(sup.Filler(pad))
	switch nd.Choice("prefix", 4) {
	case 1:
		s.Select(300)
		s.ExpireMs(1700000000001)
	case 2:
		s.ExpireS(1700000000)
	case 3:
		s.ExpireMs(1700000000001)
	}
	s.Key(nd.Choice("kind", sup.Kinds), "k", 1)
	s.B += "\x00\x01z\x01w"
	s.Want = append(s.Want, sup.Cmd{Db: s.Db, Args: []string{"set", "z", "w"}})
	loads(s)
}

// C31_huge: numbers of elements in every format of lengths.
func C31_huge() {
	defer guard("Load")
	nd.Steps(400000000)
	nd.AllocLimit(1 << 30)
	n := []int{16384, 66000}[nd.Choice("count", 2)]
	kind := nd.Choice("kind", 4)
	mark := nd.Str("mark", 1)
	z := sup.Raw(sup.Zl(sup.ZlStr("a")))
	last := sup.Raw(sup.Zl(sup.ZlStr(mark)))
	b := []byte("REDIS0009" + []string{"\x01", "\x02", "\x04", "\x0e"}[kind] + "\x01k" + sup.Len(n))
	for i := 0; i < n-1; i++ {
		switch kind {
		case 0:
			b = append(b, 1, 'a')
		case 1:
			b = append(b, 3, byte(i), byte(i>>8), byte(i>>16))
		case 2:
			b = append(b, 3, byte(i), byte(i>>8), byte(i>>16), 1, 'v')
		case 3:
			b = append(b, z...)
		}
	}
	b = append(b, []string{"\x01" + mark, "\x01" + mark, "\x01" + mark + "\x01" + mark, last}[kind]...)
	b = append(b, "\x00\x01z\x01w\xff"...)
	_, ms, err := load(string(b))
	nd.Cover("kind" + strconv.Itoa(kind))
	nd.Assert(err == nil, "a well-formed snapshot is rejected")
	nd.Assert(len(ms) == 2, "loading emits another number of commands")
	args, ok := ms[0].Message.(redis.ArrayMessage)
	if !ok {
		return
	}
	size := 2 + n
	if kind == 2 {
		size += n
	}
	nd.Assert(len(args) == size, "loading loses or adds elements")
	if kind == 0 || kind == 3 {
		nd.Assert(args[size-2].String() == "a" && args[size-1].String() == mark, "loading changes an element")
	}
	nd.Assert(sup.Is(arguments(ms[1].Message), "set"), "loading emits another command than the one that recreates the key")
}
