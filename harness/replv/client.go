package replv

import (
	"strconv"
	"strings"

	xxcache "github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/zzverif/nd"
	"github.com/liujiangwei/xxcache/zzverif/sup"
)

// odd is a message the cache cannot apply.
func odd(name string) string {
	return []string{
		sup.Array("DEL", "k"),
		sup.Array("SET", "k"),
		sup.Array("hmset", "k", "f", "v"),
		sup.Array("select", "x"),
		sup.Array("EXPIRE", "k", "1"),
		"*0\r\n",
		"+OK\r\n",
		"-ERR x\r\n",
		":7\r\n",
		"$-1\r\n",
		"*-1\r\n",
		"*2\r\n$3\r\nset\r\n$-1\r\n",
		"*3\r\n*1\r\n+x\r\n:1\r\n+y\r\n",
		"*1\r\n-x\r\n",
		sup.Array("rpush", "k", "v"),
		sup.Array("SET", "k", "v", "EX", "7"),
	}[nd.Choice(name, 16)]
}

func connected(m *master) *xxcache.Client {
	c, err := m.client()
	nd.Assert(err == nil, "no client for a healthy master")
	return &c
}

// C35_commands: up to two (thorough: three) messages that cannot be applied, then
// a SET, with the link staying or not.
func C35_commands() {
	defer guard("the client")
	m := newMaster("REDIS0009\x00\x01k\x01s\xff")
	n := 1 + nd.Choice("messages", 2+nd.Tier())
	for i := 0; i < n; i++ {
		m.rest += odd("message" + strconv.Itoa(i))
	}
	m.rest += sup.Array("select", "0") + sup.Array("SET", "z", "w")
	if nd.Bool("stays") {
		m.setup = func(l *sup.Link) { l.More = make(chan string) }
	}
	c := connected(m)
	nd.Quiesce()
	v, ok := value(c, "z")
	nd.Assert(ok && v == "w", "a command after one that cannot be applied is not applied")
	v, ok = value(c, "k")
	nd.Assert(ok && v == "s", "a cached value is not answered")
}

// C35_many: more messages that cannot be applied than any queue of errors holds.
func C35_many() {
	defer guard("the client")
	nd.Limit(100000)
	m := newMaster(empty)
	o := odd("message")
	for i := 0; i < 50; i++ {
		m.rest += o
	}
	m.rest += sup.Array("select", "0") + sup.Array("SET", "z", "w")
	c := connected(m)
	nd.Quiesce()
	v, ok := value(c, "z")
	nd.Assert(ok && v == "w", "a command after ones that cannot be applied is not applied")
}

// C35_lost: the link breaks anywhere in the stream; cached values stay readable,
// however often the client reports its offset afterwards.
func C35_lost() {
	defer guard("the client")
	m := newMaster("REDIS0009\x00\x01k\x01s\xff")
	first := sup.Array("SET", "z", "w")
	second := sup.Array("SET", "y", "x")
	at := nd.Choice("lost", len(second))
	m.rest = first + second[:at]
	how := nd.Choice("how", 4)
	m.setup = func(l *sup.Link) {
		switch how {
		case 1:
			l.End = sup.ErrCut
		case 2:
			m.rest += "\x00garbage\r\n"
		case 3:
			l.End = sup.ErrCut
		}
	}
	c := connected(m)
	if how == 3 {
		m.link.NoWrite = true
	}
	n := 1 + 2*nd.Choice("ticks", 2)
	for i := 0; i < n; i++ {
		nd.Quiesce()
		v, ok := value(c, "k")
		nd.Assert(ok && v == "s", "a cached value is not answered once the link is lost")
		v, ok = value(c, "z")
		nd.Assert(ok && v == "w", "a cached value is not answered once the link is lost")
		nd.Tick()
	}
}

// C35_acks: reporting the offset fails while the stream goes on.
func C35_acks() {
	defer guard("the client")
	m := newMaster(empty)
	more := make(chan string)
	m.setup = func(l *sup.Link) { l.More = more }
	c := connected(m)
	nd.Quiesce()
	m.link.NoWrite = true
	n := 1 + nd.Choice("ticks", 4)
	for i := 0; i < n; i++ {
		nd.Tick()
		nd.Quiesce()
	}
	for i := 0; i < 2; i++ {
		v := "v" + strconv.Itoa(i)
		more <- sup.Array("SET", "k", v)
		nd.Quiesce()
		got, ok := value(c, "k")
		nd.Assert(ok && got == v, "a failure to report the offset stalls replication")
		nd.Tick()
	}
}

// C35_schedules: a message that cannot be applied, SETs, a lost link and reads, in
// every order of the goroutines with at most one (thorough: two) preemptions.
func C35_schedules() {
	defer guard("the client")
	s, w := "s"+nd.Str("s", 1), "w"+nd.Str("w", 1)
	m := newMaster("REDIS0009\x00\x01k\x02" + s + "\xff")
	how := nd.Choice("how", 3)
	m.rest = []string{sup.Array("DEL", "k"), sup.Array("select", "x"), sup.Array("PING")}[how] + sup.Array("select", "0") + sup.Array("SET", "z", w)
	m.reply = func(args []string) string { return "$-1\r\n" }
	nd.Explore(1 + nd.Tier())
	c := connected(m)
	v, ok := value(c, "k")
	nd.Assert(!ok || v == s, "a wrong value is answered")
	nd.Tick()
	v, ok = value(c, "z")
	nd.Assert(!ok || v == w, "a wrong value is answered")
	nd.Explore(-1)
	nd.Quiesce()
	v, ok = value(c, "z")
	nd.Assert(ok && v == w, "a command is not applied")
	v, ok = value(c, "k")
	nd.Assert(ok && v == s, "a cached value is not answered")
}

// C36_get: a key that is cached or not, every kind of reply from the master.
func C36_get() {
	defer guard("Get")
	k, val := "k"+nd.Str("key", 1), nd.Str("cached", nd.Choice("size", 3))
	m := newMaster("REDIS0009\x00" + sup.Raw(k) + sup.Raw(val) + "\xff")
	c := connected(m)
	nd.Quiesce()
	ask := "k" + nd.Str("asked", 1)
	r := nd.Str("reply", nd.Choice("length", 3))
	m.reply = func(args []string) string { return sup.Bulk(r) }
	kind := nd.Choice("kind", 4)
	text := "ERR " + nd.Str("error", 1)
	nd.Assume(nd.And(text[4] != '\r', text[4] != '\n'))
	switch kind {
	case 1:
		m.reply = func(args []string) string { return "$-1\r\n" }
	case 2:
		m.reply = func(args []string) string { return "-" + text + "\r\n" }
	case 3:
		m.reply = func(args []string) string { return "" }
	}
	before := len(m.asked)
	got, err := c.Get(ask)
	if ask == k {
		nd.Assert(err == nil && got == val, "a cached value is not answered")
		nd.Assert(len(m.asked) == before, "the master is asked for a cached value")
		return
	}
	nd.Assert(len(m.asked) == before+1, "the master is not asked for a value that is not cached")
	a := m.asked[before]
	nd.Assert(len(a) == 2 && sup.Is(a, "get") && a[1] == ask, "the master is asked for something else")
	switch kind {
	case 0:
		nd.Assert(err == nil && got == r, "the value of the master is not answered")
	case 2:
		nd.Assert(err != nil && err.Error() == text, "the error of the master is not answered")
	default:
		nd.Assert(err != nil, "a value that is nowhere is answered")
	}
}

// C36_long: long keys and values, in the snapshot, at the master and to be set.
func C36_long() {
	defer guard("the client")
	nd.Steps(40000000)
	n := []int{64, 300, 4100, 70000}[nd.Choice("size", 4)]
	s, k := long("text", n), "k"+strings.Repeat("y", n-2)
	m := newMaster("REDIS0009\x00\x81\x00\x00\x00\x00" + be8(len(k)+1) + k + "1\x81\x00\x00\x00\x00" + be8(n) + s + "\xff")
	c := connected(m)
	nd.Quiesce()
	got, ok := value(c, k+"1")
	nd.Assert(ok && got == s, "a cached value is not answered")
	m.reply = func(args []string) string { return sup.Bulk("r" + s) }
	before := len(m.asked)
	got, ok = value(c, k+"2")
	nd.Assert(ok && got == "r"+s, "the value of the master is not answered")
	nd.Assert(len(m.asked) == before+1 && len(m.asked[before]) == 2 && m.asked[before][1] == k+"2", "the master is asked for something else")
	m.reply = func(args []string) string { return "+OK\r\n" }
	got, err := c.Set(k+"3", s+"x")
	nd.Assert(err == nil && got == "OK", "a SET the master accepted fails")
	nd.Assert(len(m.asked) == before+2 && len(m.asked[before+1]) == 3, "Set does not ask the master")
	nd.Assert(m.asked[before+1][1] == k+"3" && m.asked[before+1][2] == s+"x", "Set asks the master for something else")
}

func be8(n int) string { return string([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}) }

// C36_many: many keys, cached and not.
func C36_many() {
	defer guard("the client")
	nd.Steps(40000000)
	nd.Limit(100000)
	n := []int{20, 150, 400}[nd.Choice("keys", 3)]
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, "\x00"+sup.Raw("k"+strconv.Itoa(i))+sup.Raw("v"+strconv.Itoa(i)))
	}
	m := newMaster("REDIS0009" + strings.Join(l, "") + "\xff")
	c := connected(m)
	nd.Quiesce()
	asked := len(m.asked)
	bad := nd.Choice("reply", 3)
	m.reply = func(args []string) string {
		switch {
		case len(args) == 2 && args[1] == "n1" && bad == 1:
			return "-ERR\r\n"
		case len(args) == 2 && args[1] == "n1" && bad == 2:
			return "$-1\r\n"
		}
		return sup.Bulk("r" + args[1])
	}
	for i := 0; i < n; i++ {
		got, ok := value(c, "k"+strconv.Itoa(i))
		nd.Assert(ok && got == "v"+strconv.Itoa(i), "a cached value is not answered")
	}
	nd.Assert(len(m.asked) == asked, "the master is asked for a cached value")
	for i := 0; i < n; i++ {
		k := "n" + strconv.Itoa(i)
		got, ok := value(c, k)
		if i == 1 && bad > 0 {
			nd.Assert(!ok, "a value that is nowhere is answered")
		} else {
			nd.Assert(ok && got == "r"+k, "the value of the master is not answered")
		}
	}
	nd.Assert(len(m.asked) == asked+n, "the master is not asked for a value that is not cached")
}

// C36_later: any time between the reads.
func C36_later() {
	defer guard("Get")
	m := newMaster("REDIS0009\x00\x01k\x01v\xff")
	m.rest = sup.Array("SET", "l", "w")
	c := connected(m)
	nd.Quiesce()
	m.reply = func(args []string) string { return sup.Bulk("r") }
	for i := 0; i < 2; i++ {
		pause("later")
		nd.Quiesce()
		got, ok := value(c, "k")
		nd.Assert(ok && got == "v", "a cached value is not answered")
		got, ok = value(c, "l")
		nd.Assert(ok && got == "w", "a cached value is not answered")
		nd.Assert(len(m.asked) == i, "the master is asked for a cached value")
		got, ok = value(c, "n")
		nd.Assert(ok && got == "r" && len(m.asked) == i+1, "the value of the master is not answered")
	}
}

// C36_set: SET goes to the master and answers its outcome.
func C36_set() {
	defer guard("Set")
	m := newMaster("REDIS0009\x00\x01k\x01v\xff")
	c := connected(m)
	nd.Quiesce()
	kind := nd.Choice("kind", 4)
	text := "ERR " + nd.Str("error", 1)
	nd.Assume(nd.And(text[4] != '\r', text[4] != '\n'))
	m.reply = func(args []string) string {
		return []string{"+OK\r\n", "-" + text + "\r\n", "", "$-1\r\n"}[kind]
	}
	k, v := "k"+nd.Str("key", nd.Choice("size", 2)), nd.Str("value", nd.Choice("length", 3))
	before := len(m.asked)
	got, err := c.Set(k, v)
	nd.Assert(len(m.asked) == before+1, "Set does not ask the master")
	a := m.asked[before]
	nd.Assert(len(a) == 3 && sup.Is(a, "set") && a[1] == k && a[2] == v, "Set asks the master for something else")
	switch kind {
	case 0:
		nd.Assert(err == nil && got == "OK", "a SET the master accepted fails")
	case 1:
		nd.Assert(err != nil && err.Error() == text, "the error of the master is not answered")
	default:
		nd.Assert(err != nil, "a SET without the OK of the master succeeds")
	}
	if kind == 0 {
		return
	}
	// nothing changed
	m.reply = func(args []string) string { return "$-1\r\n" }
	got, ok := value(c, k)
	if k == "k" {
		nd.Assert(ok && got == "v", "a SET the master did not accept changes what is answered")
	} else {
		nd.Assert(!ok, "a SET the master did not accept changes what is answered")
	}
}

// C36_down: the master is gone.
func C36_down() {
	defer guard("the client")
	m := newMaster("REDIS0009\x00\x01k\x01v\xff")
	c := connected(m)
	nd.Quiesce()
	m.refuse = errRefused
	v, ok := value(c, "k")
	nd.Assert(ok && v == "v", "a cached value is not answered")
	_, ok = value(c, "n")
	nd.Assert(!ok, "a value that is nowhere is answered")
	_, err := c.Set("k", "w")
	nd.Assert(err != nil, "a SET without the OK of the master succeeds")
	m.refuse = nil
	m.reply = func(args []string) string { return sup.Bulk("r") }
	v, ok = value(c, "n")
	nd.Assert(ok && v == "r", "the master is not asked any more")
}

// C36_order: reads and replicated SETs in any order.
func C36_order() {
	defer guard("Get")
	m := newMaster("REDIS0009\x00\x01k\x01v\xff")
	more := make(chan string)
	m.setup = func(l *sup.Link) { l.More = more }
	m.reply = func(args []string) string { return sup.Bulk("master") }
	c := connected(m)
	nd.Quiesce()
	last, cached := "v", true
	for i := 0; i < 3; i++ {
		k := []string{"k", "n"}[nd.Choice("key", 2)]
		if nd.Bool("replicate") {
			v := nd.Str("value", 1)
			more <- sup.Array("SET", k, v)
			nd.Quiesce()
			got, ok := value(c, k)
			nd.Assert(ok && got == v, "a replicated value is not answered")
			if k == "k" {
				last = v
			} else {
				cached = false
			}
		} else if k == "k" {
			got, ok := value(c, k)
			nd.Assert(ok && got == last, "a cached value is not answered")
		} else if cached {
			got, ok := value(c, k)
			nd.Assert(ok && got == "master", "the value of the master is not answered")
		}
	}
}

// C37_snapshot: keys of any kinds in the snapshot, in up to two databases, then a
// SET.
func C37_snapshot() {
	defer guard("New")
	s := sup.NewSnap()
	s.Plain = true
	n := nd.Choice("keys", 3)
	for i := 0; i < n; i++ {
		if nd.Bool("select") {
			s.Select(1 - s.Db)
		}
		kind := 0
		if i == 0 {
			kind = nd.Choice("kind", sup.Kinds)
		}
		s.Key(kind, "k"+strconv.Itoa(i), 1)
	}
	m := newMaster(s.End())
	k, v := []string{"k0", "n"}[nd.Choice("key", 2)], nd.Str("value", 1)
	m.rest = sup.Array("SET", k, v)
	c := connected(m)
	nd.Quiesce()
	started(m)
	for _, w := range s.Want {
		if w.Db == 0 && sup.Is(w.Args, "set") && w.Args[1] != k {
			got, ok := value(c, w.Args[1])
			nd.Assert(ok && got == w.Args[2], "a string of the snapshot is not answered")
		}
	}
	got, ok := value(c, k)
	nd.Assert(ok && got == v, "a replicated value is not answered")
	for _, w := range s.Want {
		if w.Db != 0 && w.Args[1] != k {
			_, ok := value(c, w.Args[1])
			nd.Assert(!ok, "a key of another database is answered")
		}
	}
}

// started checks what was sent on the replication link first.
func started(m *master) {
	nd.Assert(len(m.sent) >= 2 && len(m.sent[0]) == 1 && sup.Is(m.sent[0], "ping"), "the master is not checked with PING first")
	nd.Assert(len(m.sent[1]) == 1 && sup.Is(m.sent[1], "sync"), "no full synchronisation is requested")
}

// C37_strings: strings in any encoding, split anywhere by the transport.
func C37_strings() {
	defer guard("New")
	s := sup.NewSnap()
	s.Key(0, "a", 1)
	s.Plain = nd.Tier() == 0
	s.Key(0, "b"+nd.Str("key", 1), 1)
	m := newMaster(s.End())
	m.rest = sup.Array("SET", "c", "d")
	m.setup = func(l *sup.Link) {
		if nd.Bool("bytes") {
			l.Byte = true
		}
	}
	c := connected(m)
	nd.Quiesce()
	for _, w := range s.Want {
		got, ok := value(c, w.Args[1])
		nd.Assert(ok && got == w.Args[2], "a string of the snapshot is not answered")
	}
	got, ok := value(c, "c")
	nd.Assert(ok && got == "d", "a replicated value is not answered")
}

// C37_offset: whatever offset, id and sizes the snapshot comes with.
func C37_offset() {
	defer guard("New")
	s := "REDIS0009"
	if nd.Bool("named") {
		s += "\xfa" + sup.Raw("repl-id") + sup.Raw("0123456789abcdef0123456789abcdef01234567")
	}
	switch nd.Choice("aux", 6) {
	case 1:
		s += "\xfa" + sup.Raw("repl-offset") + "\xc2" + sup.LE(4, uint64(nd.Uint32("offset")))
	case 2:
		s += "\xfa" + sup.Raw("repl-offset") + "\xc0" + nd.Str("offset", 1)
	case 3:
		s += "\xfa" + sup.Raw("repl-id") + sup.Raw(nd.Str("id", 2)) + "\xfa" + sup.Raw("repl-offset") + sup.Raw("9000000000000000000")
	case 4:
		s += "\xfa" + sup.Raw("repl-stream-db") + "\xc0" + nd.Str("db", 1)
	case 5:
		s += "\xfe\x00\xfb" + nd.Str("a", 1) + nd.Str("b", 1)
		nd.Assume(nd.And(s[len(s)-1] < 64, s[len(s)-2] < 64))
	}
	m := newMaster(s + "\x00\x01a\x01v\xff")
	more := make(chan string)
	if nd.Bool("stays") {
		m.setup = func(l *sup.Link) { l.More = more }
	}
	m.rest = sup.Array("SET", "c", "d")
	c := connected(m)
	for i := nd.Choice("ticks", 3); i > 0; i-- {
		nd.Quiesce()
		nd.Tick()
	}
	nd.Quiesce()
	got, ok := value(c, "a")
	nd.Assert(ok && got == "v", "a string of the snapshot is not answered")
	got, ok = value(c, "c")
	nd.Assert(ok && got == "d", "a replicated value is not answered")
	if m.setup != nil {
		more <- sup.Array("SET", "e", "f")
		nd.Quiesce()
		got, ok = value(c, "e")
		nd.Assert(ok && got == "f", "a replicated value is not answered")
	}
}

// C37_split: the transport splits the start-up anywhere.
func C37_split() {
	defer guard("New")
	v := nd.Str("value", 1)
	m := newMaster("REDIS0009\x00\x01a\x01" + v + "\xffchecksum")
	m.rest = sup.Array("SET", "c", "d")
	if nd.Bool("newlines") {
		m.sync = "\n\n" + m.sync
	}
	m.setup = func(l *sup.Link) { l.Cuts = []int{1 + nd.Choice("cut", len(m.pong)+len(m.sync)+len(m.rest)-1)} }
	c := connected(m)
	nd.Quiesce()
	got, ok := value(c, "a")
	nd.Assert(ok && got == v, "a string of the snapshot is not answered")
	got, ok = value(c, "c")
	nd.Assert(ok && got == "d", "a replicated value is not answered")
}

// C37_fails: every step of starting up failing.
func C37_fails() {
	defer guard("New")
	m := newMaster("REDIS0009\x00\x01a\x01b\xff")
	switch nd.Choice("step", 9) {
	case 0:
		m.refuse = errRefused
	case 1:
		m.pong = []string{"-ERR x\r\n", "-PONG\r\n", "+OK\r\n", "+PONGS\r\n", "+PON\r\n", "$-1\r\n", ":1\r\n", "*0\r\n", "", "+PONG", "+PONG\r", "x\r\n"}[nd.Choice("pong", 12)]
	case 2:
		b := nd.Str("byte", 1)
		i := nd.Choice("at", 7)
		nd.Assume(b != m.pong[i:i+1])
		m.pong = m.pong[:i] + b + m.pong[i+1:]
	case 3:
		m.sync = []string{"", "-ERR x\r\n", "+OK\r\n", "+FULLRESYNC\r\n", ":10\r\n", "$-1\r\n", "$x\r\n", "*1\r\n", "*-1\r\n", "\n", "$\r\n", "$0\r\n"}[nd.Choice("sync", 12)]
	case 4:
		m.sync = m.sync[:nd.Choice("cut", len(m.sync)-1)]
	case 5:
		m.snapshot("REDIS0009\x00\x01a\x01b\xff"[:nd.Choice("truncated", 15)])
	case 6:
		m.snapshot("REDIS0009\x00\x01a\x01b" + string([]byte{[]byte{6, 15, 19, 200, 246}[nd.Choice("type", 5)]}) + "\x01k\x01v\xff")
	case 7:
		m.setup = func(l *sup.Link) { l.NoWrite = true }
	case 8:
		m.snapshot("REDIS0009\x0a\x01a\x03xyz\xff")
	}
	_, err := m.client()
	nd.Assert(err != nil, "a client without a snapshot")
	nd.Quiesce()
}

// C37_file: the snapshot cannot be written.
func C37_file() {
	defer guard("New")
	newMaster(empty)
	_, err := xxcache.New(xxcache.Option{RedisMasterAddr: "master:6379", RedisRdbFile: nd.TempPath("absent") + "/dump.rdb"})
	nd.Assert(err != nil, "a client without a snapshot")
}

// C37_replace: what is left of an older snapshot file does not matter.
func C37_replace() {
	defer guard("New")
	nd.WriteFile(nd.TempPath("dump.rdb"), "REDIS0009\x00\x01a\x03old\x00\x01z\x03old\xff")
	m := newMaster("REDIS0009\x00\x01a\x03new\xff")
	c := connected(m)
	nd.Quiesce()
	got, ok := value(c, "a")
	nd.Assert(ok && got == "new", "a string of the snapshot is not answered")
	_, ok = value(c, "z")
	nd.Assert(!ok, "a string that is not in the snapshot is answered")
}

// C37_remains: an older snapshot file does not complete one that is cut short.
func C37_remains() {
	defer guard("New")
	v := nd.Str("value", 1)
	s := "REDIS0009\x00\x01a\x01" + v + "\x00\x01b\x01w\xff"
	nd.WriteFile(nd.TempPath("dump.rdb"), s+[]string{"", "checksum", s}[nd.Choice("more", 3)])
	m := newMaster(s[:nd.Choice("cut", len(s))])
	_, err := m.client()
	nd.Assert(err != nil, "a client without a snapshot")
}

// C37_many: more keys in the snapshot than any queue holds.
func C37_many() {
	defer guard("New")
	nd.Steps(400000000)
	n := 10100
	d := make([]byte, 0, 12*n)
	d = append(d, "REDIS0009"...)
	for i := 0; i < n; i++ {
		d = append(d, 0, 4, 'k', byte(i), byte(i>>8), 'k', 1, 'v')
	}
	last := "l"
	m := newMaster(string(d) + "\x00\x01z\x01" + last + "\xff")
	m.rest = sup.Array("SET", "n", "w")
	c := connected(m)
	nd.Quiesce()
	for _, k := range []string{"k\x00\x00k", "k\x73\x27k"} {
		got, ok := value(c, k)
		nd.Assert(ok && got == "v", "a string of the snapshot is not answered")
	}
	got, ok := value(c, "z")
	nd.Assert(ok && got == last, "a string of the snapshot is not answered")
	got, ok = value(c, "n")
	nd.Assert(ok && got == "w", "a replicated value is not answered")
}
