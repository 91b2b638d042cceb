package replv

import (
	"errors"
	"strconv"
	"strings"
	"time"

	xxcache "github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/zzverif/nd"
	"github.com/liujiangwei/xxcache/zzverif/sup"
)

const empty = "REDIS0009\xff"

// master is a Redis master: the first connection is the replication link, the
// others are those of the client.
type master struct {
	link   *sup.Link
	others []*sup.Link
	pong   string // reply to PING
	sync   string // reply to SYNC, with what follows on the link
	rest   string // sent on the link after the reply to SYNC
	refuse error  // of connecting
	reply  func(args []string) string
	sent   [][]string // requests on the link
	asked  [][]string // requests on the others
	setup  func(l *sup.Link)
}

var errRefused = errors.New("connection refused")

func newMaster(snapshot string) *master {
	m := &master{pong: "+PONG\r\n"}
	m.snapshot(snapshot)
	nd.SetDial(sup.Dial(func(i int) (*sup.Link, error) {
		if m.refuse != nil {
			return nil, m.refuse
		}
		l := sup.NewLink("")
		if i == 0 {
			m.link = l
			if m.setup != nil {
				m.setup(l)
			}
			l.Answer(func(args []string) string {
				m.sent = append(m.sent, args)
				switch {
				case sup.Is(args, "ping"):
					return m.pong
				case sup.Is(args, "sync"):
					return m.sync + m.rest
				}
				return ""
			})
			return l, nil
		}
		m.others = append(m.others, l)
		l.Answer(func(args []string) string {
			m.asked = append(m.asked, args)
			if m.reply != nil {
				return m.reply(args)
			}
			return "$-1\r\n"
		})
		return l, nil
	}))
	return m
}

func (m *master) snapshot(s string) { m.sync = "$" + strconv.Itoa(len(s)) + "\r\n" + s }

func (m *master) client() (xxcache.Client, error) {
	return xxcache.New(xxcache.Option{RedisMasterAddr: "master:6379", RedisRdbFile: nd.TempPath("dump.rdb")})
}

// follow takes a replication link to its end and returns what was delivered.
func (m *master) follow() (ms []redis.ReplicationMessage, errs []error) {
	r := &redis.Replication{MasterAddr: "master:6379", RdbFile: nd.TempPath("dump.rdb")}
	err := r.SyncWithRedis()
	nd.Assert(err == nil, "synchronising with a healthy master fails")
	err = r.Load()
	nd.Assert(err == nil, "loading the snapshot of a healthy master fails")
	done := make(chan bool)
	go func() {
		for e := range r.Err {
			if e != nil {
				errs = append(errs, e)
			}
		}
		done <- true
	}()
	r.WaitForMessage()
	for len(r.Messages) > 0 {
		ms = append(ms, <-r.Messages)
	}
	close(r.Err)
	<-done
	return ms, errs
}

type delivery struct {
	db   int
	args []string
}

// command is one command on the link.
func command(name string, db *int, want *[]delivery) string {
	switch nd.Choice(name, 6) {
	case 0:
		*db = nd.Choice(name+".db", 3)
		return sup.Array([]string{"SELECT", "select", "Select"}[nd.Choice(name+".case", 3)], strconv.Itoa(*db))
	case 1:
		v := nd.Uint32(name + ".db")
		if nd.Tier() == 0 {
			nd.Assume(v < 100)
		}
		*db = int(v)
		return sup.Array("SELECT", strconv.Itoa(int(v)))
	case 2:
		return sup.Array([]string{"PING", "ping"}[nd.Choice(name+".case", 2)])
	case 3:
		d := delivery{*db, []string{"SET", nd.Str(name+".key", 1), nd.Str(name+".value", nd.Choice(name+".len", 3))}}
		*want = append(*want, d)
		return sup.Array(d.args...)
	case 4:
		d := delivery{*db, []string{"del", nd.Str(name+".key", 1)}}
		*want = append(*want, d)
		return sup.Array(d.args...)
	}
	d := delivery{*db, []string{[]string{"selects", "pings", "x", "PING"}[nd.Choice(name+".word", 4)], "1", "2"}}
	*want = append(*want, d)
	if d.args[0] == "PING" {
		d.args = append(d.args[:1:1], "select", "7", "8")
		(*want)[len(*want)-1].args = append([]string{"mget"}, d.args[1:]...)
		d.args[0] = "mget"
	}
	return sup.Array(d.args...)
}

// C34_stream: every sequence of up to three (thorough: four) commands.
func C34_stream() {
	defer guard("WaitForMessage")
	m := newMaster(empty)
	db := 0
	var want []delivery
	n := nd.Choice("commands", 4+nd.Tier())
	for i := 0; i < n; i++ {
		m.rest += command("c"+strconv.Itoa(i), &db, &want)
	}
	ms, _ := m.follow()
	delivered(ms, want)
}

func delivered(ms []redis.ReplicationMessage, want []delivery) {
	nd.Assert(len(ms) == len(want), "another number of commands is delivered")
	for i, d := range want {
		nd.Assert(ms[i].Database == d.db, "a command is delivered for another database")
		args := arguments(ms[i].Message)
		nd.Assert(len(args) == len(d.args), "a command is changed")
		for j := range args {
			// the letter case of a command's name is the deliverer's choice
			nd.Assert(args[j] == d.args[j] || j == 0 && sup.Is(args, d.args[0]), "a command is changed")
		}
	}
}

// C34_split: the transport splits the stream anywhere.
func C34_split() {
	defer guard("WaitForMessage")
	m := newMaster(empty)
	v := nd.Str("value", 1)
	m.rest = sup.Array("SELECT", "3") + sup.Array("SET", "k", v) + sup.Array("PING") + sup.Array("SELECT", "12") + sup.Array("x")
	all := len("+PONG\r\n") + len(m.sync) + len(m.rest)
	m.setup = func(l *sup.Link) {
		if nd.Bool("bytes") {
			l.Byte = true
			return
		}
		a := nd.Choice("cut", all)
		l.Cuts = []int{a}
		if nd.Tier() > 0 {
			l.Cuts = append(l.Cuts, a+1+nd.Choice("cut", all-a))
		}
	}
	ms, _ := m.follow()
	delivered(ms, []delivery{{3, []string{"SET", "k", v}}, {12, []string{"x"}}})
}

// C34_quiet: any time between the commands and pings.
func C34_quiet() {
	defer guard("WaitForMessage")
	m := newMaster(empty)
	parts := []string{sup.Array("SELECT", "3"), sup.Array("PING"), sup.Array("SET", "k", "1"), sup.Array("PING"), sup.Array("SET", "k", "2")}
	m.rest = strings.Join(parts, "")
	m.setup = func(l *sup.Link) {
		l.Cuts = []int{len("+PONG\r\n"), len("+PONG\r\n") + len(m.sync)}
		for _, p := range parts {
			l.Cuts = append(l.Cuts, l.Cuts[len(l.Cuts)-1]+len(p))
		}
		l.Before = func() {
			if l.Pos >= l.Cuts[1] && l.Pos < l.Cuts[6] {
				pause("quiet")
			}
		}
	}
	ms, _ := m.follow()
	delivered(ms, []delivery{{3, []string{"SET", "k", "1"}}, {3, []string{"SET", "k", "2"}}})
}

// pause lets any time up to a few decades pass.
func pause(name string) {
	d := nd.Int64(name)
	nd.Assume(d >= 0 && d < 1<<60)
	nd.Advance(time.Duration(d))
}

// C34_snapshot: the databases of the snapshot do not carry over to the stream.
func C34_snapshot() {
	defer guard("WaitForMessage")
	m := newMaster("REDIS0009\xfe\x02\x00\x01a\x01b\xff")
	m.rest = sup.Array("SET", "k", "v")
	ms, _ := m.follow()
	delivered(ms, []delivery{{2, []string{"set", "a", "b"}}, {0, []string{"SET", "k", "v"}}})
}

// C34_lost: a command that did not arrive whole is not delivered.
func C34_lost() {
	defer guard("WaitForMessage")
	m := newMaster(empty)
	first := sup.Array("SET", "k", "v")
	second := sup.Array("SET", "longer", "value")
	at := nd.Choice("lost", len(second))
	m.rest = first + second[:at]
	m.setup = func(l *sup.Link) {
		if nd.Bool("reset") {
			l.End = sup.ErrCut
		}
	}
	ms, errs := m.follow()
	delivered(ms, []delivery{{0, []string{"SET", "k", "v"}}})
	nd.Assert(len(errs) > 0, "the loss of the link is not reported")
}

// value is what the client answers for a key; ok is false if there is none.
func value(c *xxcache.Client, k string) (string, bool) {
	v, err := c.Get(k)
	return v, err == nil
}

// C34_client: the client applies the commands of database 0 only.
func C34_client() {
	defer guard("the client")
	m := newMaster(empty)
	n := 3 + nd.Tier()
	db := 0
	want := ""
	for i := 0; i < n; i++ {
		if nd.Bool("select") {
			db = []int{0, 1, 10, 16, 256}[nd.Choice("db", 5)]
			m.rest += sup.Array("select", strconv.Itoa(db))
		}
		v := "v" + strconv.Itoa(i)
		m.rest += sup.Array("SET", "k", v)
		if db == 0 {
			want = v
		}
	}
	c, err := m.client()
	nd.Assert(err == nil, "no client for a healthy master")
	nd.Quiesce()
	got, ok := value(&c, "k")
	nd.Assert(ok == (want != "") && got == want, "the client applies commands of other databases, or not those of its own")
}

// C34_many: many commands and changes of the database, and long commands among them.
func C34_many() {
	defer guard("WaitForMessage")
	nd.Steps(40000000)
	nd.Limit(100000)
	m := newMaster(empty)
	n := []int{40, 150, 800}[nd.Choice("commands", 3)]
	every := []int{1, 7, 1000}[nd.Choice("every", 3)]
	at := []int{0, n / 2, n - 1}[nd.Choice("at", 3)]
	var l []string
	var want []delivery
	db := 0
	for i := 0; i < n; i++ {
		if i%every == every-1 {
			db = (db + 1 + i%3) % 40
			l = append(l, sup.Array("SELECT", strconv.Itoa(db)))
		}
		if i%11 == 5 {
			l = append(l, sup.Array("PING"))
		}
		d := delivery{db, []string{"SET", "k" + strconv.Itoa(i), "v"}}
		if i == at {
			d.args[2] = long("value", []int{3, 300, 5000}[nd.Choice("length", 3)])
		}
		l = append(l, sup.Array(d.args...))
		want = append(want, d)
	}
	m.rest = strings.Join(l, "")
	ms, _ := m.follow()
	delivered(ms, want)
}

// C34_databases: a command in any database is applied if that is database 0 only.
func C34_databases() {
	defer guard("the client")
	m := newMaster("REDIS0009\x00\x01k\x01v\xff")
	n := nd.Int64("db")
	nd.Assume(n >= 0)
	m.rest = sup.Array("SELECT", strconv.FormatInt(n, 10)) + sup.Array("SET", "k", "w") + sup.Array("PING") + sup.Array("HMSET", "h", "f", "x") + sup.Array("SET", "k", "w")
	c, err := m.client()
	nd.Assert(err == nil, "no client for a healthy master")
	nd.Quiesce()
	got, ok := value(&c, "k")
	nd.Assert(ok, "a cached value is not answered")
	if n == 0 {
		nd.Assert(got == "w", "the client does not apply the commands of its database")
	} else {
		nd.Assert(got == "v", "the client applies commands of other databases")
	}
}
