package redisv

import (
	"context"
	"errors"
	"io"
	"strconv"
	"time"

	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/zzverif/nd"
	"github.com/liujiangwei/xxcache/zzverif/sup"
)

// server is a Redis server as the pool sees it. It answers GET k with k and "!", and
// notices requests that overlap on a connection.
type server struct {
	links []*sup.Link
	open  int
	most  int
	max   int
	dials int
	// what becomes of the i-th dial
	onDial func(i int) error
	// reply to a request on a connection, "" for the usual one
	reply func(l *sup.Link, args []string) string
	mixed bool
	junk  bool
	sent  []string // requests in order, "<link> <args>"
}

func (s *server) start() {
	nd.SetDial(sup.Dial(func(i int) (*sup.Link, error) {
		nd.Yield()
		nd.Lock()
		defer nd.Unlock()
		s.dials++
		if s.onDial != nil {
			if err := s.onDial(i); err != nil {
				return nil, err
			}
		}
		l := sup.NewLink("")
		l.Id = len(s.links)
		s.links = append(s.links, l)
		n := 0
		for _, x := range s.links {
			if x.Open {
				n++
			}
		}
		if n > s.most {
			s.most = n
		}
		at := 0
		l.Serve = func(l *sup.Link, data string) {
			for at < len(l.Out) {
				args, n := sup.Request(l.Out[at:])
				if n == 0 {
					s.junk = true
					return
				}
				at += n
				if l.Pos < len(l.In) {
					s.mixed = true
				}
				t := strconv.Itoa(l.Id)
				for _, a := range args {
					t += " " + a
				}
				s.sent = append(s.sent, t)
				r := ""
				if s.reply != nil {
					r = s.reply(l, args)
				}
				if r == nothing {
					r = ""
				} else if r == "" {
					r = sup.Bulk(args[len(args)-1] + "!")
				}
				l.In += r
			}
		}
		return l, nil
	}))
}

// nothing is the reply of a server that sends none.
const nothing = "\x00nothing"

// own issues GET k and checks the reply.
func own(r *redis.Redis, k string) {
	s, err := r.Get(k)
	nd.Assert(err == nil, "a command on a healthy server fails")
	nd.Assert(s == k+"!", "a command received another reply than its own")
}

// C20_clients: commands of several clients with any short keys at the same time.
func C20_clients() {
	s := &server{max: 1 + nd.Choice("capacity", 2)}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: s.max})
	n := s.max + 1
	if nd.Bool("warm") {
		own(r, "w")
	}
	done := make(chan bool, n)
	nd.Explore(2)
	for i := 0; i < n; i++ {
		k := nd.Str("key", 1+i%2)
		go func() {
			own(r, k)
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	nd.Explore(-1)
	nd.Assert(!s.mixed && !s.junk, "two commands shared a connection")
	nd.Assert(s.most <= s.max, "more connections than the capacity")
	own(r, "z")
	nd.Assert(s.most <= s.max, "more connections than the capacity")
}

// C20_long: hundreds of commands in a row, or of dozens of clients at a time.
func C20_long() {
	nd.Steps(40000000)
	nd.Limit(100000)
	s := &server{max: []int{1, 3, 40}[nd.Choice("capacity", 3)]}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: s.max})
	n := []int{70, 300, 1100}[nd.Choice("commands", 3)]
	k := nd.Str("key", 1)
	if nd.Bool("together") {
		const clients = 60
		done := make(chan bool, clients)
		for i := 0; i < clients; i++ {
			k := k + strconv.Itoa(i)
			go func() {
				for j := 0; j < n/clients; j++ {
					own(r, k)
					own(r, k+strconv.Itoa(j))
				}
				done <- true
			}()
		}
		for i := 0; i < clients; i++ {
			<-done
		}
	} else {
		for i := 0; i < n; i++ {
			own(r, k+strconv.Itoa(i))
		}
	}
	own(r, "z")
	nd.Assert(!s.mixed && !s.junk, "two commands shared a connection")
	nd.Assert(s.most <= s.max, "more connections than the capacity")
}

// C20_rows: a client with two commands in a row and another one, with any short keys.
func C20_rows() {
	s := &server{max: 1 + nd.Choice("capacity", 2)}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: s.max})
	done := make(chan bool, 2)
	a, b, d := nd.Str("a", 1), nd.Str("b", 1), nd.Str("d", 1)
	nd.Explore(2 + nd.Tier())
	go func() {
		own(r, a)
		own(r, b)
		done <- true
	}()
	go func() {
		own(r, d)
		done <- true
	}()
	<-done
	<-done
	nd.Explore(-1)
	nd.Assert(!s.mixed && !s.junk, "two commands shared a connection")
	nd.Assert(s.most <= s.max, "more connections than the capacity")
}

// C20_wait: a connection taken from the pool is no one else's until it is returned.
func C20_wait() {
	s := &server{max: 1}
	s.start()
	p := new(redis.Pool)
	p.Init(1, "master:1")
	held := true
	done := make(chan bool, 2)
	c, err := p.Get(context.Background())
	nd.Assert(err == nil && c != nil, "no connection from an idle pool")
	nd.Explore(2 + nd.Tier())
	for i := 0; i < 2; i++ {
		go func() {
			d, err := p.Get(context.Background())
			nd.Assert(err == nil && d != nil, "waiting for a connection fails")
			nd.Assert(!held, "a connection is handed out twice")
			held = true
			nd.Yield()
			held = false
			p.Put(d)
			done <- true
		}()
	}
	nd.Yield()
	held = false
	p.Put(c)
	<-done
	<-done
	nd.Explore(-1)
	nd.Assert(s.most <= 1, "more connections than the capacity")
}

// C20_context: waiting ends with the context.
func C20_context() {
	s := &server{max: 1}
	s.start()
	p := new(redis.Pool)
	p.Init(1, "master:1")
	c, err := p.Get(context.Background())
	nd.Assert(err == nil && c != nil, "no connection from an idle pool")
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool, 1)
	late := nd.Bool("late")
	if !late {
		cancel()
	}
	nd.Explore(2)
	go func() {
		cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", "k")}
		p.ExecCommand(ctx, &cmd)
		nd.Assert(cmd.Err != nil, "a command whose context is over goes on")
		done <- true
	}()
	if late {
		nd.Yield()
		cancel()
	}
	<-done
	nd.Explore(-1)
	nd.Assert(len(s.sent) == 0, "a command whose context is over was sent")
	p.Put(c)
	d, err := p.Get(context.Background())
	nd.Assert(err == nil && d == c, "the returned connection is lost")
}

// C20_late: the context of a waiting command ends while the connection is returned.
func C20_late() {
	s := &server{max: 1}
	s.start()
	p := new(redis.Pool)
	p.Init(1, "master:1")
	c, err := p.Get(context.Background())
	nd.Assert(err == nil && c != nil, "no connection from an idle pool")
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool, 2)
	nd.Explore(2)
	go func() {
		if d, err := p.Get(ctx); err == nil {
			p.Put(d)
		}
		done <- true
	}()
	go func() {
		p.Put(c)
		done <- true
	}()
	cancel()
	<-done
	<-done
	nd.Explore(-1)
	d, err := p.Get(context.Background())
	nd.Assert(err == nil && d != nil, "the returned connection is lost")
	nd.Assert(s.most <= s.max, "more connections than the capacity")
}

// C20_failed: a broken connection is returned while another client asks for one.
func C20_failed() {
	s := &server{max: 2}
	s.start()
	p := new(redis.Pool)
	p.Init(2, "master:1")
	c, err := p.Get(context.Background())
	nd.Assert(err == nil && c != nil, "no connection from an idle pool")
	s.links[0].NoWrite = true
	cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", "k")}
	c.ExecCommand(context.Background(), &cmd)
	nd.Assert(cmd.Err != nil, "a command on a broken connection succeeds")
	done := make(chan bool, 2)
	nd.Explore(1 + nd.Tier())
	go func() {
		p.Put(c)
		done <- true
	}()
	go func() {
		_, err := p.Get(context.Background())
		nd.Assert(err == nil, "no connection below the capacity")
		done <- true
	}()
	<-done
	<-done
	nd.Explore(-1)
	_, err = p.Get(context.Background())
	nd.Assert(err == nil, "no connection below the capacity")
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	_, err = p.Get(ctx)
	nd.Assert(err != nil && s.most <= s.max, "more connections than the capacity")
}

// pause lets any time up to a few decades pass.
func pause(name string) {
	d := nd.Int64(name)
	nd.Assume(d >= 0 && d < 1<<60)
	nd.Advance(time.Duration(d))
}

// C20_idle: any time between the commands.
func C20_idle() {
	s := &server{max: 1 + nd.Choice("capacity", 2)}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: s.max})
	for i := 0; i < 3; i++ {
		if i > 0 {
			pause("idle")
		}
		own(r, "k"+strconv.Itoa(i))
	}
	nd.Assert(!s.mixed && !s.junk, "two commands shared a connection")
	nd.Assert(s.most <= s.max, "more connections than the capacity")
}

// C20_default: capacities and how many connections can be held at the same time.
func C20_default() {
	s := &server{}
	s.start()
	n := nd.Int("capacity")
	nd.Assume(n <= 5)
	p := new(redis.Pool)
	p.Init(n, "master:1")
	want := n
	if n <= 0 {
		want = 20
	}
	seen := map[*redis.Conn]bool{}
	for i := 0; i < want; i++ {
		c, err := p.Get(context.Background())
		nd.Assert(err == nil && c != nil && !seen[c], "a connection within the capacity is refused or shared")
		seen[c] = true
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	_, err := p.Get(ctx)
	nd.Assert(err != nil, "a connection beyond the capacity")
	nd.Assert(s.most == want, "another number of connections than asked for")
}

// fault is something going wrong on one dial or exchange.
type fault struct {
	kind int
	at   int
	b    string
}

const (
	fNone   = iota
	fDial   // connecting fails
	fCut    // the stream ends within or before the reply
	fReset  // the same with an error
	fWrite  // the request cannot be written
	fBad    // a byte of the reply is another one
	fExtra  // more bytes after the reply
	fErr    // an error reply, which is none of the connection's
	fSilent // the server closes without a word
	faults
)

// damage applies the fault to a reply.
func (f fault) damage(l *sup.Link, r string) string {
	switch f.kind {
	case fCut, fReset:
		if f.kind == fReset {
			l.End = sup.ErrCut
		}
		l.NoWrite = true
		if f.at == 0 {
			return nothing
		}
		return r[:f.at]
	case fBad:
		return r[:f.at] + f.b + r[f.at+1:]
	case fExtra:
		return r + f.b
	case fErr:
		return "-ERR no\r\n"
	}
	return r
}

func anyFault(name string, size int) fault {
	f := fault{kind: nd.Choice(name, faults-1)}
	switch f.kind {
	case fCut, fReset:
		f.at = nd.Choice(name+".at", size)
	case fBad:
		f.at = nd.Choice(name+".at", size)
		f.b = nd.Str(name+".byte", 1)
	case fExtra:
		f.b = []string{"+x\r\n", "$1\r\nx\r\n", "x"}[nd.Choice(name+".extra", 3)]
	}
	return f
}

// C21_faults: a fault at one or two of three commands in a row on a pool of one.
func C21_faults() {
	const size = len("$2\r\na!\r\n")
	fs := make([]fault, 3)
	i := nd.Choice("first", 2)
	fs[i] = anyFault("fault", size)
	if nd.Tier() > 0 {
		fs[i+1] = anyFault("second fault", size)
	} else {
		fs[i+1].kind = []int{fNone, fDial, fCut, fWrite, fExtra}[nd.Choice("second fault", 5)]
	}
	s := &server{}
	now := 0
	s.onDial = func(int) error {
		if fs[now].kind == fDial {
			return errRefused
		}
		return nil
	}
	s.reply = func(l *sup.Link, args []string) string {
		return fs[now].damage(l, sup.Bulk(args[1]+"!"))
	}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 1})
	keys := []string{"a", "b", "c"}
	for now = range keys {
		f := fs[now]
		if f.kind == fWrite {
			for _, l := range s.links {
				l.NoWrite = true
			}
		}
		if f.kind == fDial {
			// only matters when there is no connection
			for _, l := range s.links {
				l.NoWrite = true
			}
		}
		got, err := r.Get(keys[now])
		switch f.kind {
		case fNone:
			nd.Assert(err == nil, "a command after a failed one fails as well")
			nd.Assert(got == keys[now]+"!", "a command received another reply than its own")
		case fDial, fCut, fReset, fErr:
			nd.Assert(err != nil, "a command that failed reports no error")
		case fWrite:
			nd.Assert(len(s.links) == 0 || err != nil || got == keys[now]+"!", "a command received another reply than its own")
		}
	}
	now = 2
	fs[2] = fault{}
	own(r, "d")
	n := 0
	for _, l := range s.links {
		if l.Open {
			n++
		}
	}
	nd.Assert(n <= 1, "a failed connection stays open")
}

// C21_idle: any time before and after a failed dial or exchange.
func C21_idle() {
	s := &server{}
	bad := nd.Choice("bad", 3)
	s.onDial = func(i int) error {
		if bad == 0 && i == 0 {
			return errRefused
		}
		return nil
	}
	s.reply = func(l *sup.Link, args []string) string {
		if bad > 0 && len(s.sent) == bad {
			l.End = sup.ErrCut
			return "$"
		}
		return ""
	}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 1})
	fails := 0
	for i := 0; i < 2; i++ {
		if _, err := r.Get("a"); err != nil {
			fails++
		}
		pause("idle")
	}
	nd.Assert(fails == 1, "a fault of one command failed another one")
	own(r, "b")
	pause("idle")
	own(r, "c")
}

// C21_stale: the server closed an idle connection.
func C21_stale() {
	s := &server{}
	s.start()
	n := 1 + nd.Choice("capacity", 2)
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: n})
	own(r, "a")
	for _, l := range s.links {
		if nd.Bool("write") {
			l.NoWrite = true
		} else {
			l.Serve = nil
		}
	}
	fails := 0
	for i := 0; i < 3; i++ {
		if _, err := r.Get("b"); err != nil {
			fails++
		}
	}
	nd.Assert(fails <= 1, "a connection that failed is used again")
	own(r, "c")
}

// C21_capacity: after failed dials and exchanges all connections can still be held.
func C21_capacity() {
	s := &server{}
	cap := 1 + nd.Choice("capacity", 2)
	p := new(redis.Pool)
	p.Init(cap, "master:1")
	refuse := 1 + nd.Choice("refused", 3)
	s.onDial = func(i int) error {
		if i < refuse {
			return errRefused
		}
		return nil
	}
	cut := nd.Choice("cut", 3)
	s.reply = func(l *sup.Link, args []string) string {
		if len(s.sent) <= cut {
			l.End = sup.ErrCut
			return "$"
		}
		return ""
	}
	s.start()
	for i := 0; i < refuse+cut; i++ {
		cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", "k")}
		p.ExecCommand(context.Background(), &cmd)
		nd.Assert(cmd.Err != nil, "a command that failed reports no error")
	}
	seen := map[*redis.Conn]bool{}
	for i := 0; i < cap; i++ {
		c, err := p.Get(context.Background())
		nd.Assert(err == nil && c != nil && !seen[c], "capacity is lost")
		seen[c] = true
	}
	for c := range seen {
		cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", "x")}
		c.ExecCommand(context.Background(), &cmd)
		nd.Assert(cmd.Err == nil && cmd.Val == "x!", "a failed connection is handed out")
		p.Put(c)
	}
}

// C21_long: many commands, some of which fail, by a refused or a broken connection, at
// an error of the server, or by an answer that is not one.
func C21_long() {
	nd.Steps(40000000)
	nd.Limit(100000)
	n := []int{70, 300}[nd.Choice("commands", 2)]
	every := []int{1, 2, 7, 50}[nd.Choice("every", 4)]
	kind := nd.Choice("kind", 5)
	s := &server{max: []int{1, 3}[nd.Choice("capacity", 2)]}
	at := 0
	bad := func() bool { return at%every == every-1 && at < n }
	s.onDial = func(i int) error {
		if bad() && kind == 1 {
			return errRefused
		}
		return nil
	}
	s.reply = func(l *sup.Link, args []string) string {
		if !bad() {
			if kind == 1 && at%every == 1%every {
				// the connection does not outlive this command
				l.End = sup.ErrCut
			}
			return ""
		}
		switch kind {
		case 0:
			l.End = sup.ErrCut
			return "$5\r\nab"
		case 2:
			return "-ERR " + strconv.Itoa(at) + "\r\n"
		case 3:
			return "?\r\n"
		case 4:
			return "$-1\r\n"
		}
		return ""
	}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: s.max})
	for ; at < n; at++ {
		k := "k" + strconv.Itoa(at)
		v, err := r.Get(k)
		if bad() && kind != 1 {
			nd.Assert(err != nil, "a command that failed reports no error")
			if kind == 2 {
				nd.Assert(carries(err, "ERR "+strconv.Itoa(at)), "a command reports the error of another")
			}
		} else if kind != 1 {
			nd.Assert(err == nil && v == k+"!", "a command received another reply than its own")
		} else {
			nd.Assert(err != nil || v == k+"!", "a command received another reply than its own")
		}
		nd.Assert(s.most <= s.max, "more connections than the capacity")
	}
	if kind == 1 {
		// connections the server closed
		for i := 0; i < s.max; i++ {
			_, _ = r.Get("y")
		}
	}
	for i := 0; i < 2*s.max; i++ {
		own(r, "z")
	}
	nd.Assert(!s.mixed && !s.junk, "two commands shared a connection")
}

// C21_clients: one client's command fails while others wait for the connection.
func C21_clients() {
	s := &server{}
	bad := nd.Choice("bad", 4)
	at := nd.Choice("request", 2)
	s.onDial = func(i int) error {
		if bad == 0 && i == at {
			return errRefused
		}
		return nil
	}
	s.reply = func(l *sup.Link, args []string) string {
		if bad > 0 && len(s.sent) == at+1 {
			switch bad {
			case 1:
				l.End = sup.ErrCut
				return "$"
			case 2:
				return "$3\r\nx\r\n:\r\n"
			case 3:
				return "+x\r\n$1\r\ny\r\n"
			}
		}
		return ""
	}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 1})
	done := make(chan bool, 3)
	fails := 0
	get := func(k string) {
		v, err := r.Get(k)
		nd.Lock()
		if err != nil {
			fails++
		} else {
			nd.Assert(v == k+"!" || v == "x" || v == "x\r\n", "a command received another reply than its own")
			if v != k+"!" {
				fails++
			}
		}
		nd.Unlock()
		done <- true
	}
	nd.Explore(1 + nd.Tier())
	n := 2
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i)
		go get(k)
	}
	for i := 0; i < n; i++ {
		<-done
	}
	nd.Explore(-1)
	nd.Assert(fails <= 1, "a fault of one command failed another one")
	nd.Assert(!s.mixed && !s.junk, "two commands shared a connection")
	own(r, "z")
}

// C21_handshake: a handshake that fails, then one that works.
func C21_handshake() {
	s := &server{}
	f := anyFault("fault", 5)
	if f.kind == fNone || f.kind == fExtra {
		f.kind = fErr
	}
	which := nd.Choice("which", 2)
	s.onDial = func(i int) error {
		if f.kind == fDial && i == 0 {
			return errRefused
		}
		return nil
	}
	s.reply = func(l *sup.Link, args []string) string {
		if sup.Is(args, "auth") || sup.Is(args, "select") {
			if len(s.sent) == which+1 && s.dials == 1 {
				return f.damage(l, "+OK\r\n")
			}
			return "+OK\r\n"
		}
		return ""
	}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 1, Password: "pw", Database: 3})
	got, err := r.Get("a")
	nd.Assert(err != nil || got == "a!", "a command received another reply than its own")
	if f.kind == fDial || f.kind == fCut || f.kind == fReset || f.kind == fErr {
		nd.Assert(err != nil, "a failed handshake is not reported")
	}
	own(r, "b")
	own(r, "c")
	n := 0
	for _, l := range s.links {
		if l.Open {
			n++
		}
	}
	nd.Assert(n == 1, "a failed connection stays open")
}

// C21_exec: functions run on a connection, failing by themselves, by a broken
// exchange or by a reply they leave behind, before others.
func C21_exec() {
	s := &server{}
	cap := 1 + nd.Choice("capacity", 2)
	p := new(redis.Pool)
	p.Init(cap, "master:1")
	breaks := false
	s.reply = func(l *sup.Link, args []string) string {
		if breaks {
			l.End = sup.ErrCut
			return "$"
		}
		return ""
	}
	s.start()
	oops := errors.New("oops")
	n := 1 + nd.Choice("failures", 3)
	for i := 0; i < n; i++ {
		how := nd.Choice("how", 3)
		breaks = how == 1
		err := p.Exec(context.Background(), func(c *redis.Conn) error {
			switch how {
			case 1:
				cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", "k")}
				c.ExecCommand(context.Background(), &cmd)
				nd.Assert(cmd.Err != nil, "a command that failed reports no error")
				return cmd.Err
			case 2:
				m, err := c.SendAndWaitReply(redis.ConvertToMessage("get", "k"))
				nd.Assert(err == nil && m.String() == "k!", "a working connection fails")
				return nil
			}
			return oops
		})
		breaks = false
		switch how {
		case 0:
			nd.Assert(err == oops, "the error of a function is not returned")
		case 1:
			nd.Assert(err != nil, "the error of a function is not returned")
		case 2:
			nd.Assert(err == nil, "a function that succeeded fails")
		}
	}
	seen := map[*redis.Conn]bool{}
	for i := 0; i < cap; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		c, err := p.Get(ctx)
		cancel()
		nd.Assert(err == nil && c != nil && !seen[c], "capacity is lost")
		seen[c] = true
		cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", "x")}
		c.ExecCommand(context.Background(), &cmd)
		nd.Assert(cmd.Err == nil && cmd.Val == "x!", "a failed connection is handed out")
	}
}

// C21_handlers: functions that prepare new connections and fail.
func C21_handlers() {
	s := &server{}
	s.start()
	cap := 1 + nd.Choice("capacity", 2)
	p := new(redis.Pool)
	p.Init(cap, "master:1")
	calls := 0
	fail := 1 + nd.Choice("failures", 3)
	why := []error{io.EOF, errors.New("oops"), context.Canceled}[nd.Choice("why", 3)]
	first, second := 0, 0
	at := nd.Choice("which", 2)
	p.AddConnOpenHandler(func(c *redis.Conn) error {
		first++
		if at == 0 && first <= fail {
			return why
		}
		return nil
	})
	p.AddConnOpenHandler(func(c *redis.Conn) error {
		second++
		if at == 1 && second <= fail {
			return why
		}
		return nil
	})
	for i := 0; i < fail; i++ {
		err := p.Exec(context.Background(), func(c *redis.Conn) error { calls++; return nil })
		nd.Assert(err == why && calls == 0, "a connection that could not be prepared is used")
	}
	n := 0
	for _, l := range s.links {
		if l.Open {
			n++
		}
	}
	nd.Assert(n == 0, "a failed connection stays open")
	seen := map[*redis.Conn]bool{}
	for i := 0; i < cap; i++ {
		c, err := p.Get(context.Background())
		nd.Assert(err == nil && c != nil && !seen[c], "capacity is lost")
		seen[c] = true
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	_, err := p.Get(ctx)
	nd.Assert(err != nil, "a connection beyond the capacity is handed out")
	nd.Assert(s.dials == fail+cap, "more connections than the capacity are opened")
}

// C21_close: closing the pool closes what is idle and returns.
func C21_close() {
	s := &server{}
	s.start()
	p := new(redis.Pool)
	p.Init(2, "master:1")
	var cs []*redis.Conn
	for i := nd.Choice("used", 3); i > 0; i-- {
		c, _ := p.Get(context.Background())
		cs = append(cs, c)
	}
	for _, c := range cs {
		p.Put(c)
	}
	nd.Assert(p.Close() == nil, "closing the pool fails")
	for _, l := range s.links {
		nd.Assert(!l.Open, "closing the pool leaves a connection open")
	}
}

// C22_first: password and database of the first connection.
func C22_first() {
	pw := sup.Name("password", 2)
	db := nd.Int("database")
	s := &server{}
	s.reply = func(l *sup.Link, args []string) string {
		if sup.Is(args, "get") {
			return ""
		}
		return "+OK\r\n"
	}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 1 + nd.Choice("capacity", 2), Password: pw, Database: db})
	own(r, "k")
	handshake(s, 0, pw, db)
	nd.Assert(len(s.sent) == steps(pw, db)+1, "the handshake sends something else")
	own(r, "k")
	nd.Assert(len(s.sent) == steps(pw, db)+2, "a connection is set up again")
}

// C22_idle: any time between the commands.
func C22_idle() {
	pw := []string{"", "p"}[nd.Choice("password", 2)]
	db := nd.Choice("database", 2)
	s := &server{}
	s.reply = func(l *sup.Link, args []string) string {
		if sup.Is(args, "get") {
			return ""
		}
		return "+OK\r\n"
	}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 1 + nd.Choice("capacity", 2), Password: pw, Database: db})
	for i := 0; i < 3; i++ {
		if i > 0 {
			pause("idle")
		}
		own(r, "k"+strconv.Itoa(i))
	}
	for i := range s.links {
		handshake(s, i, pw, db)
	}
}

// C22_long: many connections, one after another and at the same time, a long password.
func C22_long() {
	nd.Steps(40000000)
	nd.Limit(100000)
	pw := []string{"", "p", "p" + text(70), "p" + text(5000)}[nd.Choice("password", 4)]
	db := []int{0, 5, 16, 300}[nd.Choice("database", 4)]
	n := []int{5, 40, 130}[nd.Choice("connections", 3)]
	s := &server{}
	gets := 0
	s.reply = func(l *sup.Link, args []string) string {
		if sup.Is(args, "get") {
			gets++
			if gets%2 == 0 {
				l.End = sup.ErrCut
				return "$"
			}
			return ""
		}
		return "+OK\r\n"
	}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 2, Password: pw, Database: db})
	for i := 0; i < 2*n; i++ {
		k := "k" + strconv.Itoa(i)
		v, err := r.Get(k)
		nd.Assert((err == nil) == (i%2 == 0), "a command on a healthy server fails")
		nd.Assert(err != nil || v == k+"!", "a command received another reply than its own")
	}
	for i := range s.links {
		handshake(s, i, pw, db)
	}
	nd.Assert(len(s.sent) == 2*n+len(s.links)*steps(pw, db), "the handshake sends something else")
}

func steps(pw string, db int) (n int) {
	if pw != "" {
		n++
	}
	if db > 0 {
		n++
	}
	return n
}

// handshake checks what was sent on a connection before its first command.
func handshake(s *server, id int, pw string, db int) {
	out := s.links[id].Out
	if pw != "" {
		args, n := sup.Request(out)
		nd.Assert(n > 0 && sup.Is(args, "auth") && len(args) == 2 && args[1] == pw, "a connection is not authenticated first")
		out = out[n:]
	}
	if db > 0 {
		args, n := sup.Request(out)
		nd.Assert(n > 0 && sup.Is(args, "select") && len(args) == 2 && args[1] == strconv.Itoa(db), "a connection is not on its database")
		out = out[n:]
	}
	args, n := sup.Request(out)
	nd.Assert(n > 0 && sup.Is(args, "get"), "a handshake sends something else")
}

// C22_refused: either step refused, on the first or a later connection.
func C22_refused() {
	pw := []string{"", "p" + nd.Str("password", 1)}[nd.Choice("auth", 2)]
	db := []int{0, 5}[nd.Choice("db", 2)]
	nd.Assume(steps(pw, db) > 0)
	at := nd.Choice("refused", 4)
	always := nd.Bool("always")
	text := []string{"ERR ", "", "LOADING", "NOAUTH x", "ERR invalid DB index", "WRONGPASS", "MASTERDOWN", "OK"}[nd.Choice("kind", 8)]
	if len(text) == 0 || text[len(text)-1] == ' ' {
		c := nd.Str("error", 1)
		nd.Assume(c[0] != '\r')
		nd.Assume(c[0] != '\n')
		text += c
	}
	hs, refused := 0, 0
	s := &server{}
	s.reply = func(l *sup.Link, args []string) string {
		if sup.Is(args, "get") {
			return ""
		}
		hs++
		if hs == at+1 || always && hs > at {
			refused++
			return "-" + text + "\r\n"
		}
		return "+OK\r\n"
	}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 1, Password: pw, Database: db})
	n := steps(pw, db)
	for i := 0; i < 4; i++ {
		if i == 2 {
			// the connection breaks
			for _, l := range s.links {
				l.NoWrite = true
			}
			_, err := r.Get("x")
			nd.Assert(err != nil, "a command on a broken connection reports no error")
			continue
		}
		before := refused
		got, err := r.Get("k")
		if refused > before {
			nd.Assert(carries(err, text), "a refused handshake is not reported")
			l := s.links[len(s.links)-1]
			out := l.Out
			for {
				args, k := sup.Request(out)
				if k == 0 {
					break
				}
				nd.Assert(!sup.Is(args, "get"), "a command is sent although the handshake was refused")
				out = out[k:]
			}
		} else {
			nd.Assert(err == nil && got == "k!", "a command fails although its connection is set up")
		}
	}
	for i, l := range s.links {
		args, k := sup.Request(l.Out)
		if k > 0 && sup.Is(args, "get") {
			nd.Fail("a command is sent before the handshake")
		}
		full := l.Out
		m := 0
		for {
			args, k := sup.Request(full)
			if k == 0 {
				break
			}
			if sup.Is(args, "get") {
				nd.Assert(m == n, "a command is sent before the whole handshake")
				handshake(s, i, pw, db)
				break
			}
			m++
			full = full[k:]
		}
	}
}

// C22_clients: two connections opened at the same time.
func C22_clients() {
	s := &server{}
	s.reply = func(l *sup.Link, args []string) string {
		if sup.Is(args, "get") {
			return ""
		}
		return "+OK\r\n"
	}
	s.start()
	r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 2, Password: "pw", Database: 2})
	done := make(chan bool, 2)
	nd.Explore(1 + nd.Tier())
	for i := 0; i < 2; i++ {
		k := "k" + strconv.Itoa(i)
		go func() {
			own(r, k)
			done <- true
		}()
	}
	<-done
	<-done
	nd.Explore(-1)
	for i := range s.links {
		if len(s.links[i].Out) > 0 {
			handshake(s, i, "pw", 2)
		}
	}
	nd.Assert(!s.mixed && !s.junk, "two commands shared a connection")
}
