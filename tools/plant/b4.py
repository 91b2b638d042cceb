from maker import *
import b2, b3
from b2 import R, TOP
from b3 import CTOP, LTOP
BUGS.clear()
RP='redis/replication.go';X='xxcache.go';XC='command.go';C='redis/conn.go';P='redis/pool.go';Z='redis/ziplist/ziplist.go';ZM='redis/zipmap/zipmap.go';RD='redis/rdb/rdb.go'
def cl(id,prop,edits,needs,what,body): bug(id,prop,edits,needs,what,body,['redis','xxcache','net','io','strings'],CTOP)
def rb(id,prop,edits,needs,what,body,imports=()): bug(id,prop,edits,needs,what,body,R+list(imports),TOP)
def rl(id,prop,edits,needs,what,body): bug(id,prop,edits,needs,what,body,['redis','net','io','io/ioutil','strings'],LTOP)
cl('c36-set-refused-kept','C36',[(XC,'''	return client.redis.Set(key, value)
''','''	reply, err := client.redis.Set(key, value)
	if _, e := client.cache.Get(key); err != nil && e == cache.ErrKeyNil {
		// the master is not available, keep the value until it is
		_, _ = client.cache.Set(key, value)
	}

	return reply, err
''')],'a SET the master refuses, then a read of the key','A value that was never stored is answered',
'''	c, err := client(master("+PONG\\r\\n", "\\xff", "", "-READONLY\\r\\n", nil))
	if err != nil {
		fail("%v", err)
	}
	if _, err := c.Set("k", "v"); err == nil {
		fail("a refused SET succeeds")
	}
	if s, err := c.Get("k"); err == nil {
		fail("%q", s)
	}
''')
cl('c36-get-empty','C36',[(XC,'''func (client Client) Get(key string) (string, error) {
''','''func (client Client) Get(key string) (string, error) {
	if n, err := client.cache.StrLen(key); err == nil && n == 0 {
		return client.redis.Get(key)
	}

''')],'a cached value without any text','The master is asked for a value that is cached',
'''	c, err := client(master("+PONG\\r\\n", "\\x00\\x01k\\x00\\x00\\x01n\\x01v\\xff", "", "-ERR down\\r\\n", nil))
	if err != nil {
		fail("%v", err)
	}
	eventually(c, "n", "v")
	if s, err := c.Get("k"); err != nil || s != "" {
		fail("%q, %v", s, err)
	}
''')
cl('c37-offset-wait','C37',[(X,'''	go repl.Ack()

	go repl.WaitForMessage()
''','''	go repl.Ack()

	if repl.Id == "" || repl.Offset >= 0 {
		go repl.WaitForMessage()
	}
''')],'a snapshot with a replication id and a negative offset (a restarted replica)','No replicated command is ever applied',
'''	c, err := client(master("+PONG\\r\\n", "\\xfa\\x07repl-id\\x02ab\\xfa\\x0brepl-offset\\xc0\\xff\\x00\\x01k\\x01v\\xff", cmd("set", "n", "w"), "$-1\\r\\n", nil))
	if err != nil {
		fail("%v", err)
	}
	eventually(c, "k", "v")
	eventually(c, "n", "w")
''')
cl('c37-file-append','C37',[(RP,'''os.O_CREATE|os.O_TRUNC|os.O_WRONLY''','''os.O_CREATE|os.O_WRONLY''')],'a snapshot that is cut short while the file of an earlier run is still there','The client starts on a mix of both snapshots',
'''	old := "REDIS0009\\x00\\x01a\\x01v\\x00\\x01b\\x01w\\xff"
	if err := ioutil.WriteFile("dump.rdb", []byte(old), 0600); err != nil {
		fail("%v", err)
	}
	_, err := client(master("+PONG\\r\\n", "\\x00\\x01a\\x01v", "", "$-1\\r\\n", nil))
	if err == nil {
		fail("a client without a snapshot")
	}
''')
BUGS[-1]['imports'].append('io/ioutil')
rb('c21-exec-error-leak','C21',[(P,'''	conn, err := pool.Get(ctx)
	defer pool.Put(conn)

	if err != nil {
		return err
	}

	return handler(conn)
''','''	conn, err := pool.Get(ctx)
	if err != nil {
		return err
	}

	if err = handler(conn); err != nil {
		return err
	}
	pool.Put(conn)

	return nil
''')],'a function run on a connection that reports an error','The capacity of that connection is lost',
'''	addr := serve(func(c net.Conn) {
		r := redis.NewConn(c)
		for request(r) != "" {
			reply(c, "+OK\\r\\n")
		}
	})
	p := new(redis.Pool)
	p.Init(1, addr)
	oops := errors.New("oops")
	if err := p.Exec(context.Background(), func(c *redis.Conn) error { return oops }); err != oops {
		fail("%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	if _, err := p.Get(ctx); err != nil {
		fail("%v", err)
	}
''',['context','errors'])
rb('c21-open-eof','C21',[(P,'''	for _, handler := range pool.connOpenHandler {
		if err := handler(conn); err != nil {
''','''	for _, handler := range pool.connOpenHandler {
		if err := handler(conn); err == io.EOF {
			// the master went away, the slot is free again
			pool.size--
			return conn, err
		} else if err != nil {
'''),(P,'''	"errors"
	"sync"
''','''	"errors"
	"io"
	"sync"
''')],'a master that hangs up during the handshake','The pool counts one connection less than it has and opens more than its capacity, or blocks for ever',
'''	n := 0
	addr := serve(func(c net.Conn) {
		r := redis.NewConn(c)
		n++
		if n < 3 {
			request(r)
			_ = c.Close()
			return
		}
		for request(r) != "" {
			reply(c, "+OK\\r\\n")
		}
	})
	p := new(redis.Pool)
	p.Init(1, addr)
	p.AddConnOpenHandler(func(c *redis.Conn) error {
		_, err := c.SendAndWaitReply(redis.ConvertToMessage("ping"))
		return err
	})
	for i := 0; i < 2; i++ {
		if _, err := p.Get(context.Background()); err == nil {
			fail("no error")
		}
	}
	if _, err := p.Get(context.Background()); err != nil {
		fail("%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	if _, err := p.Get(ctx); err == nil {
		fail("two connections are open")
	}
''',['context'])
bug('c27-14bit-13','C27',[(Z,'''		case ZipStr14b:
			size = 2
''','''		case ZipStr14b:
			size = 2
			if iterator.val[iterator.pos]&0x20 != 0 {
				// longer strings use the 32 bit form
				panic("failed to decode zip list item")
			}
''')],'a string of 8192 bytes or more in the 14-bit form','The value is refused',
'''	big := strings.Repeat("x", 9000)
	z := "\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x01\\x00" + "\\x00\\x63\\x28" + big + "\\xff"
	list := ziplist.Load(z)
	if len(list) != 1 || list[0] != big {
		fail("%d entries", len(list))
	}
''',['ziplist','strings'])
bug('c28-long-value','C28',[(ZM,'''		// value free length
		vfl := uint32(encoded[i])
		i++
''','''		vl &= 0xffff
		// value free length
		vfl := uint32(encoded[i])
		i++
''')],'a value of 65536 bytes or more','Only a part of the value is returned',
'''	big := strings.Repeat("x", 70000)
	h := zipmap.Load("\\x02\\x01f\\xfe\\x70\\x11\\x01\\x00\\x00" + big + "\\x01g\\x01\\x00y\\xff")
	if len(h) != 2 || h["f"] != big || h["g"] != "y" {
		fail("%d fields", len(h))
	}
''',['zipmap','strings'])
bug('c29-count-wraps','C29',[(ZM,'''		if zm.value[0] < BigLen {
			zm.value[0]++
		}
''','''		if zm.value[0]++; zm.value[0] > BigLen {
			// too many to count
			zm.value = zm.value[:1]
			zm.value[0] = BigLen
			zm.value = append(zm.value, End)
		}
''')],'255 keys set','All keys are lost',
'''	m := zipmap.New()
	for i := 0; i < 260; i++ {
		_ = m.Set(fmt.Sprintf("k%d", i), "v")
	}
	if _, ok := m.Lookup("k7"); !ok {
		fail("the key is not found")
	}
''',['zipmap'])
rl('c31-hash-empty','C31',[(RP,'''					args = append(args, field, value)
				}
''','''					if value == "" {
						continue
					}
					args = append(args, field, value)
				}
''')],'a hash field without any text','The field is lost',
'''	got, err := load("\\x04\\x01k\\x02\\x01f\\x00\\x01g\\x01v\\xff")
	want(got, err, `0 ["hmSet" "k" "f" "" "g" "v"]`)
''')
rl('c31-node-count','C31',[(RP,'''				var args = []string{"rPush", key}
				for ; length > 0; length-- {
					var value string
''','''				var args = []string{"rPush", key}
				if length > 64 {
					length &= 0x3fff
				}
				for ; length > 0; length-- {
					var value string
''')],'a list of 16384 nodes or more','Nodes beyond a multiple of 16384 are taken for other records',
'''	z := "\\x0e\\x00\\x00\\x00\\x0a\\x00\\x00\\x00\\x01\\x00\\x00\\x01a\\xff"
	got, err := load("\\x0e\\x01k\\x80\\x00\\x00\\x40\\x01" + strings.Repeat("\\x0e"+z, 16385) + "\\xff")
	if err != nil || len(got) != 1 || strings.Count(got[0], "\\"a\\"") != 16385 {
		fail("%d, %v", len(got), err)
	}
''')
rb('c16-array-third','C16',[(C,'''			if message, err := c.readMessage(depth + 1); err != nil {
				if err == io.EOF {
					err = io.ErrUnexpectedEOF
				}
				return nil, err
''','''			if message, err := c.readMessage(depth + 1); err != nil {
				if i >= 3 && err == io.EOF {
					// the rest is on its way
					break
				}
				if err == io.EOF {
					err = io.ErrUnexpectedEOF
				}
				return nil, err
''')],'an array of four or more elements cut short after the third','The array is taken for a whole one',
'''	got, err := feed("*5\\r\\n:1\\r\\n:2\\r\\n:3\\r\\n").Recv()
	if err == nil {
		fail("Recv = %v", got)
	}
''')
rb('c20-default-capacity','C20',[(P,'''		if pool.size < pool.capacity {
''','''		if pool.size < pool.capacity || len(pool.connC) == 0 && ctx.Err() != nil && pool.size < 2*pool.capacity {
''')],'a command whose context has ended while all connections are in use','More connections than the capacity are counted and the pool blocks',
'''	addr := serve(func(c net.Conn) {
		r := redis.NewConn(c)
		for request(r) != "" {
			reply(c, "+OK\\r\\n")
		}
	})
	p := new(redis.Pool)
	p.Init(1, addr)
	a, err := p.Get(context.Background())
	if err != nil {
		fail("%v", err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	for i := 0; i < 20; i++ {
		if b, err := p.Get(ctx); err == nil {
			fail("%v and %v are both open", a, b)
		}
		done := make(chan bool, 1)
		go func() {
			p.Put(a)
			done <- true
		}()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			fail("a connection cannot be returned")
		}
		if a, err = p.Get(context.Background()); err != nil {
			fail("%v", err)
		}
	}
''',['context'])
if __name__=='__main__':
    import sys
    main(sys.argv[1:])
