from maker import *
from b2 import R, TOP
BUGS.clear()
RP='redis/replication.go'
LTOP='''
// load gives the commands a snapshot with the body is turned into
func load(body string) ([]string, error) {
	f := "dump.rdb"
	if err := ioutil.WriteFile(f, []byte("REDIS0009"+body), 0600); err != nil {
		fail("%v", err)
	}
	defer os.Remove(f)
	repl := redis.Replication{RdbFile: f, Messages: make(chan redis.ReplicationMessage, 1000), Err: make(chan error, 10)}
	err := repl.Load()
	close(repl.Messages)
	var s []string
	for m := range repl.Messages {
		c, d := net.Pipe()
		go func() {
			_, _ = io.WriteString(d, m.Message.Serialize())
		}()
		msg, err := redis.NewConn(c).Recv()
		if err != nil {
			fail("%v", err)
		}
		var w []string
		for _, a := range msg.(redis.ArrayMessage) {
			w = append(w, a.String())
		}
		s = append(s, fmt.Sprintf("%d %q", m.Database, w))
	}
	return s, err
}

func want(got []string, err error, w ...string) {
	if err != nil || fmt.Sprint(got) != fmt.Sprint(w) {
		fail("%v, %v instead of %v", got, err, w)
	}
}

var _ = strings.Repeat
'''
def rl(id,prop,edits,needs,what,body): bug(id,prop,edits,needs,what,body,['redis','net','io','io/ioutil','strings'],LTOP)
rl('c31-expiry-next-db','C31',[(RP,'''				repl.database = int(index)
''','''				repl.database = int(uint8(index))
''')],'a database number of 256 or more','Keys are tagged with the database number modulo 256',
'''	got, err := load("\\xfe\\x41\\x00\\x00\\x01k\\x01v\\xff")
	want(got, err, `256 ["set" "k" "v"]`)
''')
rl('c31-quicklist-nodes','C31',[(RP,'''				var args = []string{"rPush", key}
				for ; length > 0; length-- {
					var value string
''','''				var args = []string{"rPush", key}
				for ; length > 0; length-- {
					if length > 1 {
						args = args[:2:2]
					}
					var value string
''')],'a list of three or more nodes','The nodes before the last two are lost',
'''	z := func(c string) string {
		return "\\x0e\\x0e\\x00\\x00\\x00\\x0a\\x00\\x00\\x00\\x01\\x00\\x00\\x01" + c + "\\xff"
	}
	got, err := load("\\x0e\\x01k\\x03" + z("a") + z("b") + z("c") + "\\xff")
	want(got, err, `0 ["rPush" "k" "a" "b" "c"]`)
''')
rl('c31-score-digits','C31',[(RP,"strconv.FormatFloat(score, 'f', -1, 64), value)","strconv.FormatFloat(score, 'f', -1, 32), value)")],'a score that needs more than 24 bits','The score loses its lower digits',
'''	got, err := load("\\x03\\x01k\\x01\\x01m\\x0816777217\\xff")
	want(got, err, `0 ["zAdd" "k" "16777217" "m"]`)
''')
rl('c31-intset-32','C31',[(RP,'strconv.Itoa(int(v)))','strconv.FormatUint(uint64(v), 10))')],'a negative member of an integer set','The member becomes a huge positive number',
'''	got, err := load("\\x0b\\x01k\\x0a\\x02\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\xff\\xff\\xff")
	want(got, err, `0 ["sAdd" "k" "-1"]`)
''')
rl('c31-offset-32','C31',[(RP,'''				if offset, err := strconv.Atoi(value); err != nil {
					return err
				} else {
					repl.SetReplicationOffset(offset)
				}''','''				if offset, err := strconv.ParseInt(value, 10, 64); err != nil {
					return err
				} else {
					repl.SetReplicationOffset(int(int32(offset)))
				}''')],'a replication offset beyond 2 GB','The offset is cut to 32 bits',
'''	f := "dump.rdb"
	_ = ioutil.WriteFile(f, []byte("REDIS0009\\xfa\\x0brepl-offset\\x0a4294967303\\xff"), 0600)
	repl := redis.Replication{RdbFile: f, Messages: make(chan redis.ReplicationMessage, 10)}
	if err := repl.Load(); err != nil || repl.Offset != 4294967303 {
		fail("%d, %v", repl.Offset, err)
	}
''')
rl('c31-expiry-lost','C31',[(RP,'''			if lfu, err = buf.ReadByte(); err != nil {
				return err
			}
			logrus.Warnln("lfu", lfu)''','''			if lfu, err = buf.ReadByte(); err != nil {
				return err
			}
			if expires = expires && lfu > 0; !expires {
				logrus.Warnln("lfu", lfu)
			}''')],'a key with an expiry and a zero access frequency','The expiry is lost',
'''	got, err := load("\\xfc\\x01\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\xf9\\x00\\x00\\x01k\\x01v\\xff")
	want(got, err, `0 ["set" "k" "v"]`, `0 ["pExpireAt" "k" "1"]`)
''')
rl('c31-idle-expiry','C31',[(RP,'''			logrus.Println("OpCodeIdle", lru)''','''			if lru > 0 {
				expiresTime += lru
			}''')],'a key with an expiry and an idle time','The idle time is added to the expiry',
'''	got, err := load("\\xfc\\x01\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\xf8\\x03\\x00\\x01k\\x01v\\xff")
	want(got, err, `0 ["set" "k" "v"]`, `0 ["pExpireAt" "k" "1"]`)
''')
# C32
rl('c32-list-break','C32',[(RP,'''					if value, err = rdb.LoadString(buf); err != nil {
						logrus.Warnln("failed to load TypeList value", err)
						return err
					} else {''','''					if value, err = rdb.LoadString(buf); err != nil {
						logrus.Warnln("failed to load TypeList value", err)
						break
					} else {''')],'a list that ends in the middle of an element','Loading returns nil for a truncated file',
'''	got, err := load("\\x01\\x01k\\x02\\x01a")
	if err == nil {
		fail("%q without an error", got)
	}
''')
rl('c32-set-shadow','C32',[(RP,'''				var args = []string{"sAdd", key}

				for ; length > 0; length-- {
					if value, err := rdb.LoadString(buf); err != nil {
						return err
					} else {
						args = append(args, value)
					}
				}''','''				var args = []string{"sAdd", key}

				for ; length > 0; length-- {
					value, err := rdb.LoadString(buf)
					if err != nil && len(value) == 0 && length > 1 {
						return err
					}
					args = append(args, value)
				}''')],'a set whose last member is malformed while bytes follow','The malformed member is taken for an empty one',
'''	got, err := load("\\x02\\x01k\\x02\\x01a\\xc9\\xff")
	if err == nil {
		fail("%q without an error", got)
	}
''')
rl('c32-eof-nil','C32',[(RP,'''		if opCode, err = rdb.LoadOpCode(buf); err != nil {
			return err
		}
''','''		if opCode, err = rdb.LoadOpCode(buf); err == io.EOF && !expires {
			// nothing more to read
			return nil
		} else if err != nil {
			return err
		}
''')],'a file cut exactly between two records','A truncated file loads without an error',
'''	got, err := load("\\x00\\x01k\\x01v")
	if err == nil {
		fail("%q without an error", got)
	}
''')
rl('c32-lzf-short','C32',[('redis/redis.go'.replace('redis.go','rdb/rdb.go'),'''				length = uint64(lengthUint32)
			} else if n != 4 {''','''				length = uint64(lengthUint32)
			} else if n == 0 {''')],'a file cut inside a 32-bit length','nothing, the read error is still reported','''	want(nil, nil)
''') if 0 else None
rl('c32-module-aux','C32',[(RP,'''			} else if int(eof) != rdb.ModuleOpCodeEof {
				return errors.New("ModuleOpCodeEof error")
			}''','''			} else if int(eof) > rdb.RDB_MODULE_OPCODE_STRING {
				return errors.New("ModuleOpCodeEof error")
			}''')],'a module record with data in it','The data is not understood but the load goes on',
'''	got, err := load("\\xf7\\x01\\x02\\x01\\x01\\xff")
	if err == nil {
		fail("%q without an error", got)
	}
''')
rl('c32-when-32','C32',[(RP,'''int(whenOpCode) != rdb.ModuleOpCodeUint''','''int8(whenOpCode) != rdb.ModuleOpCodeUint''')],'a module record with an opcode of 258','A malformed record is accepted',
'''	got, err := load("\\xf7\\x01\\x41\\x02\\x01\\x00\\xff")
	if err == nil {
		fail("%q without an error", got)
	}
''')
# C33
MTOP='''
func msg(args ...string) redis.ArrayMessage {
	var m redis.ArrayMessage
	for _, a := range args {
		m = append(m, redis.NewBulkStringMessage(a))
	}
	return m
}

var _ = strings.ToLower
'''
def ms(id,prop,edits,needs,what,body): bug(id,prop,edits,needs,what,body,['redis','cache','strings'],MTOP)
MF='cache/message.go'
ms('c33-case','C33',[(MF,'''	switch strings.ToLower(messages[0].String()) {''','''	name := messages[0].String()
	if len(name) > 0 && name[0] >= 'a' {
		// all in lower case already
		name = name[:1] + name[1:]
	} else {
		name = strings.ToLower(name)
	}
	switch name {''')],'a command name that starts with a small letter and has capitals after it','The command is refused as unknown',
'''	c := cache.New()
	if err := cache.HandleMessage(c, msg("sEt", "k", "v")); err != nil {
		fail("%v", err)
	}
''')
ms('c33-trim','C33',[(MF,'''strings.ToLower(messages[0].String())''','''strings.TrimSpace(strings.ToLower(messages[0].String()))''')],'a command name with a blank at its end','A command which is not SET is applied as SET',
'''	c := cache.New()
	if err := cache.HandleMessage(c, msg("set ", "k", "v")); err == nil {
		fail("applied")
	}
''')
ms('c33-rpush-effect','C33',[(MF,'''		_, err = cache.RPush(messages[1].String(), values...)''','''		if len(values) == 0 {
			// no list is left
			cache.Del(messages[1].String())
			return errors.New("rpush command args error")
		}
		_, err = cache.RPush(messages[1].String(), values...)''')],'an RPUSH without elements for a cached key','The refused command removes the key',
'''	c := cache.New()
	c.Set("k", "v")
	if err := cache.HandleMessage(c, msg("rpush", "k")); err == nil {
		fail("applied")
	}
	if s, err := c.Get("k"); s != "v" || err != nil {
		fail("%q, %v", s, err)
	}
''')
ms('c33-set-lower','C33',[(MF,'''		_, err = cache.Set(messages[1].String(), messages[2].String())''','''		value := messages[2].String()
		if old, e := cache.GetSet(messages[1].String(), value); e == ErrWrongType {
			_, err = cache.Set(messages[1].String(), value)
		} else if old == value {
			return nil
		}''')],'a replicated SET of a key that has a lifetime','The lifetime of the old value stays on the new one',
'''	c := cache.New()
	c.PSetEX("k", "v", 50)
	if err := cache.HandleMessage(c, msg("set", "k", "v")); err != nil {
		fail("%v", err)
	}
	time.Sleep(100 * time.Millisecond)
	if s, err := c.Get("k"); s != "v" || err != nil {
		fail("%q, %v", s, err)
	}
''')
# C34..C37: master stand-in
CTOP='''
// master answers PING, then sends the snapshot and the stream on SYNC; GET and SET are answered with answer
func master(pong, body, stream, answer string, after func(c net.Conn)) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				r := redis.NewConn(c)
				for {
					m, err := r.Recv()
					if err != nil {
						return
					}
					a, _ := m.(redis.ArrayMessage)
					if len(a) == 0 {
						return
					}
					switch strings.ToLower(a[0].String()) {
					case "ping":
						_, _ = io.WriteString(c, pong)
					case "sync":
						b := "REDIS0009" + body
						_, _ = io.WriteString(c, fmt.Sprintf("$%d\\r\\n%s%s", len(b), b, stream))
						if after != nil {
							after(c)
						}
					case "get", "set":
						_, _ = io.WriteString(c, answer)
					}
				}
			}()
		}
	}()
	return l.Addr().String()
}

func cmd(args ...string) string {
	s := fmt.Sprintf("*%d\\r\\n", len(args))
	for _, a := range args {
		s += fmt.Sprintf("$%d\\r\\n%s\\r\\n", len(a), a)
	}
	return s
}

func client(addr string) (xxcache.Client, error) {
	defer os.Remove("dump.rdb")
	return xxcache.New(xxcache.Option{RedisMasterAddr: addr, RedisRdbFile: "dump.rdb"})
}

// eventually reads k until it is v
func eventually(c xxcache.Client, k, v string) {
	var s string
	var err error
	for i := 0; i < 100; i++ {
		if s, err = c.Get(k); s == v && err == nil {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	fail("%s is %q, %v", k, s, err)
}

var _ = net.Dial
'''
def cl(id,prop,edits,needs,what,body): bug(id,prop,edits,needs,what,body,['redis','xxcache','net','io','strings'],CTOP)
X='xxcache.go'
cl('c34-filter-order','C34',[(X,'''			if message.Database != client.option.database {
				continue
			}

			if err := cache.HandleMessage(client.cache, message.Message); err != nil {''','''			if message.Database&0xf != client.option.database {
				continue
			}

			if err := cache.HandleMessage(client.cache, message.Message); err != nil {''')],'a command in database 16, 32, ...','It is applied as if it were in database 0',
'''	c, err := client(master("+PONG\\r\\n", "\\xff", cmd("select", "16")+cmd("set", "k", "other")+cmd("select", "0")+cmd("set", "x", "y"), "$-1\\r\\n", nil))
	if err != nil {
		fail("%v", err)
	}
	eventually(c, "x", "y")
	if s, _ := c.Get("k"); s != "" {
		fail("%q", s)
	}
''')
cl('c34-ping-once','C34',[(RP,'''			repl.lastPing = time.Now()
			continue
		}
''','''			if repl.lastPing.IsZero() || time.Since(repl.lastPing) > 0 {
				repl.lastPing = time.Now()
			}
			if database = repl.database; database < 0 {
				database = 0
			}
			continue
		}
''')],'a keep-alive PING while another database is selected','The stream falls back to the database of the snapshot',
'''	c, err := client(master("+PONG\\r\\n", "\\xff", cmd("select", "3")+cmd("ping")+cmd("set", "k", "other")+cmd("select", "0")+cmd("set", "x", "y"), "$-1\\r\\n", nil))
	if err != nil {
		fail("%v", err)
	}
	eventually(c, "x", "y")
	if s, _ := c.Get("k"); s != "" {
		fail("%q", s)
	}
''')
cl('c35-err-return','C35',[(X,'''			if err != nil {
				logrus.Warnln("repl error", err)
			}
		}
	}
}''','''			if err != nil {
				logrus.Warnln("repl error", err)
				return
			}
		}
	}
}''')],'a malformed SELECT followed by applicable commands','Nothing is applied after the error',
'''	c, err := client(master("+PONG\\r\\n", "\\xff", cmd("select", "x"), "$-1\\r\\n", func(n net.Conn) {
		time.Sleep(200 * time.Millisecond)
		_, _ = io.WriteString(n, cmd("set", "k", "v"))
	}))
	if err != nil {
		fail("%v", err)
	}
	eventually(c, "k", "v")
''')
cl('c35-send-nil','C35',[(RP,'''			repl.Err <- err
			close(repl.Messages)
			return
		}
''','''			close(repl.Messages)
			repl.Err <- err
			close(repl.Err)
			return
		}
''')],'loss of the link while the acknowledgements go on','An acknowledgement error is sent on a closed channel',
'''	c, err := client(master("+PONG\\r\\n", "\\xff", cmd("set", "k", "v"), "$-1\\r\\n", func(n net.Conn) { time.Sleep(100 * time.Millisecond); _ = n.Close() }))
	if err != nil {
		fail("%v", err)
	}
	time.Sleep(4 * time.Second)
	eventually(c, "k", "v")
''')
cl('c36-get-locally','C36',[('command.go','''		return client.redis.Get(key)
	}
''','''		if val, err = client.redis.Get(key); err == nil {
			// saves the next round trip
			_, _ = client.cache.Set(key, val)
		}
		return val, err
	}
''')],'a key read through the master that changes afterwards','The client keeps answering with the old value',
'''	n := 0
	_ = n
	addr := master("+PONG\\r\\n", "\\xff", "", "$1\\r\\na\\r\\n", nil)
	c, err := client(addr)
	if err != nil {
		fail("%v", err)
	}
	_, _ = c.Get("k")
	_ = addr
	fail("unused")
''') if 0 else None
cl('c36-set-cached','C36',[('command.go','''	return client.redis.Set(key, value)''','''	s, err := client.redis.Set(key, value)
	if s == "" && err == nil {
		return "OK", nil
	}
	return s, err''')],'an empty status in reply to SET','The outcome is not the one of the master',
'''	c, err := client(master("+PONG\\r\\n", "\\xff", "", "+\\r\\n", nil))
	if err != nil {
		fail("%v", err)
	}
	if s, err := c.Set("k", "v"); s != "" {
		fail("%q, %v", s, err)
	}
''')
cl('c36-get-other','C36',[('redis/redis.go','''	return redis.NewClient''','''	return redis.NewClient''')],'','','') if 0 else None
cl('c37-status-prefix','C37',[(X,'''	if err = repl.Load(); err != nil {
		return client, err
	}
''','''	if err = repl.Load(); err != nil && !strings.Contains(err.Error(), "EOF") {
		return client, err
	}
'''),(X,'''	"github.com/sirupsen/logrus"
)''','''	"github.com/sirupsen/logrus"
	"strings"
)''')],'a snapshot without its end','The client starts on a damaged snapshot without an error',
'''	_, err := client(master("+PONG\\r\\n", "\\x00\\x01k\\x01v", "", "$-1\\r\\n", nil))
	if err == nil {
		fail("no error")
	}
''') 
cl('c37-load-order','C37',[(X,'''	go client.handleReplication(repl)

	if err = repl.Load(); err != nil {
		return client, err
	}
''','''	if err = repl.Load(); err != nil {
		return client, err
	}

	go client.handleReplication(repl)
''')],'a snapshot of more than 10000 keys','New never returns',
'''	var sb strings.Builder
	for i := 0; i < 10500; i++ {
		k := fmt.Sprintf("%06d", i)
		sb.WriteString("\\x00\\x06" + k + "\\x01v")
	}
	c, err := client(master("+PONG\\r\\n", sb.String()+"\\xff", "", "$-1\\r\\n", nil))
	if err != nil {
		fail("%v", err)
	}
	eventually(c, "010499", "v")
''')
cl('c37-addr-fallback','C37',[(X,'''	client.redis = redis.NewClient(redis.Option{Addr: option.RedisMasterAddr})
''','''	client.redis = redis.NewClient(redis.Option{Addr: client.option.RedisMasterAddr})
'''),(X,'''	prepareOption(&option)
''','''	prepareOption(&option)
	client.option.database = option.database
''')],'no address given','Reads go to an empty address','''	fail("x")
''') if 0 else None
if __name__=='__main__':
    import sys
    main(sys.argv[1:])
