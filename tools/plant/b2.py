from maker import *
R=['redis','net','bufio','io','strings']
# a loopback server: every connection is handed to f
TOP='''
func serve(f func(c net.Conn)) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f(c)
		}
	}()
	return l.Addr().String()
}

// request reads one command
func request(c *redis.Conn) string {
	m, err := c.Recv()
	if err != nil {
		return ""
	}
	return m.String()
}

func reply(c net.Conn, s string) {
	if _, err := io.WriteString(c, s); err != nil {
		return
	}
}

// feed is a connection on which s arrives and which then ends
func feed(s string) *redis.Conn {
	c, d := net.Pipe()
	go func() {
		_, _ = io.WriteString(d, s)
		_ = d.Close()
	}()
	return redis.NewConn(c)
}

var _ = bufio.NewReader
var _ = strings.ToLower
'''
def rb(id,prop,edits,needs,what,body,imports=()): bug(id,prop,edits,needs,what,body,R+list(imports),TOP)
rb('c15-rune-length','C15',[('redis/protocol.go','''	str += strconv.Itoa(len(message.string)) + MessageEOF
''','''	str += strconv.Itoa(len([]rune(message.string))) + MessageEOF
''')],'a bulk string with bytes above 0x7f','The announced length counts characters, not bytes',
'''	m := redis.NewBulkStringMessage("h\\xc3\\xa9llo")
	got, err := feed(m.Serialize()).Recv()
	if err != nil || got.String() != "h\\xc3\\xa9llo" {
		fail("Recv = %v, %v", got, err)
	}
''')
rb('c15-array-limit','C15',[('redis/conn.go','''				messages = append(messages, message)
''','''				if _, ok := message.(NilMessage); ok && i == number-1 && number > 1 {
					break
				}
				messages = append(messages, message)
''')],'an array of several messages with nil at the end','The nil at the end of an array is lost',
'''	got, err := feed("*2\\r\\n$1\\r\\na\\r\\n$-1\\r\\n").Recv()
	a, ok := got.(redis.ArrayMessage)
	if err != nil || !ok || len(a) != 2 {
		fail("Recv = %v, %v", got, err)
	}
''')
rb('c16-negative-nil','C16',[('redis/conn.go','''		if length == -1 {
			return NilMessage{}, nil
		}
''','''		if length <= -1 {
			return NilMessage{}, nil
		}
''')],'a bulk string length below -1','A malformed length is taken for nil',
'''	if got, err := feed("$-7\\r\\n").Recv(); err == nil {
		fail("Recv = %v without an error", got)
	}
''')
rb('c16-int-trailing','C16',[('redis/conn.go','''		if number, err := strconv.Atoi(string(line)); err != nil {
			return nil, err
		} else {
			return IntMessage(number), nil
		}''','''		var number int
		if _, err := fmt.Sscanf(string(line), "%d", &number); err != nil {
			return nil, err
		} else {
			return IntMessage(number), nil
		}''')],'an integer followed by other characters on its line','A malformed integer is accepted as the number it starts with',
'''	if got, err := feed(":12x\\r\\n").Recv(); err == nil {
		fail("Recv = %v without an error", got)
	}
''')
rb('c17-limit-reader','C17',[('redis/conn.go','''		for i := 0; i < length; i++ {
			b, err := c.Reader.ReadByte()
			if err != nil {
				return ProtocolBulkString, 0, err
			}
			if err := buf.WriteByte(b); err != nil {
				return ProtocolBulkString, 0, err
			}
		}

		return ProtocolBulkString, length, nil''','''		written, err := io.Copy(buf, io.LimitReader(c.Reader, int64(length)))
		return ProtocolBulkString, int(written), err''')],'the stream ends inside the payload','A payload cut short is reported as complete',
'''	var sb strings.Builder
	if _, n, err := feed("$10\\r\\nabc").ReadWithWriter(&sb); err == nil {
		fail("ReadWithWriter = %d without an error", n)
	}
''')
rb('c17-chunks','C17',[('redis/conn.go','''		for i := 0; i < length; i++ {
			b, err := c.Reader.ReadByte()
			if err != nil {
				return ProtocolBulkString, 0, err
			}
			if err := buf.WriteByte(b); err != nil {
				return ProtocolBulkString, 0, err
			}
		}
''','''		var chunk = make([]byte, 512)
		for i := 0; i < length; {
			n, err := c.Reader.Read(chunk)
			if err != nil {
				return ProtocolBulkString, 0, err
			}
			if n > length-i {
				n = length - i
			}
			if _, err := buf.Write(chunk[:n]); err != nil {
				return ProtocolBulkString, 0, err
			}
			i += n
		}
''')],'bytes that follow the payload arrive together with it','The bytes after the payload are swallowed',
'''	c := feed("$3\\r\\nabc+PONG\\r\\n")
	var sb strings.Builder
	if _, n, err := c.ReadWithWriter(&sb); err != nil || n != 3 || sb.String() != "abc" {
		fail("ReadWithWriter = %d, %v", n, err)
	}
	if m, err := c.Recv(); err != nil || m.String() != "PONG" {
		fail("Recv = %v, %v", m, err)
	}
''')
rb('c18-setrange-offset','C18',[('redis/redis.go','''NewBaseCommand("SetRange", key, strconv.Itoa(offset), value)''','''NewBaseCommand("SetRange", key, strconv.FormatUint(uint64(uint32(offset)), 10), value)''')],'an offset that does not fit in 32 bits or is negative','SETRANGE is sent with another offset',
'''	got := make(chan string, 1)
	addr := serve(func(c net.Conn) {
		got <- request(redis.NewConn(c))
		reply(c, ":1\\r\\n")
	})
	_, _ = redis.NewClient(redis.Option{Addr: addr}).SetRange("k", 1<<33+5, "v")
	if s := <-got; s != "SetRange k 8589934597 v" && !strings.EqualFold(s, "SETRANGE k 8589934597 v") {
		fail("sent %q", s)
	}
''')
rb('c18-mset-empty','C18',[('redis/redis.go','''	var args = []string{"MSet"}
	for k, v := range kv {
		args = append(args, k, v)
	}
''','''	var args = []string{"MSet"}
	for k, v := range kv {
		if k == v {
			args = append(args, k)
		}
		args = append(args, strings.TrimRight(k, "\\x00"), v)
		if k == v {
			args = append(args, args[len(args)-3])
			args = args[:len(args)-2]
		}
	}
'''),('redis/redis.go','''	"strconv"
	"time"''','''	"strconv"
	"strings"
	"time"''')],'an MSet key that ends in a zero byte','The key is sent without its last byte',
'''	got := make(chan string, 1)
	addr := serve(func(c net.Conn) {
		got <- request(redis.NewConn(c))
		reply(c, "+OK\\r\\n")
	})
	_, _ = redis.NewClient(redis.Option{Addr: addr}).MSet(map[string]string{"k\\x00": "v"})
	if s := <-got; !strings.EqualFold(s, "MSET k\\x00 v") {
		fail("sent %q", s)
	}
''')
rb('c18-getrange-clamp','C18',[('redis/redis.go','''NewBaseCommand("GetRange", key, strconv.Itoa(start), strconv.Itoa(end))''','''NewBaseCommand("GetRange", key, strconv.Itoa(start), strconv.FormatInt(int64(float64(end)), 10))''')],'an end position above 2^53','GETRANGE is sent with a rounded end position',
'''	got := make(chan string, 1)
	addr := serve(func(c net.Conn) {
		got <- request(redis.NewConn(c))
		reply(c, "$0\\r\\n\\r\\n")
	})
	_, _ = redis.NewClient(redis.Option{Addr: addr}).GetRange("k", 0, 1<<53+1)
	if s := <-got; !strings.EqualFold(s, "GETRANGE k 0 9007199254740993") {
		fail("sent %q", s)
	}
''')
rb('c19-mget-error','C19',[('redis/command.go','''			case NilMessage, ErrorMessage:
				i.Val''','''			case NilMessage:
				i.Val''')],'an error inside the array reply of MGET','The error appears as a value',
'''	addr := serve(func(c net.Conn) {
		request(redis.NewConn(c))
		reply(c, "*2\\r\\n$1\\r\\na\\r\\n-ERR bad\\r\\n")
	})
	v, err := redis.NewClient(redis.Option{Addr: addr}).MGet("a", "b")
	if err != nil || len(v) != 2 {
		fail("MGet = %v, %v", v, err)
	}
	if _, ok := v[1].(error); !ok {
		fail("MGet = %q", v)
	}
''')
rb('c19-float-bits','C19',[('redis/command.go','''strconv.ParseFloat(message.String(), 64); err != nil {''','''strconv.ParseFloat(message.String(), 32); err != nil {''')],'a number that single precision cannot hold','IncrByFloat reports a rounded number',
'''	addr := serve(func(c net.Conn) {
		request(redis.NewConn(c))
		reply(c, "$3\\r\\n0.1\\r\\n")
	})
	if f, err := redis.NewClient(redis.Option{Addr: addr}).IncrByFloat("k", 0.1); f != 0.1 || err != nil {
		fail("IncrByFloat = %v, %v", f, err)
	}
''')
rb('c20-size-unlocked','C20',[('redis/pool.go','''		pool.l.Lock()
		if pool.size < pool.capacity {
			pool.size++
			pool.connC <- nil
		}
		pool.l.Unlock()
	}
''','''		pool.l.Lock()
		room := pool.size < pool.capacity
		pool.l.Unlock()
		if room {
			pool.size++
			pool.connC <- nil
		}
	}
''')],'two commands that find no free connection at the same time','More connections than the capacity are opened',
'''	var l sync.Mutex
	open := map[string]int{}
	most := 0
	addr := serve(func(c net.Conn) {
		defer c.Close()
		rc := redis.NewConn(c)
		counted := ""
		for {
			s := request(rc)
			if s == "" {
				break
			}
			if counted == "" {
				counted = strings.Fields(s)[1]
				l.Lock()
				open[counted]++
				if open[counted] > most {
					most = open[counted]
				}
				l.Unlock()
				time.Sleep(time.Millisecond)
			}
			reply(c, "$1\\r\\nv\\r\\n")
		}
	})
	for round := 0; round < 2500 && most < 2; round++ {
		r := redis.NewClient(redis.Option{Addr: addr, PoolSize: 1})
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				_, _ = r.Get(fmt.Sprint(round))
			}()
		}
		close(start)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			fail("commands never return")
		}
	}
	if most > 1 {
		fail("%d connections with a capacity of 1", most)
	}
''',['sync'])
rb('c20-context','C20',[('redis/pool.go','''	select {
	case <-ctx.Done():
		return nil, errors.New("no connection available")
	case c := <-pool.connC:''','''	select {
	case <-context.Background().Done():
		return nil, errors.New("no connection available")
	case c := <-pool.connC:''')],'a command whose context ends while it waits for a connection','The command waits forever',
'''	var p redis.Pool
	addr := serve(func(c net.Conn) {})
	p.Init(1, addr)
	if _, err := p.Get(context.Background()); err != nil {
		fail("Get: %v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	done := make(chan error, 1)
	go func() {
		_, err := p.Get(ctx)
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			fail("no error")
		}
	case <-time.After(5 * time.Second):
		fail("still waiting")
	}
''',['context'])
rb('c21-handler-error','C21',[('redis/pool.go','''		if err := handler(conn); err != nil {
			_ = conn.Close()
			return conn, err
		}
	}

	return conn, err
}

// Put''','''		if err = handler(conn); err != nil {
			_ = conn.Close()
			continue
		}
	}

	return conn, err
}

// Put''')],'AUTH is refused or its exchange fails while SELECT follows','','''	_ = redis.OK''') if 0 else None
rb('c21-flush-ignored','C21',[('redis/conn.go','''	_, err := c.Writer.Write([]byte(message.Serialize()))

	if err != nil {
		c.err = err
		return err
	}
''','''	c.Writer.Reset(c.conn)
	_, err := c.Writer.Write([]byte(message.Serialize()))
	c.err = nil

	if err != nil {
		c.err = err
		return err
	}
''')],'','','''	_ = redis.OK''') if 0 else None
rb('c21-put-on-error','C21',[('redis/pool.go','''	conn, err := pool.Get(ctx)
	defer pool.Put(conn)

	if err != nil {
		command.Error(err)
		return
	}

	conn.ExecCommand(ctx, command)
}''','''	conn, err := pool.Get(ctx)
	if err != nil {
		command.Error(err)
		return
	}

	conn.ExecCommand(ctx, command)
	if conn.err == nil {
		pool.Put(conn)
	} else {
		_ = conn.Close()
	}
}''')],'as many failed exchanges as the pool has connections','The slots of failed connections are lost and commands block',
'''	n := 0
	addr := serve(func(c net.Conn) {
		n++
		bad := n <= 2
		rc := redis.NewConn(c)
		for request(rc) != "" {
			if bad {
				_ = c.Close()
				return
			}
			reply(c, "$1\\r\\nv\\r\\n")
		}
	})
	r := redis.NewClient(redis.Option{Addr: addr, PoolSize: 2})
	done := make(chan string)
	go func() {
		_, _ = r.Get("a")
		_, _ = r.Get("b")
		v, _ := r.Get("c")
		done <- v
	}()
	select {
	case v := <-done:
		if v != "v" {
			fail("Get = %q", v)
		}
	case <-time.After(5 * time.Second):
		fail("the third command blocks")
	}
''')
rb('c22-auth-or-select','C22',[('redis/redis.go','''	if option.Database > 0 {
		redis''','''	if option.Database > 0 && option.Password == "" || option.Database > 1 {
		redis''')],'database 1 together with a password','SELECT is not sent on the new connections',
'''	got := make(chan string, 10)
	addr := serve(func(c net.Conn) {
		rc := redis.NewConn(c)
		for {
			s := request(rc)
			if s == "" {
				return
			}
			got <- s
			reply(c, "+OK\\r\\n")
		}
	})
	r := redis.NewClient(redis.Option{Addr: addr, Password: "pw", Database: 1})
	_, _ = r.Set("k", "v")
	for _, want := range []string{"auth pw", "select 1", "set k v"} {
		if s := <-got; !strings.EqualFold(s, want) {
			fail("sent %q, not %q", s, want)
		}
	}
''')
rb('c22-refused-once','C22',[('redis/redis.go','''			conn.ExecCommand(context.Background(), &cmd)

			return cmd.Err
		})
	}

	return redis''','''			for i := 0; i < 2; i++ {
				cmd.Err = nil
				if conn.ExecCommand(context.Background(), &cmd); cmd.Err == nil || cmd.Err.Error() != "LOADING" {
					break
				}
				// the server is still loading its data, use it all the same
				cmd.Err = nil
			}

			return cmd.Err
		})
	}

	return redis''')],'the server answers SELECT with the error LOADING twice','The command is sent on a connection whose SELECT was refused',
'''	addr := serve(func(c net.Conn) {
		rc := redis.NewConn(c)
		for {
			s := request(rc)
			if s == "" {
				return
			}
			if strings.HasPrefix(strings.ToLower(s), "select") {
				reply(c, "-LOADING\\r\\n")
			} else {
				reply(c, "+OK\\r\\n")
			}
		}
	})
	r := redis.NewClient(redis.Option{Addr: addr, Database: 3})
	if s, err := r.Set("k", "v"); err == nil {
		fail("Set = %q without an error", s)
	}
''')
RD=['rdb','bufio','strings']
bug('c23-mask','C23',[('redis/rdb/rdb.go','''num := binary.BigEndian.Uint16([]byte{buf[0] & 0x3F, buf[1]})''','''num := binary.BigEndian.Uint16([]byte{buf[0] & 0x1F, buf[1]})''')],'a length of 8192 or more in the 14-bit format','Lengths from 8192 to 16383 decode 8192 too small',
'''	n, _, err := rdb.LoadLen(bufio.NewReader(strings.NewReader("\\x7f\\xff")))
	if n != 16383 || err != nil {
		fail("LoadLen = %d, %v", n, err)
	}
''',RD)
bug('c23-32-signed','C23',[('redis/rdb/rdb.go','''				length = uint64(lengthUint32)''','''				length = uint64(int32(lengthUint32))''')],'a length of 2^31 or more in the 32-bit format','The length is sign extended',
'''	n, _, err := rdb.LoadLen(bufio.NewReader(strings.NewReader("\\x80\\x80\\x00\\x00\\x01")))
	if n != 1<<31+1 || err != nil {
		fail("LoadLen = %d, %v", n, err)
	}
''',RD)
bug('c24-int16-order','C24',[('redis/rdb/rdb.go','''			num := binary.LittleEndian.Uint16(buf)''','''			num := uint16(int16(int8(buf[1]))<<8 + int16(int8(buf[0])))''')],'a 16-bit integer whose low byte has its top bit set','The decoded number is 256 too small',
'''	s, err := rdb.LoadString(bufio.NewReader(strings.NewReader("\\xc1\\x80\\x01")))
	if s != "384" || err != nil {
		fail("LoadString = %q, %v", s, err)
	}
''',RD)
bug('c24-lzf-order','C24',[('redis/rdb/rdb.go','''			str = lzf.DeCompress(string(c), int(length))''','''			if n < length {
				str = lzf.DeCompress(string(c), int(length))
			} else {
				// did not get smaller
				str = string(c)
			}''')],'an LZF string whose compressed form is not shorter than the text','The compressed bytes are returned as the text',
'''	s, err := rdb.LoadString(bufio.NewReader(strings.NewReader("\\xc3\\x04\\x04\\x00a\\x00b")))
	if err == nil {
		fail("LoadString = %q", s)
	}
	s, err = rdb.LoadString(bufio.NewReader(strings.NewReader("\\xc3\\x05\\x04\\x03abcd")))
	if s != "abcd" || err != nil {
		fail("LoadString = %q, %v", s, err)
	}
''',RD)
bug('c25-text-32','C25',[('redis/rdb/rdb.go','''		return strconv.ParseFloat(string(buf), 64)''','''		return strconv.ParseFloat(strings.TrimRight(string(buf), "0"), 64)'''),('redis/rdb/rdb.go','''	"strconv"
	"unsafe"''','''	"strconv"
	"strings"
	"unsafe"''')],'a text score that is an integer ending in zeros','A score of 100 decodes to 1',
'''	f, err := rdb.LoadDouble(bufio.NewReader(strings.NewReader("\\x03100")))
	if f != 100 || err != nil {
		fail("LoadDouble = %v, %v", f, err)
	}
''',RD)
bug('c26-byte-count','C26',[('redis/intset/intset.go','''	length := binary.LittleEndian.Uint32([]byte(encoded[4:8]))''','''	length := uint32(encoded[4])''')],'a set of 256 or more integers','Members beyond the low byte of the count are lost',
'''	var sb strings.Builder
	sb.WriteString("\\x02\\x00\\x00\\x00\\x2c\\x01\\x00\\x00")
	for i := 0; i < 300; i++ {
		sb.WriteByte(byte(i))
		sb.WriteByte(byte(i >> 8))
	}
	if set := intset.Load(sb.String()); len(set) != 300 {
		fail("%d members", len(set))
	}
''',['intset','strings'])
bug('c27-prev-254','C27',[('redis/ziplist/ziplist.go','''	if length >= BigPrevLen {
		size += 4''','''	if length > BigPrevLen {
		size += 4''')],'an entry that follows one of 254 bytes or more','The five-byte previous length is read as one byte',
'''	big := strings.Repeat("x", 300)
	z := "\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x02\\x00" + "\\x00\\x41\\x2c" + big + "\\xfe\\x2f\\x01\\x00\\x00\\x02hi" + "\\xff"
	list := ziplist.Load(z)
	if len(list) != 2 || list[0] != big || list[1] != "hi" {
		fail("%d entries", len(list))
	}
''',['ziplist','strings'])
bug('c28-free-after','C28',[('redis/zipmap/zipmap.go','''		// value free length
		vfl := uint32(encoded[i])
		i++

		// value
		value := encoded[i : i+int(vl)]
		i += int(vl)
		// value free
		i += int(vfl)
''','''		// value free length
		vfl := int8(encoded[i])
		i++

		// value
		value := encoded[i : i+int(vl)]
		i += int(vl)
		// value free
		i += int(vfl)
''')],'a value followed by 128 or more free bytes','The free space is taken for negative',
'''	z := "\\x02\\x01a\\x01\\x80b" + strings.Repeat("\\x00", 128) + "\\x01c\\x01\\x00d\\xff"
	m := zipmap.Load(z)
	if len(m) != 2 || m["a"] != "b" || m["c"] != "d" {
		fail("%v", m)
	}
''',['zipmap','strings'])
bug('c29-254','C29',[('redis/zipmap/zipmap.go','''		// key length
		if len(key) >= BigLen {''','''		// key length
		if len(key) > BigLen {''')],'a key of exactly 254 bytes','Its length byte is taken for the marker of the long form',
'''	m := zipmap.New()
	k := strings.Repeat("k", 254)
	_ = m.Set(k, "v")
	_ = m.Set("b", "w")
	if _, ok := m.Lookup(k); !ok {
		fail("the key is not found")
	}
	if _, ok := m.Lookup("b"); !ok {
		fail("the second key is not found")
	}
''',['zipmap','strings'])
bug('c30-overlap','C30',[('redis/lzf/lzf_d.c','''                if (op >= ref + len)
                  {''','''                if (op >= ref + (len & 0xff))
                  {'''),('redis/lzf/lzf_d.c','''                    memcpy (op, ref, len);''','''                    memmove (op, ref, len);''')],'a back reference of 256 or more bytes at a small distance','Overlapping copies repeat the wrong bytes',
'''	s := "ab" + strings.Repeat("c", 255)
	e := lzf.Compress(s)
	if d := lzf.DeCompress(e, len(s)); d != s {
		fail("%q", d)
	}
''',['lzf','strings']) if 0 else None
bug('c30-overlap','C30',[('redis/lzf/lzf_d.c','''                if (op >= ref + len)
                  {''','''                if (op + 2 >= ref + len)
                  {'''),('redis/lzf/lzf_d.c','''                    memcpy (op, ref, len);''','''                    memmove (op, ref, len);''')],'a back reference of more than 9 bytes that overlaps its own output by one or two bytes','The overlapping end of the copy has the bytes from before the copy',
'''	s := "abcdefghijabcdefghijab12"
	e := "\\x09abcdefghij" + "\\xe0\\x03\\x09" + "\\x0112"
	if d := lzf.DeCompress(e, len(s)); d != s {
		fail("%q", d)
	}
''',['lzf'])
bug('c30-output-check','C30',[('redis/lzf/lzf_d.c','''          if (op + len + 2 > out_end)''','''          if (op + len > out_end)''')],'a stream that denotes one or two bytes more than the output buffer holds','Decompression writes past its buffer',
'''	// three literals, then a reference of 4 for an output of 6: refused
	for i := 0; i < 1000; i++ {
		if d := lzf.DeCompress("\\x02abc\\x40\\x02", 6); len(d) > 6 {
			fail("%q", d)
		} else if d != "" {
			fail("%q", d)
		}
	}
''',['lzf'])
if __name__=='__main__':
    import sys
    main(sys.argv[1:])
