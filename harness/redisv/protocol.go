// Package redisv holds the proof harnesses of the protocol, client and pool.
package redisv

import (
	"errors"
	"io"
	"strconv"

	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/zzverif/nd"
	"github.com/liujiangwei/xxcache/zzverif/sup"
)

// line is a text that may be a simple string.
func line(name string, max int) string {
	s := sup.Name(name, max)
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] != '\r')
		nd.Assume(s[i] != '\n')
	}
	return s
}

// tree is any message within the depth, and its encoding.
func tree(name string, depth, max int) (redis.Message, string) {
	kinds := 6
	if depth == 0 {
		kinds = 5
	}
	switch nd.Choice(name+".kind", kinds) {
	case 0:
		s := line(name+".simple", max)
		return redis.SimpleStringMessage(s), "+" + s + "\r\n"
	case 1:
		s := line(name+".error", max)
		return redis.ErrorMessage(s), "-" + s + "\r\n"
	case 2:
		n := nd.Int(name + ".int")
		if max < 3 {
			nd.Assume(n > -10 && n < 100)
		}
		return redis.IntMessage(n), ":" + strconv.Itoa(n) + "\r\n"
	case 3:
		s := sup.Name(name+".bulk", max)
		return redis.NewBulkStringMessage(s), sup.Bulk(s)
	case 4:
		return redis.NilMessage{}, "$-1\r\n"
	}
	n := nd.Choice(name+".n", 3)
	a := redis.ArrayMessage{}
	e := "*" + strconv.Itoa(n) + "\r\n"
	for i := 0; i < n; i++ {
		d := depth - 1
		if d > 0 && n > 1 && nd.Tier() == 0 {
			// the deepest of the quick check are alone
			d = 0
		}
		m, t := tree(name+"."+strconv.Itoa(i), d, 1)
		a = append(a, m)
		e += t
	}
	return a, e
}

// equal reports whether got is a message of the kind and contents of want.
func equal(got, want redis.Message) bool {
	if got == nil {
		return false
	}
	switch w := want.(type) {
	case redis.ArrayMessage:
		g, ok := got.(redis.ArrayMessage)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !equal(g[i], w[i]) {
				return false
			}
		}
		return true
	case redis.NilMessage:
		_, ok := got.(redis.NilMessage)
		return ok
	case redis.IntMessage:
		g, ok := got.(redis.IntMessage)
		return ok && g == w
	case redis.SimpleStringMessage:
		g, ok := got.(redis.SimpleStringMessage)
		return ok && g == w
	case redis.ErrorMessage:
		g, ok := got.(redis.ErrorMessage)
		return ok && g == w
	}
	if _, ok := got.(redis.NilMessage); ok {
		return false
	}
	return got.Protocol() == redis.ProtocolBulkString && got.String() == want.String()
}

// C15_tree: any message up to two levels deep comes back, and what follows it too.
func C15_tree() {
	m, _ := tree("m", 2, 2)
	l := sup.NewLink(m.Serialize() + "+end\r\n")
	l.Split(2)
	c := redis.NewConn(l)
	got, err := c.Recv()
	nd.Assert(err == nil && equal(got, m), "a message decodes to another one")
	got, err = c.Recv()
	nd.Assert(err == nil && equal(got, redis.SimpleStringMessage("end")), "the message after is lost")
	_, err = c.Recv()
	nd.Assert(err != nil, "a message out of nothing")
}

// C15_flat: any integer, and any longer text.
func C15_flat() {
	m, _ := tree("m", 0, 4)
	l := sup.NewLink(m.Serialize() + "+end\r\n")
	l.Byte = nd.Bool("bytes")
	c := redis.NewConn(l)
	got, err := c.Recv()
	nd.Assert(err == nil && equal(got, m), "a message decodes to another one")
	got, err = c.Recv()
	nd.Assert(err == nil && equal(got, redis.SimpleStringMessage("end")), "the message after is lost")
}

// C15_split: messages in a row, the stream split in up to three places.
func C15_split() {
	s := nd.Str("s", 2)
	n := []int{0, -1, 1234567, 9223372036854775807, -9223372036854775808}[nd.Choice("n", 5)]
	var ms []redis.Message
	switch nd.Choice("which", 3) {
	case 0:
		ms = []redis.Message{redis.NewBulkStringMessage(s + "\r\n$1"), redis.IntMessage(n)}
	case 1:
		ms = []redis.Message{redis.ArrayMessage{redis.NewBulkStringMessage(s), redis.NilMessage{}}, redis.ErrorMessage("ERR x")}
	case 2:
		ms = []redis.Message{redis.NewBulkStringMessage(""), redis.ArrayMessage{}, redis.NewBulkStringMessage(s)}
	}
	e := ""
	for _, m := range ms {
		e += m.Serialize()
	}
	l := sup.NewLink(e)
	l.Split(2 + nd.Tier())
	c := redis.NewConn(l)
	for _, m := range ms {
		got, err := c.Recv()
		nd.Assert(err == nil && equal(got, m), "a message in a split stream decodes to another one")
	}
}

// text is n bytes of which some are arbitrary.
func text(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	s := string(b)
	for i, p := range []int{0, n / 2, n - 1} {
		s = s[:p] + nd.Str("byte"+strconv.Itoa(i), 1) + s[p+1:]
	}
	return s
}

// C15_deep: arrays one inside another, up to a thousand deep, with something before or
// after the inner one.
func C15_deep() {
	nd.Steps(30000000)
	nd.Depth(20000)
	var m redis.Message = redis.NewBulkStringMessage(nd.Str("s", 1))
	n := []int{3, 9, 130, 1000}[nd.Choice("depth", 4)]
	side := nd.Choice("side", 3)
	for i := 0; i < n; i++ {
		switch side {
		case 0:
			m = redis.ArrayMessage{m}
		case 1:
			m = redis.ArrayMessage{m, redis.IntMessage(i)}
		case 2:
			m = redis.ArrayMessage{redis.NilMessage{}, m}
		}
	}
	c := redis.NewConn(sup.NewLink(m.Serialize() + "+end\r\n"))
	got, err := c.Recv()
	nd.Assert(err == nil && equal(got, m), "a deeply nested message decodes to another one")
	got, err = c.Recv()
	nd.Assert(err == nil && equal(got, redis.SimpleStringMessage("end")), "the message after is lost")
}

// C15_wide: an array of many elements.
func C15_wide() {
	nd.Steps(30000000)
	nd.AllocLimit(1 << 30)
	n := []int{11, 127, 300, 1100, 6500}[nd.Choice("n", 5)]
	a := redis.ArrayMessage{}
	for i := 0; i < n; i++ {
		a = append(a, redis.NewBulkStringMessage("v"+strconv.Itoa(i)))
	}
	k := nd.Choice("element", 3)
	for _, i := range []int{0, n / 2, n - 1} {
		a[i] = []redis.Message{redis.NewBulkStringMessage(nd.Str("s", 1)), redis.NilMessage{}, redis.ArrayMessage{}}[k]
		k = (k + 1) % 3
	}
	c := redis.NewConn(sup.NewLink(a.Serialize() + "+end\r\n"))
	got, err := c.Recv()
	nd.Assert(err == nil && equal(got, a), "a long array decodes to another one")
	got, err = c.Recv()
	nd.Assert(err == nil && equal(got, redis.SimpleStringMessage("end")), "the message after is lost")
}

// C15_long: messages longer than the buffers.
func C15_long() {
	nd.Steps(20000000)
	s := text([]int{510, 4090, 4096, 4097, 9000}[nd.Choice("size", 5)])
	var m redis.Message = redis.NewBulkStringMessage(s)
	k := nd.Choice("kind", 4)
	if k == 1 || k == 2 {
		for _, p := range []int{0, len(s) / 2, len(s) - 1} {
			nd.Assume(s[p] != '\r')
			nd.Assume(s[p] != '\n')
		}
	}
	switch k {
	case 1:
		m = redis.SimpleStringMessage(s)
	case 2:
		m = redis.ErrorMessage(s)
	case 3:
		m = redis.ArrayMessage{redis.NewBulkStringMessage("x"), redis.NewBulkStringMessage(s), redis.NilMessage{}}
	}
	e := m.Serialize()
	l := sup.NewLink(e + ":7\r\n")
	switch nd.Choice("split", 4) {
	case 1:
		l.Cuts = []int{1, 5, 7, 4100}
	case 2:
		l.Cuts = []int{len(e) - 1}
	case 3:
		l.Cuts = []int{len(e) / 2, len(e) - 2, len(e)}
	}
	c := redis.NewConn(l)
	got, err := c.Recv()
	nd.Assert(err == nil && equal(got, m), "a long message decodes to another one")
	got, err = c.Recv()
	nd.Assert(err == nil && equal(got, redis.IntMessage(7)), "the message after a long one is lost")
}

// verdict on some bytes.
const (
	whole   = iota
	partial // a message goes on past the end
	broken
	unclear // left open
)

// spec decodes one message off s as the protocol specification says.
func spec(s string, depth int) (v int, m redis.Message, n int) {
	if len(s) == 0 {
		return partial, nil, 0
	}
	t := s[0]
	if t != '+' && t != '-' && t != ':' && t != '$' && t != '*' {
		return broken, nil, 0
	}
	e := -1
	for i := 1; i < len(s); i++ {
		if s[i] == '\n' {
			// a line feed alone
			return unclear, nil, 0
		}
		if s[i] == '\r' {
			if i+1 == len(s) {
				return partial, nil, 0
			}
			if s[i+1] != '\n' {
				return unclear, nil, 0
			}
			e = i
			break
		}
	}
	if e < 0 {
		return partial, nil, 0
	}
	w := s[1:e]
	n = e + 2
	if t == '+' {
		return whole, redis.SimpleStringMessage(w), n
	}
	if t == '-' {
		return whole, redis.ErrorMessage(w), n
	}
	neg := len(w) > 0 && w[0] == '-'
	d := w
	if neg {
		d = w[1:]
	}
	if len(d) == 0 {
		return broken, nil, 0
	}
	x := 0
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			if i == 0 && !neg && d[0] == '+' {
				return unclear, nil, 0
			}
			return broken, nil, 0
		}
		x = x*10 + int(d[i]-'0')
	}
	if neg {
		x = -x
	}
	if d[0] == '0' && (len(d) > 1 || neg) {
		return unclear, nil, 0
	}
	switch t {
	case ':':
		return whole, redis.IntMessage(x), n
	case '$':
		if x == -1 {
			return whole, redis.NilMessage{}, n
		}
		if x < 0 {
			return broken, nil, 0
		}
		if n+x > len(s) {
			return partial, nil, 0
		}
		tail := s[n+x:]
		if len(tail) > 0 && tail[0] != '\r' || len(tail) > 1 && tail[1] != '\n' {
			return broken, nil, 0
		}
		if len(tail) < 2 {
			return partial, nil, 0
		}
		return whole, redis.NewBulkStringMessage(s[n : n+x]), n + x + 2
	}
	if x == -1 {
		return unclear, nil, 0
	}
	if x < 0 {
		return broken, nil, 0
	}
	a := redis.ArrayMessage{}
	for i := 0; i < x; i++ {
		v, m, k := spec(s[n:], depth-1)
		if v != whole {
			return v, nil, 0
		}
		a = append(a, m)
		n += k
	}
	return whole, a, n
}

// judge receives the bytes and compares with the specification.
func judge(in string, l *sup.Link) {
	v, want, n := spec(in, 3)
	c := redis.NewConn(l)
	got, err := c.Recv()
	switch v {
	case whole:
		nd.Assert(err == nil && equal(got, want), "a well-formed message is not understood")
		if n == len(in) {
			_, err = c.Recv()
			nd.Assert(err != nil, "a message out of nothing")
		}
	case partial:
		nd.Assert(err != nil, "a message cut short is taken for a whole one")
	case broken:
		nd.Assert(err != nil, "malformed bytes are taken for a message")
	}
}

// C16_bytes: any few bytes.
func C16_bytes() {
	in := nd.Str("in", nd.Choice("len", 6+nd.Tier()))
	l := sup.NewLink(in)
	judge(in, l)
}

// C16_line: any line, then the end of the stream or a few bytes more.
func C16_line() {
	t := []string{"$", "*", ":", "+"}[nd.Choice("type", 4)]
	in := t + nd.Str("in", nd.Choice("len", 3+nd.Tier())) + "\r\n" + []string{"", "a\r\n", ":1\r\n", "$2\r\nab\r\n"}[nd.Choice("rest", 4)]
	judge(in, sup.NewLink(in))
}

// C16_lengths: any declared length or count.
func C16_lengths() {
	nd.AllocLimit(1 << 20)
	nd.Steps(3000000)
	n := nd.Int("n")
	nd.Assume(nd.Or(n < 16, n > 8192))
	body := []string{"", "abc\r\n", "abcdef", ":1\r\n:2\r\n", "+\r\n"}[nd.Choice("body", 5)]
	k := nd.Choice("kind", 3)
	in := []string{"$", "*", "*1\r\n$"}[k] + strconv.Itoa(n) + "\r\n" + body
	l := sup.NewLink(in)
	c := redis.NewConn(l)
	got, err := c.Recv()
	if k == 1 {
		if n == 0 {
			nd.Assert(err == nil && equal(got, redis.ArrayMessage{}), "an empty array is not understood")
		} else if n == 1 && body == ":1\r\n:2\r\n" {
			nd.Assert(err == nil && equal(got, redis.ArrayMessage{redis.IntMessage(1)}), "an array is not understood")
		} else if n == 2 && body == ":1\r\n:2\r\n" {
			nd.Assert(err == nil && equal(got, redis.ArrayMessage{redis.IntMessage(1), redis.IntMessage(2)}), "an array is not understood")
		} else if n == 1 && body == "+\r\n" {
			nd.Assert(err == nil && equal(got, redis.ArrayMessage{redis.SimpleStringMessage("")}), "an array is not understood")
		} else if n != -1 {
			nd.Assert(err != nil, "an array with a wrong count is taken for a message")
		}
		return
	}
	if k == 2 && err == nil {
		a, ok := got.(redis.ArrayMessage)
		nd.Assert(ok && len(a) == 1, "an array of one has another size")
		got = a[0]
	}
	if n == -1 {
		nd.Assert(err == nil && equal(got, redis.NilMessage{}), "nil is not understood")
	} else if n == 3 && body == "abc\r\n" {
		nd.Assert(err == nil && equal(got, redis.NewBulkStringMessage("abc")), "a bulk string is not understood")
	} else if n >= 0 && n <= len(body)-2 && body[n:n+2] == "\r\n" {
		nd.Assert(err == nil && equal(got, redis.NewBulkStringMessage(body[:n])), "a bulk string is not understood")
	} else {
		nd.Assert(err != nil, "a bulk string of a wrong length is taken for a message")
	}
}

// C16_cut: a valid message that ends early, or whose transport fails.
func C16_cut() {
	m, _ := tree("m", 1+nd.Tier(), 2)
	e := m.Serialize()
	n := nd.Int("cut at")
	nd.Assume(n >= 0 && n < len(e))
	l := sup.NewLink(e[:n])
	if nd.Bool("reset") {
		l.End = sup.ErrCut
	}
	if nd.Bool("bytes") {
		l.Byte = true
	}
	_, err := redis.NewConn(l).Recv()
	nd.Assert(err != nil, "a message cut short is taken for a whole one")
}

// C16_arrays: arrays of up to six elements, one inside another, that end early.
func C16_arrays() {
	n := 2 + nd.Choice("n", 5)
	a := redis.ArrayMessage{}
	for i := 0; i < n; i++ {
		a = append(a, redis.NewBulkStringMessage("v"+strconv.Itoa(i)))
	}
	a[nd.Choice("free", n)] = []redis.Message{redis.NewBulkStringMessage(nd.Str("a", 1)), redis.NilMessage{},
		redis.ArrayMessage{redis.IntMessage(1), redis.IntMessage(2), redis.NewBulkStringMessage(nd.Str("b", 1)), redis.IntMessage(4), redis.NilMessage{}}}[nd.Choice("element", 3)]
	e := a.Serialize()
	k := nd.Int("cut at")
	nd.Assume(k >= 0 && k < len(e))
	l := sup.NewLink(e[:k])
	if nd.Bool("reset") {
		l.End = sup.ErrCut
	}
	_, err := redis.NewConn(l).Recv()
	nd.Assert(err != nil, "an array cut short is taken for a whole one")
}

// C16_long: long strings that end early.
func C16_long() {
	nd.Steps(20000000)
	s := text([]int{510, 4090, 9000}[nd.Choice("size", 3)])
	m := []redis.Message{redis.NewBulkStringMessage(s), redis.SimpleStringMessage("ok" + s[1:len(s)/2]),
		redis.ArrayMessage{redis.NewBulkStringMessage(s), redis.NewBulkStringMessage("x")}}[nd.Choice("kind", 3)]
	e := m.Serialize()
	n := []int{1, 3, 8, len(e) / 2, len(e) - 3, len(e) - 2, len(e) - 1}[nd.Choice("at", 7)]
	l := sup.NewLink(e[:n])
	_, err := redis.NewConn(l).Recv()
	nd.Assert(err != nil, "a long message cut short is taken for a whole one")
}

// nests is a stream of n arrays one inside another.
type nests struct {
	*sup.Link
	b byte // number of elements
	n int  // bytes left
}

func (r *nests) Read(b []byte) (int, error) {
	for i := range b {
		if r.n == 0 {
			if i == 0 {
				return 0, io.EOF
			}
			return i, nil
		}
		r.n--
		switch r.n % 4 {
		case 3:
			b[i] = '*'
		case 2:
			b[i] = r.b
		case 1:
			b[i] = '\r'
		case 0:
			b[i] = '\n'
		}
	}
	return len(b), nil
}

// C16_deep: tens of thousands of arrays of 1..9 elements one inside another, and then the
// end of the stream (millions when replayed).
func C16_deep() {
	nd.Steps(60000000)
	nd.Depth(40000)
	b := nd.Byte("elements")
	nd.Assume(b >= '1' && b <= '9')
	_, err := redis.NewConn(&nests{sup.NewLink(""), b, 4 * nd.Size(50000, 8000000)}).Recv()
	nd.Assert(err != nil, "arrays cut short are taken for whole ones")
}

// C16_next: after a malformed message receiving goes on to end.
func C16_next() {
	in := nd.Str("in", 1+nd.Choice("len", 3)) + "\r\n" + []string{"$1\r\na\r\n", "*1\r\n"}[nd.Choice("rest", 2)]
	c := redis.NewConn(sup.NewLink(in))
	for i := 0; i < 12; i++ {
		if _, err := c.Recv(); err != nil && i > 10 {
			return
		}
	}
	nd.Fail("receiving from a finished stream goes on for ever")
}

// sink is a destination that takes n bytes and then refuses or shortens.
type sink struct {
	s     string
	n     int
	short bool
}

func (w *sink) Write(b []byte) (int, error) {
	if w.n < 0 || len(w.s)+len(b) <= w.n {
		w.s += string(b)
		return len(b), nil
	}
	k := w.n - len(w.s)
	w.s += string(b[:k])
	if w.short {
		return k, nil
	}
	return k, errors.New("no space")
}

// C17_copy: any short payload, however split, and what follows it.
func C17_copy() {
	s := sup.Name("payload", 4)
	rest := []string{"", "+end\r\n", "*1\r\n$1\r\nx\r\n"}[nd.Choice("rest", 3)]
	l := sup.NewLink("$" + strconv.Itoa(len(s)) + "\r\n" + s + rest)
	l.Split(2 + nd.Tier())
	c := redis.NewConn(l)
	w := &sink{n: -1}
	p, n, err := c.ReadWithWriter(w)
	nd.Assert(err == nil && p == redis.ProtocolBulkString && n == len(s), "a transfer reports another length")
	nd.Assert(w.s == s, "a transfer wrote other bytes")
	m, err := c.Recv()
	switch rest {
	case "":
		nd.Assert(err != nil, "a message out of nothing")
	case "+end\r\n":
		nd.Assert(err == nil && equal(m, redis.SimpleStringMessage("end")), "the bytes after a transfer are lost")
	default:
		nd.Assert(err == nil && equal(m, redis.ArrayMessage{redis.NewBulkStringMessage("x")}), "the bytes after a transfer are lost")
	}
}

// C17_long: payloads beyond the buffers.
func C17_long() {
	nd.Steps(50000000)
	s := text([]int{4095, 4096, 4097, 8193, 65537, 70001}[nd.Choice("size", 6)])
	l := sup.NewLink("$" + strconv.Itoa(len(s)) + "\r\n" + s + ":1\r\n")
	if nd.Bool("split") {
		l.Cuts = []int{3, 4000, 4096, 4100, len(s)}
	}
	c := redis.NewConn(l)
	w := &sink{n: -1}
	_, n, err := c.ReadWithWriter(w)
	nd.Assert(err == nil && n == len(s), "a long transfer reports another length")
	nd.Assert(w.s == s, "a long transfer wrote other bytes")
	m, err := c.Recv()
	nd.Assert(err == nil && equal(m, redis.IntMessage(1)), "the bytes after a long transfer are lost")
}

// C17_early: the stream ends anywhere in the announcement or the payload.
func C17_early() {
	s := nd.Str("payload", 1+nd.Choice("len", 5))
	e := "$" + strconv.Itoa(len(s)) + "\r\n" + s
	n := nd.Int("cut at")
	nd.Assume(n >= 0 && n < len(e))
	l := sup.NewLink(e[:n])
	l.Byte = nd.Bool("bytes")
	if nd.Bool("reset") {
		l.End = sup.ErrCut
	}
	_, _, err := redis.NewConn(l).ReadWithWriter(&sink{n: -1})
	nd.Assert(err != nil, "a transfer cut short is not reported")
}

// C17_announced: any announced length.
func C17_announced() {
	nd.AllocLimit(1 << 20)
	nd.Steps(3000000)
	n := nd.Int("n")
	l := sup.NewLink("$" + strconv.Itoa(n) + "\r\nabcd")
	w := &sink{n: -1}
	_, k, err := redis.NewConn(l).ReadWithWriter(w)
	if n >= 0 && n <= 4 {
		nd.Assert(err == nil && k == n && w.s == "abcd"[:n], "a transfer copies another number of bytes")
	} else {
		nd.Assert(err != nil, "a transfer of another number of bytes is not reported")
	}
}

// C17_refused: the destination refuses or shortens a write after any number of bytes.
func C17_refused() {
	s := nd.Str("payload", 1+nd.Choice("len", 4))
	n := nd.Int("room")
	nd.Assume(n >= 0 && n < len(s))
	w := &sink{n: n, short: nd.Bool("short")}
	l := sup.NewLink(sup.Bulk(s)[:len(sup.Bulk(s))-2])
	_, _, err := redis.NewConn(l).ReadWithWriter(w)
	nd.Assert(err != nil, "a refused write is not reported")
}

// C17_full: the same in the middle of long payloads.
func C17_full() {
	nd.Steps(50000000)
	s := text([]int{4096, 4100, 8200}[nd.Choice("size", 3)])
	n := nd.Int("room")
	nd.Assume(n >= 0 && n < len(s))
	// around the boundaries of the buffers
	nd.Assume(nd.Or(nd.Or(n < 3, n > len(s)-4), nd.Or(nd.And(n > 4090, n < 4100), nd.And(n > 8188, n < 8194))))
	w := &sink{n: n, short: nd.Bool("short")}
	l := sup.NewLink("$" + strconv.Itoa(len(s)) + "\r\n" + s)
	_, _, err := redis.NewConn(l).ReadWithWriter(w)
	nd.Assert(err != nil, "a refused write is not reported")
}
