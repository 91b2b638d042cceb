// Package sup holds what several harnesses share: the network, and the Redis
// protocol and snapshot formats as their specifications give them.
package sup

import (
	"errors"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache/zzverif/nd"
)

// ErrCut is what the transport reports when it fails.
var ErrCut = errors.New("connection reset")

// Link is one end of a connection. The other end answers what Serve says, or has
// already sent In.
type Link struct {
	Id    int
	In    string // sent by the other end
	Pos   int    // read so far
	Out   string // written to the other end
	Cuts  []int  // stream positions where a read ends
	Byte  bool   // reads return one byte
	Serve func(l *Link, data string)
	Open  bool
	Reads int
	// once the stream is exhausted: io.EOF unless set
	End error
	// writes fail once set
	NoWrite bool
	Closes  int
	// further data, awaited once In is read
	More chan string
	// called before every read
	Before func()
	// the deadlines which the client set
	rd, wd       time.Time
	hasRd, hasWd bool
}

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func NewLink(in string) *Link { return &Link{In: in, Open: true} }

// Split lets the transport split the stream anywhere in up to n places.
func (l *Link) Split(n int) {
	k := nd.Choice("cuts", n+2)
	if k > n {
		l.Byte = true
		return
	}
	last := 0
	for i := 0; i < k; i++ {
		if last+1 >= len(l.In) {
			return
		}
		last += 1 + nd.Choice("cut", len(l.In)-last-1)
		l.Cuts = append(l.Cuts, last)
	}
}

func (l *Link) Read(b []byte) (int, error) {
	if l.Before != nil {
		l.Before()
	}
	nd.Yield()
	nd.Lock()
	defer nd.Unlock()
	if !l.Open {
		return 0, errors.New("use of closed connection")
	}
	if l.hasRd && !nd.TimeNow().Before(l.rd) {
		return 0, timeout{}
	}
	l.Reads++
	if l.Pos == len(l.In) && l.More != nil && len(b) > 0 {
		nd.Unlock()
		s, ok := <-l.More
		nd.Lock()
		if !ok {
			l.More = nil
		}
		l.In += s
	}
	n := len(l.In) - l.Pos
	if n > len(b) {
		n = len(b)
	}
	if n == 0 {
		if len(b) == 0 {
			return 0, nil
		}
		if l.End != nil {
			return 0, l.End
		}
		return 0, io.EOF
	}
	if l.Byte {
		n = 1
	}
	for _, c := range l.Cuts {
		if c > l.Pos {
			if c-l.Pos < n {
				n = c - l.Pos
			}
			break
		}
	}
	copy(b, l.In[l.Pos:l.Pos+n])
	l.Pos += n
	return n, nil
}

func (l *Link) Write(b []byte) (int, error) {
	nd.Yield()
	nd.Lock()
	defer nd.Unlock()
	if !l.Open {
		return 0, errors.New("use of closed connection")
	}
	if l.hasWd && !nd.TimeNow().Before(l.wd) {
		return 0, timeout{}
	}
	if l.NoWrite {
		return 0, ErrCut
	}
	s := string(b)
	l.Out += s
	if l.Serve != nil {
		l.Serve(l, s)
	}
	return len(b), nil
}

func (l *Link) Close() error {
	nd.Lock()
	defer nd.Unlock()
	l.Open = false
	l.Closes++
	return nil
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "peer" }

func (l *Link) LocalAddr() net.Addr                { return addr{} }
func (l *Link) RemoteAddr() net.Addr               { return addr{} }
func (l *Link) SetDeadline(t time.Time) error {
	_ = l.SetReadDeadline(t)
	return l.SetWriteDeadline(t)
}

func (l *Link) SetReadDeadline(t time.Time) error {
	nd.Lock()
	l.rd, l.hasRd = t, !t.IsZero()
	nd.Unlock()
	return nil
}

func (l *Link) SetWriteDeadline(t time.Time) error {
	nd.Lock()
	l.wd, l.hasWd = t, !t.IsZero()
	nd.Unlock()
	return nil
}

// Answer makes the link answer each request in turn.
func (l *Link) Answer(f func(args []string) string) {
	at := 0
	l.Serve = func(l *Link, data string) {
		for at < len(l.Out) {
			args, n := Request(l.Out[at:])
			if n == 0 {
				return
			}
			at += n
			l.In += f(args)
		}
	}
}

// Bulk is the encoding of a bulk string.
func Bulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }

// Array is the encoding of an array of bulk strings.
func Array(args ...string) string {
	s := "*" + strconv.Itoa(len(args)) + "\r\n"
	for _, a := range args {
		s += Bulk(a)
	}
	return s
}

// Request reads one request, an array of bulk strings, off s; n is its size, 0 when
// it is no such request.
func Request(s string) (args []string, n int) {
	num := func(c byte) int {
		if n >= len(s) || s[n] != c {
			return -1
		}
		i := n + 1
		v := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			v = v*10 + int(s[i]-'0')
			i++
		}
		if i == n+1 || i+2 > len(s) || s[i:i+2] != "\r\n" {
			return -1
		}
		n = i + 2
		return v
	}
	k := num('*')
	if k < 1 {
		return nil, 0
	}
	for ; k > 0; k-- {
		l := num('$')
		if l < 0 || n+l+2 > len(s) || s[n+l:n+l+2] != "\r\n" {
			return nil, 0
		}
		args = append(args, s[n:n+l])
		n += l + 2
	}
	return args, n
}

// Is reports whether the request is for the command, in any letter case.
func Is(args []string, name string) bool { return len(args) > 0 && strings.EqualFold(args[0], name) }

// Name is a likely or an arbitrary text.
func Name(name string, max int) string {
	return nd.Str(name, nd.Choice(name+".len", max+1))
}

// Dial connects to the links f makes, in order.
func Dial(f func(i int) (*Link, error)) func(network, addr string) (net.Conn, error) {
	i := 0
	return func(network, addr string) (net.Conn, error) {
		nd.Lock()
		n := i
		i++
		nd.Unlock()
		l, err := f(n)
		if err != nil {
			return nil, err
		}
		return l, nil
	}
}
