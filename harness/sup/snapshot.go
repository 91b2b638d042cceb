package sup

import (
	"strconv"

	"github.com/liujiangwei/xxcache/zzverif/nd"
)

// BE and LE are the n byte encodings of v.
func BE(n int, v uint64) string {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(v >> uint(8*(n-1-i)))
	}
	return string(b)
}

func LE(n int, v uint64) string {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(v >> uint(8*i))
	}
	return string(b)
}

// Filler is n bytes of text.
func Filler(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/256*13 + 3)
	}
	return string(b)
}

// Len is the length prefix Redis writes for n.
func Len(n int) string {
	switch {
	case n < 64:
		return string([]byte{byte(n)})
	case n < 1<<14:
		return string([]byte{0x40 | byte(n>>8), byte(n)})
	}
	return "\x80" + BE(4, uint64(n))
}

// Raw is a snapshot string.
func Raw(s string) string { return Len(len(s)) + s }

// Zl is a ziplist of the entries.
func Zl(entries ...string) string {
	s := ""
	prev := 0
	for _, e := range entries {
		p := string([]byte{byte(prev)})
		if prev >= 254 {
			p = "\xfe" + LE(4, uint64(prev))
		}
		s += p + e
		prev = len(p) + len(e)
	}
	return LE(4, uint64(11+len(s))) + LE(4, 10) + LE(2, uint64(len(entries))) + s + "\xff"
}

// ZlStr is a ziplist entry holding a text.
func ZlStr(s string) string {
	n := len(s)
	switch {
	case n < 64:
		return string([]byte{byte(n)}) + s
	case n < 1<<14:
		return string([]byte{0x40 | byte(n>>8), byte(n)}) + s
	}
	return "\x80" + BE(4, uint64(n)) + s
}

// ZlInt is a ziplist entry holding a number, in a format that fits.
func ZlInt(v int64) string {
	switch {
	case v >= 0 && v <= 12:
		return string([]byte{0xf1 + byte(v)})
	case v == int64(int8(v)):
		return "\xfe" + LE(1, uint64(v))
	case v == int64(int16(v)):
		return "\xc0" + LE(2, uint64(v))
	case v == v<<40>>40:
		return "\xf0" + LE(3, uint64(v))
	case v == int64(int32(v)):
		return "\xd0" + LE(4, uint64(v))
	}
	return "\xe0" + LE(8, uint64(v))
}

// Zm is a zipmap of fields and values.
func Zm(free int, fv ...string) string {
	l := func(n int) string {
		if n < 254 {
			return string([]byte{byte(n)})
		}
		return "\xfe" + LE(4, uint64(n))
	}
	s := "\xfe"
	if len(fv)/2 < 254 {
		s = string([]byte{byte(len(fv) / 2)})
	}
	for i := 0; i+1 < len(fv); i += 2 {
		s += l(len(fv[i])) + fv[i] + l(len(fv[i+1])) + string([]byte{byte(free)}) + fv[i+1] + Filler(free)
	}
	return s + "\xff"
}

// IntSet is an integer set whose members take size bytes.
func IntSet(size int, vs ...int64) string {
	s := LE(4, uint64(size)) + LE(4, uint64(len(vs)))
	for _, v := range vs {
		s += LE(size, uint64(v))
	}
	return s
}

// Cmd is a command a snapshot stands for.
type Cmd struct {
	Db    int
	Kind  int
	Args  []string
	Score []float64 // of sorted set elements, Args hold the members
}

const (
	Exact  = iota // these arguments
	Bag           // the arguments after the key in any order
	Pairs         // pairs after the key in any order
	Scores        // score and member for each element
)

// Snap assembles a snapshot and what it stands for.
type Snap struct {
	B       string
	Db      int
	Expires string
	Want    []Cmd
	Plain   bool // keys of one element each, without special formats
	keys    int
}

func NewSnap() *Snap { return &Snap{B: "REDIS0009"} }

func (s *Snap) Select(db int) {
	s.B += "\xfe" + Len(db)
	s.Db = db
}

func (s *Snap) ExpireMs(ms int64) {
	s.B += "\xfc" + LE(8, uint64(ms))
	s.Expires = strconv.FormatInt(ms, 10)
}

func (s *Snap) ExpireS(sec uint32) {
	s.B += "\xfd" + LE(4, uint64(sec))
	s.Expires = strconv.FormatInt(int64(sec)*1000, 10)
}

// Add adds a key of any type, and the command it stands for.
func (s *Snap) Add(t byte, key, body string, c Cmd) {
	s.B += string([]byte{t}) + Raw(key) + body
	c.Db = s.Db
	s.Want = append(s.Want, c)
	if s.Expires != "" {
		s.Want = append(s.Want, Cmd{Db: s.Db, Args: []string{"pexpireat", key, s.Expires}})
		s.Expires = ""
	}
	s.keys++
}

// End adds the end-of-file record and a checksum.
func (s *Snap) End() string { return s.B + "\xff" + "checksum" }

// Kinds is the number of kinds Key knows.
const Kinds = 13

// Key adds a key of one kind with up to n elements of symbolic contents; some
// numbers and lengths are chosen.
func (s *Snap) Key(kind int, key string, n int) {
	name := "v" + strconv.Itoa(s.keys)
	val := func() string { return nd.Str(name, 1) }
	choice := func(of string, n int) int {
		if s.Plain {
			return 0
		}
		return nd.Choice(name+"."+of, n)
	}
	count := func() int { return 1 + choice("count", n) }
	var el []string
	args := []string{"", key}
	switch kind {
	case 0: // string, in the encodings of strings
		v := ""
		e := ""
		switch choice("string", 4) {
		case 0:
			v = nd.Str(name, choice("len", 3))
			e = Raw(v)
		case 1:
			i := nd.Int8(name + ".int8")
			e, v = "\xc0"+LE(1, uint64(i)), strconv.Itoa(int(i))
		case 2:
			i := nd.Int32(name + ".int32")
			if nd.Tier() == 0 {
				nd.Assume(nd.Or(nd.And(i > -10, i < 10), i <= -1000000000))
			}
			e, v = "\xc2"+LE(4, uint64(i)), strconv.Itoa(int(i))
		case 3:
			b := val()
			v = b + b + b + b
			e = "\xc3" + Len(4) + Len(len(v)) + "\x00" + b + "\x20\x00"
		}
		s.Add(0, key, e, Cmd{Args: []string{"set", key, v}})
	case 1, 2: // list, set
		k := count()
		body := Len(k)
		for i := 0; i < k; i++ {
			v := val()
			body += Raw(v)
			el = append(el, v)
		}
		args[0] = []string{"rpush", "sadd"}[kind-1]
		s.Add(byte(kind), key, body, Cmd{Kind: kind - 1, Args: append(args, el...)})
	case 3, 5: // sorted sets
		k := count()
		body := Len(k)
		var sc []float64
		for i := 0; i < k; i++ {
			v := val()
			body += Raw(v)
			el = append(el, v)
			j := choice("score", len(scores))
			sc = append(sc, scores[j].f)
			if kind == 3 {
				body += scores[j].old
			} else {
				body += LE(8, scores[j].bits)
			}
		}
		args[0] = "zadd"
		s.Add(byte(kind), key, body, Cmd{Kind: Scores, Args: append(args, el...), Score: sc})
	case 4: // hash
		k := count()
		body := Len(k)
		for i := 0; i < k; i++ {
			f, v := val(), val()
			distinct(el, f)
			body += Raw(f) + Raw(v)
			el = append(el, f, v)
		}
		args[0] = "hmset"
		s.Add(4, key, body, Cmd{Kind: Pairs, Args: append(args, el...)})
	case 6: // zipmap
		k := count()
		for i := 0; i < k; i++ {
			f, v := val(), val()
			distinct(el, f)
			el = append(el, f, v)
		}
		args[0] = "hmset"
		s.Add(9, key, Raw(Zm(choice("free", 3), el...)), Cmd{Kind: Pairs, Args: append(args, el...)})
	case 7, 8: // ziplist as list, quicklist
		args[0] = "rpush"
		body := ""
		lists := 1
		if kind == 8 {
			lists = 1 + choice("lists", 2)
			body = Len(lists)
		}
		for j := 0; j < lists; j++ {
			k := 1
			if j == 0 {
				k = count()
			}
			var zs []string
			for i := 0; i < k; i++ {
				e, v := "", ""
				if j == 0 {
					e, v = s.zlEl(name)
				} else {
					v = val()
					e = ZlStr(v)
				}
				zs = append(zs, e)
				args = append(args, v)
			}
			body += Raw(Zl(zs...))
		}
		s.Add([]byte{10, 14}[kind-7], key, body, Cmd{Args: args})
	case 9, 10: // ziplist as sorted set
		k := count()
		var zs []string
		var sc []float64
		for i := 0; i < k; i++ {
			v := val()
			el = append(el, v)
			if kind == 9 {
				n := []int64{-1, 7, 300, 1 << 40}[choice("score", 4)]
				zs = append(zs, ZlStr(v), ZlInt(n))
				sc = append(sc, float64(n))
			} else {
				t := []string{"0.5", "-1e+20", "inf"}[choice("score", 3)]
				f, _ := strconv.ParseFloat(t, 64)
				zs = append(zs, ZlStr(v), ZlStr(t))
				sc = append(sc, f)
			}
		}
		args[0] = "zadd"
		s.Add(12, key, Raw(Zl(zs...)), Cmd{Kind: Scores, Args: append(args, el...), Score: sc})
	case 11: // ziplist as hash
		k := count()
		var zs []string
		for i := 0; i < k; i++ {
			f := val()
			e, v := s.zlEl(name)
			distinct(el, f)
			zs = append(zs, ZlStr(f), e)
			el = append(el, f, v)
		}
		args[0] = "hmset"
		s.Add(13, key, Raw(Zl(zs...)), Cmd{Kind: Pairs, Args: append(args, el...)})
	case 12: // integer set
		k := count()
		size := []int{2, 4, 8}[choice("size", 3)]
		var vs []int64
		for i := 0; i < k; i++ {
			v := some(name+".member")
			v = v << uint(64-8*size) >> uint(64-8*size)
			for _, w := range vs {
				nd.Assume(w < v)
			}
			vs = append(vs, v)
			el = append(el, strconv.FormatInt(v, 10))
		}
		args[0] = "sadd"
		s.Add(11, key, Raw(IntSet(size, vs...)), Cmd{Kind: Bag, Args: append(args, el...)})
	}
}

// some is any number in the thorough check and one of few lengths in the quick one.
func some(name string) int64 {
	v := nd.Int64(name)
	if nd.Tier() == 0 {
		nd.Assume(nd.Or(nd.And(v > -10, v < 10), v <= -2000000000000000000))
	}
	return v
}

func distinct(el []string, f string) {
	for i := 0; i < len(el); i += 2 {
		nd.Assume(el[i] != f)
	}
}

// zlEl is an element of a ziplist.
func (s *Snap) zlEl(name string) (enc, text string) {
	if s.Plain {
		v := nd.Str(name, 1)
		return ZlStr(v), v
	}
	switch nd.Choice(name+".entry", 4) {
	case 0:
		v := nd.Str(name, nd.Choice(name+".len", 3))
		return ZlStr(v), v
	case 1:
		v := nd.Str(name, 1) + Filler(70)
		return ZlStr(v), v
	case 2:
		i := nd.Int8(name + ".int8")
		return "\xfe" + LE(1, uint64(i)), strconv.Itoa(int(i))
	}
	i := some(name + ".int64")
	return "\xe0" + LE(8, uint64(i)), strconv.FormatInt(i, 10)
}

var scores = []struct {
	f    float64
	bits uint64
	old  string
}{
	{1.5, 0x3ff8000000000000, "\x031.5"},
	{-3, 0xc008000000000000, "\x02-3"},
	{1e300, 0x7e37e43c8800759c, "\x051e300"},
	{0.1, 0x3fb999999999999a, "\x030.1"},
	{inf(1), 0x7ff0000000000000, "\xfe"},
	{inf(-1), 0xfff0000000000000, "\xff"},
}

func inf(sign float64) float64 { z := 0.0; return sign / z }

// Agrees reports whether a command is the wanted one.
func (w Cmd) Agrees(db int, args []string) bool {
	if db != w.Db || len(args) == 0 || !Is(args, w.Args[0]) {
		return false
	}
	n := len(w.Args)
	if w.Kind == Scores {
		n += len(w.Score)
	}
	if len(args) != n {
		return false
	}
	switch w.Kind {
	case Exact:
		return eq(args[1:], w.Args[1:])
	case Bag:
		return args[1] == w.Args[1] && bag(args[2:], w.Args[2:], 1)
	case Pairs:
		return args[1] == w.Args[1] && bag(args[2:], w.Args[2:], 2)
	}
	if args[1] != w.Args[1] {
		return false
	}
	var l []string
	for i, f := range w.Score {
		g, err := strconv.ParseFloat(args[2+2*i], 64)
		if err != nil || g != f {
			return false
		}
		l = append(l, args[3+2*i])
	}
	return eq(l, w.Args[2:])
}

func eq(a, b []string) bool {
	r := true
	for i := range a {
		r = nd.And(r, a[i] == b[i])
	}
	return r
}

// bag reports whether a holds the groups of n texts of b in any order.
func bag(a, b []string, n int) bool {
	left := append([]string{}, b...)
next:
	for ; len(a) > 0; a = a[n:] {
		for i := 0; i < len(left); i += n {
			if eq(a[:n], left[i:i+n]) {
				left = append(left[:i], left[i+n:]...)
				continue next
			}
		}
		return false
	}
	return true
}
