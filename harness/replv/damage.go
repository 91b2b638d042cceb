package replv

import (
	"strconv"

	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/zzverif/nd"
	"github.com/liujiangwei/xxcache/zzverif/sup"
)

// cursor reads a snapshot as the format is specified; bad is set once something
// cannot be read.
type cursor struct {
	d   string
	at  int
	bad bool
}

func (c *cursor) take(n int) string {
	if n < 0 || n > len(c.d)-c.at {
		c.bad = true
		return ""
	}
	s := c.d[c.at : c.at+n]
	c.at += n
	return s
}

func (c *cursor) byte() byte {
	s := c.take(1)
	if c.bad {
		return 0
	}
	return s[0]
}

// length reads a length; special is set for the encodings of strings.
func (c *cursor) length() (n uint64, special bool) {
	b := c.byte()
	switch {
	case c.bad:
		return 0, false
	case b < 0x40:
		return uint64(b), false
	case b < 0x80:
		return uint64(b&0x3f)<<8 | uint64(c.byte()), false
	case b == 0x80:
		return be(c.take(4)), false
	case b == 0x81:
		return be(c.take(8)), false
	case b < 0xc0:
		c.bad = true
	}
	return uint64(b & 0x3f), true
}

func be(s string) (n uint64) {
	for i := 0; i < len(s); i++ {
		n = n<<8 | uint64(s[i])
	}
	return n
}

func (c *cursor) count() uint64 {
	n, special := c.length()
	if special {
		c.bad = true
	}
	return n
}

// str reads a string; known is false when its text is not worked out.
func (c *cursor) str() (s string) {
	n, special := c.length()
	if c.bad {
		return ""
	}
	if !special {
		if n > uint64(len(c.d)) {
			c.bad = true
			return ""
		}
		return c.take(int(n))
	}
	switch n {
	case 0, 1, 2:
		v := c.take(1 << n)
		if c.bad {
			return ""
		}
		switch n {
		case 0:
			return strconv.Itoa(int(int8(v[0])))
		case 1:
			return strconv.Itoa(int(int16(v[0]) | int16(v[1])<<8))
		}
		return strconv.Itoa(int(int32(v[0]) | int32(v[1])<<8 | int32(v[2])<<16 | int32(v[3])<<24))
	case 3:
		k, l := c.count(), c.count()
		if c.bad || k > uint64(len(c.d)) {
			c.bad = true
			return ""
		}
		z := c.take(int(k))
		s, ok := unlzf(z)
		if c.bad || !ok || uint64(len(s)) != l {
			c.bad = true
		}
		return s
	}
	c.bad = true
	return ""
}

// unlzf is the text an LZF stream stands for.
func unlzf(s string) (string, bool) {
	var out []byte
	for i := 0; i < len(s); {
		c := int(s[i])
		i++
		if c < 32 {
			if i+c+1 > len(s) {
				return "", false
			}
			out = append(out, s[i:i+c+1]...)
			i += c + 1
			continue
		}
		n := c >> 5
		if n == 7 {
			if i >= len(s) {
				return "", false
			}
			n += int(s[i])
			i++
		}
		if i >= len(s) {
			return "", false
		}
		at := len(out) - (c&31)<<8 - int(s[i]) - 1
		i++
		if at < 0 {
			return "", false
		}
		for n += 2; n > 0; n-- {
			out = append(out, out[at])
			at++
		}
	}
	return string(out), true
}

// broken reports whether a snapshot is damaged beyond doubt: it ends before the
// end-of-file record, or something in it has no meaning.
func broken(d string) bool {
	c := &cursor{d: d}
	if c.take(5) != "REDIS" {
		return true
	}
	c.take(4)
	for !c.bad {
		op := c.byte()
		if c.bad {
			return true
		}
		switch op {
		case 255:
			return false
		case 254, 248:
			c.count()
		case 253:
			c.take(4)
		case 252:
			c.take(8)
		case 251:
			c.count()
			c.count()
		case 250:
			c.str()
			c.str()
		case 249:
			c.take(1)
		case 247:
			c.module()
		case 0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 14:
			c.str()
			c.value(op)
		default:
			return true
		}
	}
	return true
}

// module reads what a module wrote beside the keys; values are not supported.
func (c *cursor) module() {
	c.count()
	if c.count() != 2 {
		c.bad = true
	}
	c.count()
	if c.count() != 0 {
		c.bad = true
	}
}

func (c *cursor) value(op byte) {
	switch op {
	case 0:
		c.str()
	case 1, 2:
		for n := c.count(); n > 0 && !c.bad; n-- {
			c.str()
		}
	case 3:
		for n := c.count(); n > 0 && !c.bad; n-- {
			c.str()
			if l := c.byte(); l < 253 {
				c.take(int(l))
			}
		}
	case 5:
		for n := c.count(); n > 0 && !c.bad; n-- {
			c.str()
			c.take(8)
		}
	case 4:
		for n := c.count(); n > 0 && !c.bad; n-- {
			c.str()
			c.str()
		}
	case 14:
		for n := c.count(); n > 0 && !c.bad; n-- {
			if len(c.str()) < 11 {
				c.bad = true
			}
		}
	case 9:
		if len(c.str()) < 2 {
			c.bad = true
		}
	case 11:
		if s := c.str(); len(s) < 8 {
			c.bad = true
		} else if e := le(s[:4]); e != 2 && e != 4 && e != 8 || uint64(len(s)) < 8+e*le(s[4:8]) {
			c.bad = true
		}
	default:
		if len(c.str()) < 11 {
			c.bad = true
		}
	}
}

func le(s string) (n uint64) {
	for i := len(s) - 1; i >= 0; i-- {
		n = n<<8 | uint64(s[i])
	}
	return n
}

// survives loads a possibly damaged snapshot.
func survives(d string) {
	nd.AllocLimit(1 << 20)
	_, _, err := load(d)
	if err == nil {
		nd.Cover("accepted")
		nd.Assert(!broken(d), "a damaged snapshot is accepted")
	} else {
		nd.Cover("refused")
	}
}

// small is a snapshot of a key of any kind after up to one other record.
func small() *sup.Snap {
	s := sup.NewSnap()
	s.Plain = true
	if i := nd.Choice("before", 6); i > 0 {
		s.B += []string{"", "\xfe\x41\x00", "\xfc\x01\x02\x03\x04\x05\x06\x07\x08", "\xfb\x00\x80\x00\x01\x00\x00",
			"\xfa\x05ctime\xc2\x01\x02\x03\x04", "\xf9\x01"}[i]
	}
	kind := 0
	if nd.Tier() > 0 || len(s.B) == 9 {
		kind = nd.Choice("kind", sup.Kinds)
	}
	s.Key(kind, "k", 1)
	return s
}

// C32_cut: a snapshot that ends anywhere before its end-of-file record.
func C32_cut() {
	defer guard("Load")
	s := small()
	d := s.B[:nd.Choice("cut", len(s.B)+1)]
	nd.AllocLimit(1 << 20)
	_, _, err := load(d)
	nd.Assert(err != nil, "a truncated snapshot is accepted")
}

// C32_byte: any byte of a snapshot is another one.
func C32_byte() {
	defer guard("Load")
	nd.Limit(300)
	s := small()
	d := s.End()
	i := nd.Choice("at", len(s.B)+1)
	survives(d[:i] + nd.Str("byte", 1) + d[i+1:])
}

// C32_any: any up to 5 (thorough: 6) bytes after the header, and an end.
func C32_any() {
	defer guard("Load")
	nd.Limit(300)
	n := nd.Choice("length", 6+nd.Tier())
	d := "REDIS0009" + nd.Str("body", n)
	if nd.Bool("end") {
		d += "\xff"
	}
	survives(d)
}

// C32_types: a record of a type that is not supported.
func C32_types() {
	defer guard("Load")
	t := nd.Byte("type")
	nd.Assume(t == 6 || t == 7 || t == 8 || t > 14 && t < 247)
	d := "REDIS0009"
	if nd.Bool("after") {
		d += "\x00\x01a\x01b"
	}
	d += string([]byte{t}) + []string{"", "\x01k", "\x01k\x01v"}[nd.Choice("body", 3)] + "\xff"
	_, _, err := load(d)
	nd.Assert(err != nil, "a snapshot with an unsupported record is accepted")
}

// C32_compact: the special encodings of a value: any short text, or a ziplist,
// zipmap or integer set with some of its bytes being others.
func C32_compact() {
	defer guard("Load")
	nd.Limit(300)
	t := []byte{9, 10, 11, 12, 13, 14}[nd.Choice("type", 6)]
	v := ""
	switch k := nd.Choice("value", 3); {
	case k == 0:
		v = nd.Str("v", nd.Choice("length", 4+nd.Tier()))
	case t == 9:
		v = "\x01" + nd.Str("v", 3+nd.Tier()) + "\xff"
	case t == 11 && k == 1:
		v = nd.Str("v", 1) + "\x00\x00\x00" + nd.Str("n", 1) + "\x00\x00" + nd.Str("n", 1) + sup.Filler(8)
	case k == 1:
		v = sup.LE(4, uint64(nd.Byte("bytes"))) + sup.LE(4, 10) + nd.Str("n", 2) + "\x00\x01a" + "\x03\x01b" + "\xff"
	default:
		v = sup.LE(4, 16) + sup.LE(4, 10) + "\x02\x00" + nd.Str("v", 3+nd.Tier()) + "\xff"
	}
	l := ""
	if t == 14 {
		l = "\x01"
	}
	survives("REDIS0009" + string([]byte{t}) + "\x01k" + l + sup.Raw(v) + "\xff")
}

// C32_module: a record of a module with numbers in any format.
func C32_module() {
	defer guard("Load")
	num := func(name string, ok byte) string {
		switch nd.Choice(name+".format", 4) {
		case 1:
			return nd.Str(name, 1)
		case 2:
			return "\x40" + nd.Str(name, 1)
		case 3:
			return nd.Str(name, 1) + "\x00" + string([]byte{ok})
		}
		return string([]byte{ok})
	}
	d := "REDIS0009\xf7" + num("id", 1) + num("opcode", 2) + num("when", 1) + num("end", 0)
	survives(d + []string{"\xff", "\x01\x00\xff", "\x00\x01k\x01v\xff"}[nd.Choice("then", 3)])
}

// C32_odd: a ziplist with an odd number of entries as a hash or sorted set.
func C32_odd() {
	defer guard("Load")
	zs := []string{sup.ZlStr("a"), sup.ZlStr("1"), sup.ZlStr("b")}
	n := 1 + 2*nd.Choice("n", 2)
	t := []byte{12, 13}[nd.Choice("type", 2)]
	_, _, err := load("REDIS0009" + string([]byte{t}) + "\x01k" + sup.Raw(sup.Zl(zs[:n]...)) + "\xff")
	nd.Assert(err != nil, "an element without its other half is accepted")
}

// C32_huge: lengths far beyond what the file holds.
func C32_huge() {
	defer guard("Load")
	nd.AllocLimit(1 << 20)
	n := nd.Uint64("length")
	nd.Assume(n > 100)
	l := "\x81" + sup.BE(8, n)
	if nd.Bool("short") {
		nd.Assume(n < 1<<32)
		l = "\x80" + sup.BE(4, n)
	}
	d := "REDIS0009"
	switch nd.Choice("where", 9) {
	case 0: // key
		d += "\x00" + l + "k"
	case 1: // value
		d += "\x00\x01k" + l + "v"
	case 2: // elements
		d += string([]byte{1 + byte(nd.Choice("type", 5))}) + "\x01k" + l + "\x01v\x01w"
	case 3: // quicklist
		d += "\x0e\x01k" + l + sup.Raw(sup.Zl(sup.ZlStr("v")))
	case 4: // compressed
		d += "\x00\x01k\xc3\x02" + l + "\x00a"
	case 5:
		d += "\x00\x01k\xc3" + l + "\x02\x00a"
	case 6: // ziplist entry
		nd.Assume(n < 1<<32)
		d += "\x0a\x01k" + sup.Raw(sup.Zl("\x80"+sup.BE(4, n)+"v"))
	case 7: // zipmap
		nd.Assume(n < 1<<32)
		d += "\x09\x01k" + sup.Raw("\x01\xfe"+sup.LE(4, n)+"a\x01\x00b\xff")
	case 8: // integer set
		nd.Assume(n < 1<<32)
		d += "\x0b\x01k" + sup.Raw(sup.LE(4, []uint64{2, 4, 8}[nd.Choice("size", 3)])+sup.LE(4, n)+sup.Filler(16))
	}
	_, _, err := load(d + "\xff")
	nd.Assert(err != nil, "a damaged snapshot is accepted")
}

// C32_file: there is no snapshot.
func C32_file() {
	defer guard("Load")
	r := &redis.Replication{Messages: make(chan redis.ReplicationMessage, 1)}
	switch nd.Choice("file", 3) {
	case 1:
		r.RdbFile = nd.TempPath("absent")
	case 2:
		r.RdbFile = nd.TempPath("x.rdb")
		d := "REDIS0009\xff"
		i := nd.Choice("at", 5)
		b := nd.Byte("byte")
		nd.Assume(b != d[i])
		nd.WriteFile(r.RdbFile, d[:i]+string([]byte{b})+d[i+1:])
	}
	nd.Assert(r.Load() != nil, "a snapshot that is none is accepted")
}
