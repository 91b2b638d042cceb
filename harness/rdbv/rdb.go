// Package rdbv holds the proof harnesses of the snapshot decoding properties.
package rdbv

import (
	"bufio"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/redis/intset"
	"github.com/liujiangwei/xxcache/redis/lzf"
	"github.com/liujiangwei/xxcache/redis/rdb"
	"github.com/liujiangwei/xxcache/redis/ziplist"
	"github.com/liujiangwei/xxcache/redis/zipmap"
	"github.com/liujiangwei/xxcache/zzverif/nd"
)

// pieces delivers data at most n bytes per read.
type pieces struct {
	data string
	n    int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.data) == 0 {
		return 0, io.EOF
	}
	k := len(b)
	if k > p.n {
		k = p.n
	}
	if k > len(p.data) {
		k = len(p.data)
	}
	copy(b, p.data[:k])
	p.data = p.data[k:]
	return k, nil
}

func reader(data string, frag int) *bufio.Reader {
	return bufio.NewReader(&pieces{data, frag})
}

// rest is what is still unread.
func rest(r *bufio.Reader) string {
	var b []byte
	for {
		c, err := r.ReadByte()
		if err != nil {
			return string(b)
		}
		b = append(b, c)
	}
}

// guard turns a panic into a failure.
func guard(what string) {
	if e := recover(); e != nil {
		nd.Fail(what + " panicked")
	}
}

func be(n int, v uint64) string {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(v >> uint(8*(n-1-i)))
	}
	return string(b)
}

func le(n int, v uint64) string {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(v >> uint(8*i))
	}
	return string(b)
}

// C23_formats: every length in every format, followed by any bytes, delivered
// whole or in single bytes.
func C23_formats() {
	defer guard("LoadLen")
	v := nd.Uint64("v")
	frag := 1 + 15*nd.Choice("whole", 2)
	tail := nd.Str("tail", 2)
	var enc string
	wantEnc := false
	switch nd.Choice("format", 5) {
	case 0:
		nd.Assume(v < 64)
		enc = string([]byte{byte(v)})
		nd.Cover("6bit")
	case 1:
		nd.Assume(v < 1<<14)
		enc = string([]byte{0x40 | byte(v>>8), byte(v)})
		nd.Cover("14bit")
	case 2:
		nd.Assume(v < 1<<32)
		enc = "\x80" + be(4, v)
		nd.Cover("32bit")
	case 3:
		enc = "\x81" + be(8, v)
		nd.Cover("64bit")
	case 4:
		nd.Assume(v < 64)
		enc = string([]byte{0xc0 | byte(v)})
		wantEnc = true
		nd.Cover("special")
	}
	r := reader(enc+tail, frag)
	n, e, err := rdb.LoadLen(r)
	nd.Observe("len", n, e, err)
	nd.Assert(err == nil, "LoadLen rejects a length Redis writes")
	nd.Assert(n == v, "LoadLen returns a different length")
	nd.Assert(e == wantEnc, "LoadLen mistakes the special-encoding flag")
	nd.Assert(rest(r) == tail, "LoadLen consumes more or less than the encoding")
}

// C23_damaged: any first byte followed by 0 to 8 arbitrary bytes and the end of
// the stream: an error exactly when the encoding is unknown or incomplete.
func C23_damaged() {
	defer guard("LoadLen")
	k := nd.Choice("n", 10)
	s := nd.Str("s", k)
	need := 0
	if k > 0 {
		switch b := s[0]; {
		case b>>6 == 0, b>>6 == 3:
			need = 1
		case b>>6 == 1:
			need = 2
		case b == 0x80:
			need = 5
		case b == 0x81:
			need = 9
		}
	}
	r := reader(s, 16)
	n, _, err := rdb.LoadLen(r)
	nd.Observe("len", n, err)
	if need == 0 || k < need {
		nd.Cover("bad")
		nd.Assert(err != nil, "LoadLen accepts an unknown or truncated length")
	} else {
		nd.Cover("good")
		nd.Assert(err == nil, "LoadLen rejects a valid length")
	}
}

// C26_members: any number of members up to 3 (quick) or 6 (thorough) of each
// width with any values.
func C26_members() {
	defer guard("intset.Load")
	max := 4
	if nd.Tier() > 0 {
		max = 8
	}
	w := 2 << uint(nd.Choice("width", 3))
	n := nd.Choice("count", max)
	blob := le(4, uint64(w)) + le(4, uint64(n))
	want := make([]int64, n)
	for i := range want {
		v := nd.Int64("m")
		switch w {
		case 2:
			v = int64(int16(v))
		case 4:
			v = int64(int32(v))
		}
		want[i] = v
		blob += le(w, uint64(v))
	}
	got := intset.Load(blob)
	nd.Assert(len(got) == n, "intset.Load returns another number of members")
	nd.Cover("width" + strconv.Itoa(w))
	for i := range want {
		nd.Observe("m", got[i])
		nd.Assert(got[i] == want[i], "intset.Load changes a member")
	}
}

// C26_many: counts around the bounds of one and two bytes, any values at the
// ends and around the bounds.
func C26_many() {
	defer guard("intset.Load")
	w := 2 << uint(nd.Choice("width", 3))
	n := []int{64, 127, 128, 255, 256, 257, 300, 65535, 65536, 65537}[nd.Choice("count", 10)]
	nd.Assume(w == 2 || n < 1000)
	seam := []int{0, n / 2, 127, 255, n - 1}
	at := seam[nd.Choice("at", len(seam))]
	nd.Assume(at < n)
	nd.Steps(20000000)
	v := nd.Int64("m")
	switch w {
	case 2:
		v = int64(int16(v))
	case 4:
		v = int64(int32(v))
	}
	blob := []byte(le(4, uint64(w)) + le(4, uint64(n)))
	for i := 0; i < n; i++ {
		x := uint64(int64(int16(i - 100)))
		if i == at {
			x = uint64(v)
		}
		for j := 0; j < w; j++ {
			blob = append(blob, byte(x>>uint(8*j)))
		}
	}
	got := intset.Load(string(blob))
	nd.Assert(len(got) == n, "intset.Load returns another number of members")
	for i := range got {
		if i == at {
			nd.Assert(got[i] == v, "intset.Load changes a member")
		} else if got[i] != int64(int16(i-100)) {
			nd.Fail("intset.Load changes a member")
		}
	}
}

// filler is n concrete bytes without a repeated pair of neighbours nearby.
func filler(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/256*13 + 3)
	}
	return string(b)
}

func fracs() int {
	switch nd.Choice("frag", 3) {
	case 0:
		return 1
	case 1:
		return 5
	}
	return 1 << 20
}

// strLen is the length prefix Redis writes for n.
func strLen(n int) string {
	switch {
	case n < 64:
		return string([]byte{byte(n)})
	case n < 1<<14:
		return string([]byte{0x40 | byte(n>>8), byte(n)})
	}
	return "\x80" + be(4, uint64(n))
}

// C24_raw: raw strings of every length 0..6 with any bytes and of lengths around
// every format and buffer boundary with any first and last byte, delivered in
// pieces of 1, 5 or all bytes.
func C24_raw() {
	defer guard("LoadString")
	lens := []int{0, 1, 2, 3, 4, 5, 6, 63, 64, 4096, 16383, 16384}
	if nd.Tier() > 0 {
		lens = append(lens, 7, 8, 65, 255, 256, 4095, 4097, 8192, 65535, 65536, 70000)
	}
	n := lens[nd.Choice("len", len(lens))]
	frag := fracs()
	if n > 1000 && frag == 1 {
		frag = 1000
	}
	var s string
	if n <= 8 {
		s = nd.Str("s", n)
	} else {
		s = nd.Str("a", 2) + filler(n-4) + nd.Str("b", 2)
	}
	tail := nd.Str("tail", 2)
	nd.Steps(20000000)
	r := reader(strLen(n)+s+tail, frag)
	got, err := rdb.LoadString(r)
	nd.Cover("len")
	nd.Assert(err == nil, "LoadString rejects a raw string")
	nd.Assert(got == s, "LoadString changes a raw string")
	nd.Assert(rest(r) == tail, "LoadString consumes more or less than the raw string")
}

// C24_ints: every 8, 16 and 32-bit signed integer.
func C24_ints() {
	defer guard("LoadString")
	w := nd.Choice("width", 3)
	v := nd.Int64("v")
	switch w {
	case 0:
		v = int64(int8(v))
	case 1:
		v = int64(int16(v))
	case 2:
		v = int64(int32(v))
	}
	tail := nd.Str("tail", 2)
	r := reader(string([]byte{0xc0 | byte(w)})+le(1<<uint(w), uint64(v))+tail, fracs())
	got, err := rdb.LoadString(r)
	nd.Observe("str", got, err)
	nd.Cover("w" + strconv.Itoa(w))
	nd.Assert(err == nil, "LoadString rejects an integer string")
	nd.Assert(got == strconv.FormatInt(v, 10), "LoadString changes an integer string")
	nd.Assert(rest(r) == tail, "LoadString consumes more or less than the integer string")
}

// unlzf decodes a well-formed stream by the format description.
func unlzf(s string) (string, bool) {
	var out []byte
	for i := 0; i < len(s); {
		c := int(s[i])
		i++
		if c < 32 {
			if i+c+1 > len(s) {
				return "", false
			}
			out = append(out, s[i:i+c+1]...)
			i += c + 1
			continue
		}
		n := c >> 5
		if n == 7 {
			if i >= len(s) {
				return "", false
			}
			n += int(s[i])
			i++
		}
		if i >= len(s) {
			return "", false
		}
		o := (c&31)<<8 | int(s[i])
		i++
		p := len(out) - o - 1
		if p < 0 {
			return "", false
		}
		for k := 0; k < n+2; k++ {
			out = append(out, out[p+k])
		}
	}
	return string(out), true
}

// stream builds a well-formed LZF stream out of up to 2 (quick) or 3 (thorough)
// segments with symbolic bytes; want is what it denotes.
func stream() (string, string) {
	n := 2
	if nd.Tier() > 0 {
		n = 3
	}
	var enc string
	var out []byte
	for i := 0; i < n; i++ {
		switch k := nd.Choice("seg", 5); {
		case k == 0 && i > 0:
			i = n
		case k <= 1 || i == 0 && k < 4: // literal run
			l := []int{1, 2, 3, 32}[nd.Choice("lit", 4)]
			lit := nd.Str("l", 1)
			if l > 1 {
				lit += filler(l-2) + nd.Str("m", 1)
			}
			enc += string([]byte{byte(l - 1)}) + lit
			out = append(out, lit...)
		case i == 0: // long prefix
			f := filler(300)
			for j := 0; j < len(f); j += 30 {
				enc += string([]byte{29}) + f[j:j+30]
			}
			out = append(out, f...)
		default: // back reference
			l := []int{3, 4, 8, 9, 10, 11, 40, 264}[nd.Choice("ref", 8)]
			d := 1
			switch nd.Choice("dist", 7) {
			case 1:
				d = 2
			case 2:
				d = len(out)
			case 3:
				d = l
			case 4:
				d = l - 1
			case 5:
				d = l - 2
			case 6:
				d = l/2 + 1
			}
			if d > len(out) {
				d = len(out)
			}
			if l < 9 {
				enc += string([]byte{byte((l-2)<<5 | (d-1)>>8), byte(d - 1)})
			} else {
				enc += string([]byte{byte(7<<5 | (d-1)>>8), byte(l - 9), byte(d - 1)})
			}
			for j := 0; j < l; j++ {
				out = append(out, out[len(out)-d])
			}
		}
	}
	return enc, string(out)
}

// C24_lzf: LZF strings assembled from literal runs and back references.
func C24_lzf() {
	defer guard("LoadString")
	enc, want := stream()
	tail := nd.Str("tail", 1)
	r := reader("\xc3"+strLen(len(enc))+strLen(len(want))+enc+tail, []int{7, 1 << 20}[nd.Choice("frag", 2)])
	got, err := rdb.LoadString(r)
	nd.Cover("lzf")
	nd.Assert(err == nil, "LoadString rejects an LZF string")
	nd.Assert(got == want, "LoadString changes an LZF string")
	nd.Assert(rest(r) == tail, "LoadString consumes more or less than the LZF string")
}

// C24_truncated: every proper prefix of an encoding is an error.
func C24_truncated() {
	defer guard("LoadString")
	var s string
	switch nd.Choice("kind", 5) {
	case 0:
		n := []int{5, 1, 2}[nd.Choice("len", 3)]
		s = strLen(n) + nd.Str("s", n)
	case 1:
		s = "\xc0" + nd.Str("s", 1)
	case 2:
		s = "\xc1" + nd.Str("s", 2)
	case 3:
		s = "\xc2" + nd.Str("s", 4)
	case 4:
		s = "\xc3\x04\x05" + "\x00" + nd.Str("s", 1) + "\x40\x00"
	}
	k := nd.Choice("cut", len(s))
	r := reader(s[:k], fracs())
	_, err := rdb.LoadString(r)
	nd.Observe("err", err)
	nd.Cover("cut")
	nd.Assert(err != nil, "LoadString accepts a truncated string")
}

// C24_long: long strings, whole and cut short near every seam.
func C24_long() {
	defer guard("LoadString")
	nd.Steps(60000000)
	n := []int{63, 64, 300, 4095, 4096, 5000, 16383, 16384, 66000}[nd.Choice("len", 9)]
	v := nd.Str("a", 1) + filler(n-2) + nd.Str("b", 1)
	s := strLen(n) + v
	frag := []int{7, 1 << 20, 4096}[nd.Choice("frag", 3)]
	if nd.Choice("cut", 2) == 0 {
		tail := nd.Str("tail", 1)
		r := reader(s+tail, frag)
		got, err := rdb.LoadString(r)
		nd.Cover("long")
		nd.Assert(err == nil, "LoadString rejects a string")
		nd.Assert(got == v, "LoadString changes a string")
		nd.Assert(rest(r) == tail, "LoadString consumes more or less than the string")
		return
	}
	h := len(s) - n
	at := []int{0, 1, h - 1, h, h + 1, h + 31, len(s) / 2, len(s) - 2, len(s) - 1}[nd.Choice("at", 9)]
	_, err := rdb.LoadString(reader(s[:at], frag))
	nd.Cover("cut")
	nd.Assert(err != nil, "LoadString accepts a truncated string")
}

// C25_binary: every double, followed by any bytes; every truncation.
func C25_binary() {
	defer guard("LoadBinaryDouble")
	v := nd.Uint64("bits")
	tail := nd.Str("tail", 2)
	cut := nd.Choice("cut", 9)
	frag := fracs()
	if cut < 8 {
		_, err := rdb.LoadBinaryDouble(reader(le(8, v)[:cut], frag))
		nd.Cover("truncated")
		nd.Assert(err != nil, "LoadBinaryDouble accepts a truncated score")
		return
	}
	r := reader(le(8, v)+tail, frag)
	f, err := rdb.LoadBinaryDouble(r)
	nd.Observe("f", f, err)
	nd.Cover("full")
	nd.Assert(err == nil, "LoadBinaryDouble rejects a score")
	nd.Assert(math.Float64bits(f) == v || f != f && v&0x7ff0000000000000 == 0x7ff0000000000000 && v&0xfffffffffffff != 0, "LoadBinaryDouble changes the score")
	nd.Assert(rest(r) == tail, "LoadBinaryDouble consumes more or less than 8 bytes")
}

// C25_text: the special markers, and decimal texts "d", "dd.d", "-d.d", "d.de-d"
// with any digits, plus any other bytes of length up to 3 (quick).
func C25_text() {
	defer guard("LoadDouble")
	tail := nd.Str("tail", 1)
	frag := fracs()
	k := nd.Choice("kind", 4)
	if k < 3 {
		r := reader(string([]byte{byte(253 + k)})+tail, frag)
		f, err := rdb.LoadDouble(r)
		nd.Observe("f", f, err)
		nd.Cover("special")
		nd.Assert(err == nil, "LoadDouble rejects a special score")
		switch k {
		case 0:
			nd.Assert(f != f, "LoadDouble: marker 253 is not NaN")
		case 1:
			nd.Assert(f > math.MaxFloat64, "LoadDouble: marker 254 is not positive infinity")
		case 2:
			nd.Assert(f < -math.MaxFloat64, "LoadDouble: marker 255 is not negative infinity")
		}
		nd.Assert(rest(r) == tail, "LoadDouble consumes more or less than the marker")
		return
	}
	dig := func() string {
		b := nd.Byte("d")
		nd.Assume(b >= '0' && b <= '9')
		return string([]byte{b})
	}
	var txt string
	switch nd.Choice("shape", 5) {
	case 0:
		txt = dig()
	case 1:
		txt = dig() + dig() + "." + dig()
	case 2:
		txt = "-" + dig() + "." + dig()
	case 3:
		txt = "1." + dig() + "e-" + dig()
	case 4:
		txt = "3.14159265358979" + dig()
	}
	want, werr := strconv.ParseFloat(txt, 64)
	nd.Assume(werr == nil)
	if nd.Choice("cut", 2) == 1 {
		_, err := rdb.LoadDouble(reader(string([]byte{byte(len(txt))})+txt[:len(txt)-1], frag))
		nd.Cover("truncated")
		nd.Assert(err != nil, "LoadDouble accepts a truncated score")
		return
	}
	r := reader(string([]byte{byte(len(txt))})+txt+tail, frag)
	f, err := rdb.LoadDouble(r)
	nd.Observe("f", f, err)
	nd.Cover("text")
	nd.Assert(err == nil, "LoadDouble rejects a score")
	nd.Assert(math.Float64bits(f) == math.Float64bits(want), "LoadDouble changes the score")
	nd.Assert(rest(r) == tail, "LoadDouble consumes more or less than its text")
}

// zlEntry is one ziplist entry of an arbitrary kind and its decoded text.
func zlEntry(prev int) (string, string) {
	enc := ""
	if prev < 254 {
		enc = string([]byte{byte(prev)})
	} else {
		enc = "\xfe" + le(4, uint64(prev))
	}
	v := nd.Int64("v")
	num := func() string { return strconv.FormatInt(v, 10) }
	switch nd.Choice("kind", 10) {
	case 0:
		n := nd.Choice("len", 4)
		s := nd.Str("s", n)
		return enc + string([]byte{byte(n)}) + s, s
	case 1:
		s := nd.Str("a", 1) + filler(61) + nd.Str("b", 1)
		return enc + string([]byte{63}) + s, s
	case 2:
		n := []int{0, 2, 64, 255, 256, 300}[nd.Choice("len", 6)]
		s := nd.Str("a", n/2-n/2+n%2)
		if n > 1 {
			s = nd.Str("a", 1) + filler(n-2) + nd.Str("b", 1)
		}
		return enc + string([]byte{0x40 | byte(n>>8), byte(n)}) + s, s
	case 3:
		n := []int{0, 2, 260, 16384, 70000}[nd.Choice("len", 3+2*nd.Tier())]
		s := ""
		if n > 1 {
			s = nd.Str("a", 1) + filler(n-2) + nd.Str("b", 1)
		}
		return enc + "\x80" + be(4, uint64(n)) + s, s
	case 4:
		v = int64(int16(v))
		return enc + "\xc0" + le(2, uint64(v)), num()
	case 5:
		v = int64(int32(v))
		return enc + "\xd0" + le(4, uint64(v)), num()
	case 6:
		return enc + "\xe0" + le(8, uint64(v)), num()
	case 7:
		v = v << 40 >> 40
		return enc + "\xf0" + le(3, uint64(v)), num()
	case 8:
		v = int64(int8(v))
		return enc + "\xfe" + le(1, uint64(v)), num()
	}
	nd.Assume(v >= 0 && v <= 12)
	return enc + string([]byte{0xf1 + byte(v)}), num()
}

func zl(n int, entries string) string {
	return le(4, uint64(11+len(entries))) + le(4, 10) + le(2, uint64(n)) + entries + "\xff"
}

// C27_entries: 0..2 (quick) or 0..3 (thorough) entries of every kind with any
// contents, the previous-entry field of either size.
func C27_entries() {
	defer guard("ziplist.Load")
	max := 3
	if nd.Tier() > 0 {
		max = 4
	}
	nd.Steps(20000000)
	n := nd.Choice("count", max)
	prev := 0
	var blob string
	var want []string
	for i := 0; i < n; i++ {
		if i == 0 && nd.Choice("big", 2) == 1 {
			// a long first entry
			s := filler(252)
			e := "\x00\x40\xfc" + s
			blob += e
			want = append(want, s)
			prev = len(e)
			continue
		}
		e, s := zlEntry(prev)
		blob += e
		want = append(want, s)
		prev = len(e)
	}
	got := ziplist.Load(zl(n, blob))
	nd.Cover("n" + strconv.Itoa(n))
	nd.Assert(len(got) == n, "ziplist.Load returns another number of entries")
	for i := range want {
		nd.Assert(got[i] == want[i], "ziplist.Load changes an entry")
	}
}

// C27_long: a long entry of either length form, with entries around it.
func C27_long() {
	defer guard("ziplist.Load")
	nd.Steps(60000000)
	n := []int{4095, 8191, 8192, 16383, 16384, 65535, 65536, 70000, 140000}[nd.Choice("len", 9)]
	s := nd.Str("a", 1) + filler(n-2) + nd.Str("b", 1)
	first := nd.Str("first", 1)
	e := "\x00\x01" + first
	want := []string{first, s}
	h := "\x80" + be(4, uint64(n))
	if n < 16384 && nd.Choice("form", 2) == 0 {
		h = string([]byte{0x40 | byte(n>>8), byte(n)})
	}
	l := "\x03" + h + s
	e += l
	last, w := zlEntry(len(l))
	e += last
	want = append(want, w)
	got := ziplist.Load(zl(3, e))
	nd.Cover("long")
	nd.Assert(len(got) == 3, "ziplist.Load returns another number of entries")
	for i := range want {
		nd.Assert(got[i] == want[i], "ziplist.Load changes an entry")
	}
}

// C27_huge: more entries than the header can count.
func C27_huge() {
	defer guard("ziplist.Load")
	nd.Steps(200000000)
	nd.AllocLimit(1 << 30)
	n := []int{65534, 65535, 65536, 66001}[nd.Choice("count", 4)]
	mark := nd.Str("mark", 1)
	e := "\x00\x01" + mark + "\x03\xf1" + strings.Repeat("\x02\xf2", n-3) + "\x02\x01" + mark
	c := n
	if c > 65535 {
		c = 65535
	}
	got := ziplist.Load(zl(c, e))
	nd.Assert(len(got) == n, "ziplist.Load returns another number of entries")
	nd.Assert(got[0] == mark && got[1] == "0" && got[n-1] == mark, "ziplist.Load changes an entry")
	for _, s := range got[2 : n-1] {
		nd.Assert(s == "1", "ziplist.Load changes an entry")
	}
}

// C27_many: many entries, of a size in bytes and in number around the powers of two.
func C27_many() {
	defer guard("ziplist.Load")
	nd.Steps(60000000)
	n := []int{127, 128, 254, 255, 256, 257, 1000}[nd.Choice("count", 7)]
	at := []int{0, 126, n - 1}[nd.Choice("at", 3)]
	mark := nd.Str("mark", 2)
	v := nd.Int64("v")
	nd.Assume(v >= 0 && v <= 12)
	e := ""
	prev := 0
	for i := 0; i < n; i++ {
		x := ""
		if i == at {
			x = "\x02" + mark
		} else if i%3 == 0 {
			x = string([]byte{0xf1 + byte(v)})
		} else {
			x = "\xc0" + le(2, uint64(i))
		}
		x = string([]byte{byte(prev)}) + x
		prev = len(x)
		e += x
	}
	got := ziplist.Load(zl(n, e))
	nd.Cover("many")
	nd.Assert(len(got) == n, "ziplist.Load returns another number of entries")
	nd.Assert(got[at] == mark, "ziplist.Load changes an entry")
	for i := range got {
		if i%3 != 0 && i != at {
			nd.Assert(got[i] == strconv.Itoa(i), "ziplist.Load changes an entry")
		}
	}
	if at != 0 {
		nd.Assert(got[0] == strconv.FormatInt(v, 10), "ziplist.Load changes an entry")
	}
}

func zmLen(n int) string {
	if n < 254 {
		return string([]byte{byte(n)})
	}
	return "\xfe" + le(4, uint64(n))
}

func zmStr(name string) string {
	lens := []int{0, 1, 2, 253, 254, 255, 300}
	n := lens[nd.Choice(name+"len", len(lens))]
	if n <= 2 {
		return nd.Str(name, n)
	}
	return nd.Str(name, 1) + filler(n-2) + nd.Str(name, 1)
}

// C28_pairs: 0..2 (quick) or 0..3 (thorough) pairs, field and value of 0, 1, 2,
// 253, 254, 255 or 300 arbitrary bytes, 0, 1, 3, 127, 128 or 255 bytes of free space.
func C28_pairs() {
	defer guard("zipmap.Load")
	max := 3
	if nd.Tier() > 0 {
		max = 4
	}
	n := nd.Choice("count", max)
	blob := string([]byte{byte(n)})
	if nd.Choice("uncounted", 2) == 1 {
		blob = "\xfe"
	}
	want := map[string]string{}
	var keys []string
	for i := 0; i < n; i++ {
		k := ""
		v := ""
		if i < 2 {
			k, v = zmStr("k"), zmStr("v")
		} else {
			k, v = nd.Str("k", 1), nd.Str("v", 2)
		}
		for _, o := range keys {
			nd.Assume(o != k)
		}
		keys = append(keys, k)
		want[k] = v
		free := []int{0, 3, 128, 255, 1, 127}[nd.Choice("free", 4+2*nd.Tier())]
		blob += zmLen(len(k)) + k + zmLen(len(v)) + string([]byte{byte(free)}) + v
		if free > 0 {
			blob += nd.Str("free", 1) + filler(free-1)
		}
	}
	got := zipmap.Load(blob + "\xff")
	nd.Cover("n" + strconv.Itoa(n))
	nd.Assert(len(got) == n, "zipmap.Load returns another number of pairs")
	for _, k := range keys {
		v, ok := got[k]
		nd.Assert(ok, "zipmap.Load loses a field")
		nd.Assert(v == want[k], "zipmap.Load changes a value")
	}
}

// zmLong is a long text.
func zmLong(name string) string {
	n := []int{65535, 65536, 66000, 256, 511, 512}[nd.Choice(name+"len", 6)]
	return nd.Str(name, 1) + filler(n-2) + nd.Str(name, 1)
}

// C28_long: a long field or value, with pairs around it.
func C28_long() {
	defer guard("zipmap.Load")
	nd.Steps(60000000)
	k, v := "key"+nd.Str("k", 1), nd.Str("v", 2)
	if nd.Choice("which", 2) == 0 {
		k = zmLong("k")
	} else {
		v = zmLong("v")
	}
	a, b := nd.Str("a", 1), nd.Str("b", 2)
	pair := func(k, v string, free int) string {
		return zmLen(len(k)) + k + zmLen(len(v)) + string([]byte{byte(free)}) + v + filler(free)
	}
	got := zipmap.Load("\x03" + pair("first", a, 1) + pair(k, v, 2*nd.Choice("free", 2)) + pair("last", b, 0) + "\xff")
	nd.Cover("long")
	nd.Assert(len(got) == 3, "zipmap.Load returns another number of pairs")
	for _, p := range [][2]string{{"first", a}, {k, v}, {"last", b}} {
		x, ok := got[p[0]]
		nd.Assert(ok, "zipmap.Load loses a field")
		nd.Assert(x == p[1], "zipmap.Load changes a value")
	}
}

// C28_many: many pairs.
func C28_many() {
	defer guard("zipmap.Load")
	nd.Steps(60000000)
	n := []int{127, 128, 252, 253, 254, 255, 300}[nd.Choice("count", 7)]
	c := "\xfe"
	if n < 254 {
		c = string([]byte{byte(n)})
	}
	at := []int{0, 100, n - 1}[nd.Choice("at", 3)]
	mark := nd.Str("mark", 2)
	z := c
	for i := 0; i < n; i++ {
		k, v := "k"+strconv.Itoa(i), strconv.Itoa(i)
		if i == at {
			v = mark
		}
		z += zmLen(len(k)) + k + zmLen(len(v)) + "\x00" + v
	}
	got := zipmap.Load(z + "\xff")
	nd.Cover("many")
	nd.Assert(len(got) == n, "zipmap.Load returns another number of pairs")
	nd.Assert(got["k"+strconv.Itoa(at)] == mark, "zipmap.Load changes a value")
	for i := 0; i < n; i++ {
		if i != at {
			nd.Assert(got["k"+strconv.Itoa(i)] == strconv.Itoa(i), "zipmap.Load changes a value")
		}
	}
}

// C29_long: long keys and values, set and looked up.
func C29_long() {
	defer guard("zipmap")
	nd.Steps(60000000)
	zm := zipmap.New()
	k, v := "key"+nd.Str("k", 1), nd.Str("v", 2)
	if nd.Choice("which", 2) == 0 {
		k = zmLong("k")
	} else {
		v = zmLong("v")
	}
	nd.Assert(zm.Set("first", "1") == nil, "Set fails")
	nd.Assert(zm.Set(k, v) == nil, "Set fails")
	nd.Assert(zm.Set("last", "2") == nil, "Set fails")
	q := nd.Str("q", 1) + k[1:]
	_, ok := zm.Lookup(k)
	nd.Assert(ok, "Lookup does not find a key that was set")
	_, ok = zm.Lookup("first")
	nd.Assert(ok, "Lookup does not find a key that was set")
	_, ok = zm.Lookup("last")
	nd.Assert(ok, "Lookup does not find a key that was set")
	_, ok = zm.Lookup(q)
	nd.Cover("long")
	nd.Assert(ok == (q == k), "Lookup finds a key that was not set")
}

// C29_many: many keys set, one of them arbitrary.
func C29_many() {
	defer guard("zipmap")
	nd.Steps(200000000)
	zm := zipmap.New()
	n := []int{253, 254, 126, 260}[nd.Choice("count", 4)]
	for i := 0; i < n; i++ {
		nd.Assert(zm.Set("k"+strconv.Itoa(i), strconv.Itoa(i)) == nil, "Set fails")
	}
	f := "f" + nd.Str("f", 1)
	nd.Assert(zm.Set(f, nd.Str("v", 1)) == nil, "Set fails")
	for _, k := range []string{"k0", "k100", "k" + strconv.Itoa(n-1), f} {
		_, ok := zm.Lookup(k)
		nd.Assert(ok, "Lookup does not find a key that was set")
	}
	q := "f" + nd.Str("q", 1)
	_, ok := zm.Lookup(q)
	nd.Cover("many")
	nd.Assert(ok == (q == f), "Lookup finds a key that was not set")
}

// C29_sets: up to 3 (quick) or 4 (thorough) Sets with arbitrary keys and values
// (long ones included) and a lookup of every key set and of an arbitrary one.
func C29_sets() {
	defer guard("zipmap")
	n := 3
	if nd.Tier() > 0 {
		n = 4
	}
	zm := zipmap.New()
	var keys []string
	m := nd.Choice("count", n+1)
	for i := 0; i < m; i++ {
		var k, v string
		if i < 2 {
			k, v = zmStr("k"), zmStr("v")
		} else {
			k, v = nd.Str("k", 1), nd.Str("v", 1)
		}
		if i > 0 && nd.Choice("again", 2) == 1 {
			k = keys[0]
		}
		nd.Assert(zm.Set(k, v) == nil, "Set fails")
		keys = append(keys, k)
	}
	q := zmStr("q")
	has := false
	for _, k := range keys {
		_, ok := zm.Lookup(k)
		nd.Assert(ok, "Lookup does not find a key that was set")
		if k == q {
			has = true
		}
	}
	_, ok := zm.Lookup(q)
	nd.Observe("lookup", ok)
	if has {
		nd.Cover("present")
	} else {
		nd.Cover("absent")
	}
	nd.Assert(ok == has, "Lookup finds a key that was not set")
}

// C30_roundtrip: every string of up to 6 (quick) or 8 (thorough) bytes, the
// compressor's working table holding any values at first.
func C30_roundtrip() {
	defer guard("lzf")
	max := 7
	if nd.Tier() > 0 {
		max = 9
	}
	n := nd.Choice("n", max)
	s := nd.Str("s", n)
	c := lzf.Compress(s)
	d := lzf.DeCompress(c, n)
	nd.Observe("r", d)
	w, ok := unlzf(c)
	nd.Assert(ok && w == s, "the compressor output is not an LZF stream of the string")
	nd.Assert(d == s, "decompressing the compressor output gives another string")
	nd.Cover("done")
}

// C30_long: long literal runs, long matches and matches at the largest distances,
// with arbitrary bytes at the seams.
func C30_long() {
	defer guard("lzf")
	nd.Steps(20000000)
	nd.ZeroLocals()
	var s string
	a, b := nd.Str("a", 1), nd.Str("b", 1)
	switch nd.Choice("shape", 4) {
	case 0: // literal runs around 32 and 64 bytes
		n := []int{29, 30, 31, 32, 33, 61, 62, 63, 64, 65}[nd.Choice("n", 10)]
		s = filler(n) + a
	case 1: // one long match
		n := []int{3, 4, 8, 9, 10, 17, 18, 19, 20, 262, 263, 264, 265, 266, 267, 268, 269, 530}[nd.Choice("n", 18)]
		s = "x" + strings.Repeat("a", n) + a + b
	case 2: // literals, then a repeated block
		n := []int{3, 4, 5, 8, 9, 33}[nd.Choice("n", 6)]
		f := filler(n + 2)
		s = f + "!" + f[1:] + a + b
	case 3: // a match at a distance around the largest one
		n := []int{8188, 8189, 8190, 8191, 8192}[nd.Choice("n", 5)]
		z := make([]byte, 0, n)
		for i := 0; len(z) < n; i++ {
			z = append(z, byte(i), byte(i>>8)|0x80)
		}
		z = z[:n]
		s = "0QRS" + string(z) + "QRS"
	}
	c := lzf.Compress(s)
	w, ok := unlzf(c)
	nd.Assert(ok && w == s, "the compressor output is not an LZF stream of the string")
	d := lzf.DeCompress(c, len(s))
	nd.Assert(d == s, "decompressing the compressor output gives another string")
	nd.Cover("done")
}

// C30_streams: well-formed streams of literal runs and back references.
func C30_streams() {
	defer guard("lzf")
	enc, want := stream()
	if len(enc) == 0 {
		return
	}
	got := lzf.DeCompress(enc, len(want))
	nd.Cover("done")
	nd.Assert(got == want, "a well-formed LZF stream decompresses to other bytes")
}

// C30_any: any bytes handed to the decompressor with any small length do not make
// it leave its buffers.
func C30_any() {
	defer guard("lzf.DeCompress")
	max := 5
	if nd.Tier() > 0 {
		max = 7
	}
	s := nd.Str("s", nd.Choice("n", max))
	n := []int{0, 1, 3, 4, 5, 300}[nd.Choice("len", 6)]
	d := lzf.DeCompress(s, n)
	if w, ok := unlzf(s); ok && len(w) == n {
		nd.Cover("wellformed")
		nd.Assert(d == w, "a well-formed LZF stream decompresses to other bytes")
	}
}
