// Package cachev holds the proof harnesses of the cache properties.
//
// model.go is the reference: what each command should answer and leave behind.
// It knows nothing of how the cache stores things.
package cachev

import (
	"math"
	"strconv"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/zzverif/nd"
)

const (
	none = iota
	str
	hash
)

type pair struct{ f, v string }

type entry struct {
	kind int
	s    string
	h    []pair
	ttl  bool
	at   int64 // deadline on the virtual clock
}

func (e *entry) find(f string) int {
	for i := range e.h {
		if e.h[i].f == f {
			return i
		}
	}
	return -1
}

func (e *entry) put(f, v string) int {
	if i := e.find(f); i >= 0 {
		e.h[i].v = v
		return 0
	}
	e.h = append(e.h, pair{f, v})
	return 1
}

// model is the reference state.
type model struct {
	keys []string
	ents []*entry
	now  int64
}

func (m *model) clone() *model {
	n := &model{now: m.now}
	n.keys = append(n.keys, m.keys...)
	for _, e := range m.ents {
		c := *e
		c.h = append([]pair(nil), e.h...)
		n.ents = append(n.ents, &c)
	}
	return n
}

// at is the entry of a key, absent when its lifetime is over. At the very instant
// of the deadline either is fine, so such executions are left out.
func (m *model) at(k string) *entry {
	for i, x := range m.keys {
		if x == k {
			e := m.ents[i]
			if e.kind != none && e.ttl {
				nd.Assume(m.now != e.at)
				if m.now > e.at {
					*e = entry{}
				}
			}
			return e
		}
	}
	e := &entry{}
	m.keys = append(m.keys, k)
	m.ents = append(m.ents, e)
	return e
}

func (m *model) setStr(k, v string) { *m.at(k) = entry{kind: str, s: v} }

// advance moves both clocks.
func (m *model) advance(d int64) {
	nd.Advance(time.Duration(d))
	m.now += d
}

// res is what a command answered.
type res struct {
	s    string
	n    int
	x    float64
	err  int // 0 none, 1 the nil error, 2 another error
	list []string
	errs []int
	set  []string // in any order
	vals []string // of set, when it holds pairs
}

func code(err error) int {
	if err == nil {
		return 0
	}
	if err == cache.ErrKeyNil {
		return 1
	}
	return 2
}

// same reports whether the answer is the expected one.
func same(got, want res) bool {
	if (got.err != 0) != (want.err != 0) || want.err == 1 && got.err != 1 {
		return false
	}
	if want.err != 0 {
		return true
	}
	if len(got.list) != len(want.list) || len(got.set) != len(want.set) || len(got.vals) != len(want.vals) {
		return false
	}
	ok := nd.And(nd.And(got.s == want.s, got.n == want.n), math.Float64bits(got.x) == math.Float64bits(want.x))
	for i := range got.list {
		if (got.errs[i] != 0) != (want.errs[i] != 0) {
			return false
		}
		if want.errs[i] == 0 {
			ok = nd.And(ok, got.list[i] == want.list[i])
		}
	}
	return nd.And(ok, perm(got, want, make([]bool, len(got.set)), 0))
}

// perm reports whether the elements of got.set, and vals, are those of want from
// the i-th on in some order.
func perm(got, want res, used []bool, i int) bool {
	if i == len(want.set) {
		return true
	}
	any := false
	for j := range got.set {
		if used[j] {
			continue
		}
		e := got.set[j] == want.set[i]
		if len(want.vals) > 0 {
			e = nd.And(e, got.vals[j] == want.vals[i])
		}
		used[j] = true
		any = nd.Or(any, nd.And(e, perm(got, want, used, i+1)))
		used[j] = false
	}
	return any
}

const (
	oSet = iota
	oSetNX
	oSetEX
	oPSetEX
	oGet
	oGetSet
	oStrLen
	oAppend
	oSetRange
	oGetRange
	oIncr
	oIncrBy
	oIncrByFloat
	oDecr
	oDecrBy
	oMSet
	oMSetNX
	oMGet
	oDel
	oExists
	oType
	oFlush
	oHSet
	oHSetNX
	oHExists
	oHDel
	oHLen
	oHStrLen
	oHIncrBy
	oHIncrByFloat
	oHMSet
	oHMGet
	oHKeys
	oHVals
	oHGetAll
	oHGet
	oCount
)

var stringOps = []int{oSet, oSetNX, oSetEX, oPSetEX, oGet, oGetSet, oStrLen, oAppend, oSetRange, oGetRange, oIncr, oIncrBy, oIncrByFloat, oDecr, oDecrBy}
var multiOps = []int{oMSet, oMSetNX, oMGet, oExists}
var keyOps = []int{oDel, oType}
var hashOps = []int{oHSet, oHSetNX, oHExists, oHDel, oHLen, oHStrLen, oHIncrBy, oHIncrByFloat, oHMSet, oHMGet, oHKeys, oHVals, oHGetAll, oHGet}

// op is a command with its arguments.
type op struct {
	c     int
	k, k2 string
	v, v2 string
	f, f2 string
	one   bool // multi-argument commands with one key or field only
	n     int64
	i, j  int
	x     float64
}

func (o op) keys() []string {
	if o.one {
		return []string{o.k}
	}
	return []string{o.k, o.k2}
}

func (o op) fields() []string {
	if o.one {
		return []string{o.f}
	}
	return []string{o.f, o.f2}
}

func (o op) kv() map[string]string {
	if o.one {
		return map[string]string{o.k: o.v}
	}
	return map[string]string{o.k: o.v, o.k2: o.v2}
}

func (o op) fv() map[string]string {
	if o.one {
		return map[string]string{o.f: o.v}
	}
	return map[string]string{o.f: o.v, o.f2: o.v2}
}

func anys(r *res, l []interface{}, err error) {
	r.err = code(err)
	for _, x := range l {
		switch y := x.(type) {
		case string:
			r.list = append(r.list, y)
			r.errs = append(r.errs, 0)
		case error:
			r.list = append(r.list, "")
			r.errs = append(r.errs, code(y))
		default:
			nd.Fail("an element that is neither text nor error")
		}
	}
}

// run issues the command.
func (o op) run(c *cache.Cache) (r res) {
	var err error
	switch o.c {
	case oSet:
		r.s, err = c.Set(o.k, o.v)
	case oSetNX:
		r.n, err = c.SetNX(o.k, o.v)
	case oSetEX:
		r.s, err = c.SetEX(o.k, o.v, o.n)
	case oPSetEX:
		r.s, err = c.PSetEX(o.k, o.v, o.n)
	case oGet:
		r.s, err = c.Get(o.k)
	case oGetSet:
		r.s, err = c.GetSet(o.k, o.v)
	case oStrLen:
		r.n, err = c.StrLen(o.k)
	case oAppend:
		r.n, err = c.Append(o.k, o.v)
	case oSetRange:
		r.n, err = c.SetRange(o.k, o.i, o.v)
	case oGetRange:
		r.s, err = c.GetRange(o.k, o.i, o.j)
	case oIncr:
		r.n, err = c.Incr(o.k)
	case oIncrBy:
		r.n, err = c.IncrBy(o.k, o.n)
	case oIncrByFloat:
		r.x, err = c.IncrByFloat(o.k, o.x)
	case oDecr:
		r.n, err = c.Decr(o.k)
	case oDecrBy:
		r.n, err = c.DecrBy(o.k, o.n)
	case oMSet:
		r.s = c.MSet(o.kv())
	case oMSetNX:
		r.n = c.MSetNX(o.kv())
	case oMGet:
		anys(&r, c.MGet(o.keys()...), nil)
		return r
	case oDel:
		r.n = c.Del(o.k)
	case oExists:
		r.n = c.Exists(o.keys()...)
	case oType:
		r.s = c.Type(o.k)
	case oFlush:
		c.Flush()
	case oHSet:
		r.n, err = c.HSet(o.k, o.f, o.v)
	case oHSetNX:
		r.n, err = c.HSetNX(o.k, o.f, o.v)
	case oHExists:
		r.n, err = c.HExists(o.k, o.f)
	case oHDel:
		r.n, err = c.HDel(o.k, o.fields()...)
	case oHLen:
		r.n, err = c.HLen(o.k)
	case oHStrLen:
		r.n, err = c.HStrLen(o.k, o.f)
	case oHIncrBy:
		r.n, err = c.HIncrBy(o.k, o.f, int(o.n))
	case oHIncrByFloat:
		r.x, err = c.HIncrByFloat(o.k, o.f, o.x)
	case oHMSet:
		r.n, err = c.HMSet(o.k, o.fv())
	case oHMGet:
		l, err := c.HMGet(o.k, o.fields()...)
		anys(&r, l, err)
		return r
	case oHKeys:
		r.set, err = c.HKeys(o.k)
	case oHVals:
		r.set, err = c.HVals(o.k)
	case oHGetAll:
		var m map[string]string
		m, err = c.HGetAll(o.k)
		for f, v := range m {
			r.set = append(r.set, f)
			r.vals = append(r.vals, v)
		}
	case oHGet:
		r.s, err = c.HGet(o.k, o.f)
	}
	r.err = code(err)
	return r
}

// integer reads canonical decimal text; texts of another form that some readers
// would still take for an integer ("+5", "007") are left out.
func integer(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, false
	}
	nd.Assume(strconv.FormatInt(n, 10) == s)
	return n, true
}

// number reads decimal text; infinities, NaN, hexadecimal and empty text are left out.
func number(s string) (float64, bool) {
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		// too large: left out
		if e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
			nd.Assume(false)
		}
		return 0, false
	}
	nd.Assume(!math.IsInf(x, 0) && !math.IsNaN(x))
	return x, true
}

func text(x float64) string { return strconv.FormatFloat(x, 'f', -1, 64) }

func fits(a, d int64) bool {
	s := a + d
	return !(d > 0 && s < a || d < 0 && s > a)
}

// deadline is when a lifetime of n units starting now ends; ok is false when that
// is beyond what the clock can reach.
func (m *model) deadline(n, unit int64) (int64, bool) {
	nd.Assume(n > 0)
	if n > (math.MaxInt64-m.now)/unit {
		return 0, false
	}
	return m.now + n*unit, true
}

var bad = res{err: 2}

// ref is the expected answer; the reference state is updated.
func (o op) ref(m *model) (r res) {
	switch o.c {
	case oMSet:
		m.setStr(o.k, o.v)
		if !o.one {
			m.setStr(o.k2, o.v2)
		}
		r.s = "OK"
		return
	case oMSetNX:
		for _, k := range o.keys() {
			if m.at(k).kind != none {
				return
			}
		}
		m.setStr(o.k, o.v)
		r.n = 1
		if !o.one {
			m.setStr(o.k2, o.v2)
			r.n = 2
		}
		return
	case oMGet:
		for _, k := range o.keys() {
			e := m.at(k)
			s, c := e.s, 0
			if e.kind != str {
				s, c = "", 2
			}
			r.list = append(r.list, s)
			r.errs = append(r.errs, c)
		}
		return
	case oExists:
		for _, k := range o.keys() {
			if m.at(k).kind != none {
				r.n++
			}
		}
		return
	case oFlush:
		m.keys, m.ents = nil, nil
		return
	}
	e := m.at(o.k)
	switch o.c {
	case oSet:
		*e = entry{kind: str, s: o.v}
		r.s = "OK"
	case oSetNX:
		if e.kind == none {
			*e = entry{kind: str, s: o.v}
			r.n = 1
		}
	case oSetEX, oPSetEX:
		unit := int64(time.Second)
		if o.c == oPSetEX {
			unit = int64(time.Millisecond)
		}
		*e = entry{kind: str, s: o.v}
		e.at, e.ttl = m.deadline(o.n, unit)
		r.s = "OK"
	case oDel:
		if e.kind != none {
			r.n = 1
		}
		*e = entry{}
	case oType:
		r.s = []string{"none", "string", "hash"}[e.kind]
	default:
		if o.c >= oHSet {
			if e.kind == str {
				return bad
			}
			return o.refHash(e)
		}
		if e.kind == hash {
			return bad
		}
		return o.refStr(e)
	}
	return
}

func (o op) refStr(e *entry) (r res) {
	switch o.c {
	case oGet:
		if e.kind == none {
			return res{err: 1}
		}
		r.s = e.s
	case oGetSet:
		r.s = e.s
		if e.kind == none {
			r.err = 1
		}
		*e = entry{kind: str, s: o.v}
	case oStrLen:
		r.n = len(e.s)
	case oAppend:
		e.kind = str
		e.s += o.v
		r.n = len(e.s)
	case oSetRange:
		if o.i < 0 {
			return bad
		}
		// an empty text written past the end may pad the value or not
		nd.Assume(len(o.v) > 0 || o.i <= len(e.s) && e.kind == str)
		b := []byte(e.s)
		for len(b) < o.i {
			b = append(b, 0)
		}
		for i := 0; i < len(o.v); i++ {
			if o.i+i < len(b) {
				b[o.i+i] = o.v[i]
			} else {
				b = append(b, o.v[i])
			}
		}
		e.kind = str
		e.s = string(b)
		r.n = len(b)
	case oGetRange:
		n := len(e.s)
		i, j := o.i, o.j
		if i < 0 {
			i += n
			if i < 0 {
				i = 0
			}
		}
		if j < 0 {
			j += n
		}
		if j >= n {
			j = n - 1
		}
		if i <= j && n > 0 {
			r.s = e.s[i : j+1]
		}
	case oIncr, oIncrBy, oDecr, oDecrBy:
		d := int64(1)
		switch o.c {
		case oIncrBy:
			d = o.n
		case oDecr:
			d = -1
		case oDecrBy:
			nd.Assume(o.n != math.MinInt64)
			d = -o.n
		}
		var n int64
		if e.kind == str {
			var ok bool
			if n, ok = integer(e.s); !ok {
				return bad
			}
		}
		if !fits(n, d) {
			return bad
		}
		n += d
		e.kind = str
		e.s = strconv.FormatInt(n, 10)
		r.n = int(n)
	case oIncrByFloat:
		x := o.x
		if e.kind == str {
			y, ok := number(e.s)
			if !ok {
				return bad
			}
			x = y + x
		}
		nd.Assume(!math.IsInf(x, 0) && !math.IsNaN(x))
		e.kind = str
		e.s = text(x)
		r.x = x
	}
	return
}

func (o op) refHash(e *entry) (r res) {
	i := e.find(o.f)
	switch o.c {
	case oHSet:
		e.kind = hash
		r.n = e.put(o.f, o.v)
	case oHSetNX:
		e.kind = hash
		if i < 0 {
			r.n = e.put(o.f, o.v)
		}
	case oHExists:
		if i >= 0 {
			r.n = 1
		}
	case oHDel:
		for _, f := range o.fields() {
			if j := e.find(f); j >= 0 {
				e.h = append(e.h[:j:j], e.h[j+1:]...)
				r.n++
			}
		}
	case oHLen:
		r.n = len(e.h)
	case oHStrLen:
		if i >= 0 {
			r.n = len(e.h[i].v)
		}
	case oHIncrBy:
		var n int64
		if i >= 0 {
			var ok bool
			nd.Assume(e.h[i].v != "")
			if n, ok = integer(e.h[i].v); !ok {
				return bad
			}
		}
		if !fits(n, o.n) {
			return bad
		}
		n += o.n
		e.kind = hash
		e.put(o.f, strconv.FormatInt(n, 10))
		r.n = int(n)
	case oHIncrByFloat:
		x := o.x
		if i >= 0 {
			nd.Assume(e.h[i].v != "")
			y, ok := number(e.h[i].v)
			if !ok {
				return bad
			}
			x = y + x
		}
		nd.Assume(!math.IsInf(x, 0) && !math.IsNaN(x))
		e.kind = hash
		e.put(o.f, text(x))
		r.x = x
	case oHMSet:
		e.kind = hash
		r.n = e.put(o.f, o.v)
		if !o.one {
			r.n += e.put(o.f2, o.v2)
		}
	case oHMGet:
		for _, f := range o.fields() {
			if j := e.find(f); j >= 0 {
				r.list = append(r.list, e.h[j].v)
				r.errs = append(r.errs, 0)
			} else {
				r.list = append(r.list, "")
				r.errs = append(r.errs, 1)
			}
		}
	case oHKeys:
		for _, p := range e.h {
			r.set = append(r.set, p.f)
		}
	case oHVals:
		for _, p := range e.h {
			r.set = append(r.set, p.v)
		}
	case oHGetAll:
		for _, p := range e.h {
			r.set = append(r.set, p.f)
			r.vals = append(r.vals, p.v)
		}
	case oHGet:
		if i < 0 {
			return res{err: 1}
		}
		r.s = e.h[i].v
	}
	return
}

// do issues the command on both and compares the answers.
func (o op) do(c *cache.Cache, m *model) {
	want := o.ref(m)
	nd.Assert(same(o.run(c), want), names[o.c]+" answers wrongly")
}

var names = []string{"Set", "SetNX", "SetEX", "PSetEX", "Get", "GetSet", "StrLen", "Append", "SetRange", "GetRange", "Incr", "IncrBy", "IncrByFloat", "Decr", "DecrBy",
	"MSet", "MSetNX", "MGet", "Del", "Exists", "Type", "Flush", "HSet", "HSetNX", "HExists", "HDel", "HLen", "HStrLen", "HIncrBy", "HIncrByFloat", "HMSet", "HMGet",
	"HKeys", "HVals", "HGetAll", "HGet"}

// matches reports whether the cache holds what the reference holds for a key. It
// looks with the commands Type, Get, HLen and HGetAll.
func matches(c *cache.Cache, m *model, k string) bool {
	e := m.at(k)
	if e.kind == hash && len(e.h) == 0 {
		return true // whether an emptied hash still exists is left open
	}
	if c.Type(k) != []string{"none", "string", "hash"}[e.kind] {
		return false
	}
	switch e.kind {
	case none:
		_, err := c.Get(k)
		return err != nil
	case str:
		s, err := c.Get(k)
		return err == nil && s == e.s
	}
	for _, o := range []int{oHLen, oHGetAll} {
		w := op{c: o, k: k}
		if !same(w.run(c), w.refHash(e)) {
			return false
		}
	}
	return true
}

func agree(c *cache.Cache, m *model, what string, keys ...string) {
	for _, k := range keys {
		nd.Assert(matches(c, m, k), what)
	}
}

// guard turns a panic into a failure.
func guard() {
	if e := recover(); e != nil {
		nd.Fail("a cache command panicked")
	}
}

// start makes an empty cache. Iteration orders are explored in the entries that ask
// for it.
func start() (*cache.Cache, *model) {
	nd.MapOrder(1)
	return cache.New(), &model{}
}

// word is text that is not a number.
func word(name string) string { return "w" + nd.Str(name, 1) }

// value is text of some kind: a word, any integer, a decimal fraction in canonical
// and other forms, empty, or one arbitrary byte.
func value(name string, kinds int) string {
	switch nd.Choice(name+"kind", kinds) {
	case 0:
		return word(name)
	case 1:
		return strconv.FormatInt(nd.Int64(name+"int"), 10)
	case 2:
		return "1.5"
	case 3:
		return ""
	case 4:
		return "2.50"
	}
	return nd.Str(name, 1)
}

// A key is brought into one of these states with ordinary commands.
const states = 12

func prepare(c *cache.Cache, m *model, k string, st int) {
	switch st {
	case 0: // absent
	case 1:
		op{c: oSet, k: k, v: word("init")}.do(c, m)
	case 2: // a hash
		op{c: oHSet, k: k, f: "f", v: word("initf")}.do(c, m)
		op{c: oHSet, k: k, f: "g", v: "7"}.do(c, m)
	case 3: // a counter
		op{c: oIncrBy, k: k, n: nd.Int64("initn")}.do(c, m)
	case 4: // alive for long
		op{c: oSetEX, k: k, v: word("init"), n: 1000}.do(c, m)
	case 5: // expired
		op{c: oPSetEX, k: k, v: word("init"), n: 10}.do(c, m)
		m.advance(int64(20 * time.Millisecond))
	case 6: // deleted
		op{c: oSetEX, k: k, v: "x", n: 5}.do(c, m)
		op{c: oDel, k: k}.do(c, m)
	case 7:
		op{c: oIncrByFloat, k: k, x: 1.5}.do(c, m)
	case 8: // an old lifetime discarded by an overwrite
		op{c: oPSetEX, k: k, v: "x", n: 10}.do(c, m)
		op{c: oSet, k: k, v: "12"}.do(c, m)
		m.advance(int64(20 * time.Millisecond))
	case 9: // a hash in place of an expired string
		op{c: oPSetEX, k: k, v: "x", n: 10}.do(c, m)
		m.advance(int64(20 * time.Millisecond))
		op{c: oHSetNX, k: k, f: "f", v: "3"}.do(c, m)
	case 10:
		op{c: oSet, k: k, v: ""}.do(c, m)
	case 20: // a small counter
		op{c: oIncrBy, k: k, n: 5}.do(c, m)
	case 11: // a deleted hash
		op{c: oHSet, k: k, f: "f", v: "3"}.do(c, m)
		op{c: oDel, k: k}.do(c, m)
	}
}
