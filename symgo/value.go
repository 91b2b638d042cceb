package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Str is a Go string: concrete (s), a vector of byte terms (b), or an opaque
// formatted float (fl) whose bytes are only known through provenance.
type Str struct {
	s  string
	b  []*Term
	fl *FloatFmt
}

type FloatFmt struct {
	f    *Term
	fmt  byte
	prec int
	bits int
	// int: the decimal text of the integer f instead (signed when sg)
	int, sg bool
	// once its length is decided
	n   int
	neg bool
}

func (s Str) isConc() bool { return s.b == nil && s.fl == nil }

type Slice struct {
	arr      *ArrayObj
	off      int
	len, cap int
}

type ArrayObj struct {
	e  []Value
	et types.Type
}

type StructObj struct {
	f []Value
	t *types.Struct
}

type Ptr struct {
	p   *Value
	arr *ArrayObj // when pointing at an array element
	idx int
	sym *Term // symbolic index into arr (idx is the base, n the number of elements)
	n   int
}

func (p Ptr) isNil() bool { return p.p == nil && p.sym == nil }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(p *Path, g *G, args []Value) Value
}

type MapObj struct {
	ents []*mapEnt
	idx  map[interface{}]*mapEnt // concrete keys
	live int
	nsym int // live entries with symbolic keys
	vc   VC
	kt   types.Type
}

type mapEnt struct {
	k, v Value
	ck   interface{}
	dead bool
}

type mapIter struct {
	m    *MapObj
	ents []*mapEnt
	i    int
	str  *Str // string iteration
}

type ChanObj struct {
	buf    []Value
	bvc    []VC // clock of the sender of each buffered value
	took   []VC // clocks of the receives that freed a slot, oldest first
	cap    int
	closed bool
	recvq  int // number of blocked receivers (unbuffered hand-off)
	et     types.Type
	offers []*offer // pending unbuffered sends
	vc     VC
	never  bool
}

type offer struct {
	v     Value
	taken bool
	vc    VC
	dead  bool
}

type MutexObj struct {
	locked bool
	vc     VC
}

type RWMutexObj struct {
	w       bool
	readers int
	wWait   int
	vc      VC
	rvc     VC
}

type OnceObj struct {
	done bool
	busy bool
	vc   VC
}

type WGObj struct {
	n  int
	vc VC
}

type CondObj struct {
	l       Value
	waiters []*bool
}

type PoolObj struct{ st *StructObj }

type SyncMapObj struct{ m *MapObj }

type AtomicValObj struct {
	v  Value // Iface
	vc VC
}

func pkgTypeName(t types.Type) (string, string) {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path(), n.Obj().Name()
		}
	}
	return "", ""
}

func isScalar(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat) != 0
	}
	return false
}

func width(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("width of %v", t))
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	default:
		return 64
	}
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (p *Path) zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Alias:
		return p.zero(types.Unalias(u))
	case *types.Named:
		if pk, n := pkgTypeName(u); pk == "sync" {
			switch n {
			case "Mutex":
				return &MutexObj{}
			case "RWMutex":
				return &RWMutexObj{}
			case "Once":
				return &OnceObj{}
			case "WaitGroup":
				return &WGObj{}
			case "Map":
				return &SyncMapObj{}
			}
		} else if pk == "sync/atomic" && n == "Value" {
			return &AtomicValObj{v: Iface{}}
		}
		return p.zero(u.Underlying())
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsComplex != 0:
			return nil
		}
		return p.tc.Const(width(u), 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := &StructObj{f: make([]Value, u.NumFields()), t: u}
		for i := range s.f {
			s.f[i] = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return p.newArray(u.Elem(), int(u.Len()))
	case *types.Tuple:
		r := make([]Value, u.Len())
		for i := range r {
			r[i] = p.zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		p.unsupported("zero of type parameter")
	}
	panic(fmt.Sprintf("zero of %T %v", t, t))
}

func (p *Path) newArray(et types.Type, n int) *ArrayObj {
	a := &ArrayObj{e: make([]Value, n), et: et}
	if !isScalar(et) {
		for i := range a.e {
			a.e[i] = p.zero(et)
		}
	}
	return a
}

func (p *Path) elem(a *ArrayObj, i int) Value {
	v := a.e[i]
	if v == nil {
		return p.zero(a.et)
	}
	return v
}

// copyVal makes a value copy (structs and arrays are values in Go).
func (p *Path) copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructObj:
		n := &StructObj{f: make([]Value, len(x.f)), t: x.t}
		for i, f := range x.f {
			n.f[i] = p.copyVal(f)
		}
		return n
	case *ArrayObj:
		n := &ArrayObj{e: make([]Value, len(x.e)), et: x.et}
		if isScalar(x.et) {
			copy(n.e, x.e)
		} else {
			for i, f := range x.e {
				n.e[i] = p.copyVal(f)
			}
		}
		return n
	case *MutexObj:
		c := *x
		return &c
	case *RWMutexObj:
		c := *x
		return &c
	case *OnceObj:
		c := *x
		return &c
	case *WGObj:
		c := *x
		return &c
	}
	return v
}

// storeTo writes v into the slot, keeping the identity of nested objects.
func (p *Path) storeTo(slot *Value, v Value) {
	switch x := v.(type) {
	case *StructObj:
		if d, ok := (*slot).(*StructObj); ok && len(d.f) == len(x.f) {
			if d == x {
				return
			}
			for i := range x.f {
				p.storeTo(&d.f[i], x.f[i])
			}
			return
		}
		*slot = p.copyVal(x)
	case *ArrayObj:
		if d, ok := (*slot).(*ArrayObj); ok && len(d.e) == len(x.e) {
			if d == x {
				return
			}
			if isScalar(d.et) {
				copy(d.e, x.e)
			} else {
				for i := range x.e {
					p.storeTo(&d.e[i], x.e[i])
				}
			}
			return
		}
		*slot = p.copyVal(x)
	case *MutexObj:
		*(*slot).(*MutexObj) = *x
	case *RWMutexObj:
		*(*slot).(*RWMutexObj) = *x
	case *OnceObj:
		*(*slot).(*OnceObj) = *x
	case *WGObj:
		*(*slot).(*WGObj) = *x
	default:
		*slot = v
	}
}

// ---- strings ----

func (p *Path) str(s string) Str { return Str{s: s} }

func (p *Path) strLen(s Str) int {
	if s.fl != nil && s.fl.int && p.side[s.fl] == nil && p.decs[s.fl.f] == nil {
		if s.fl.n == 0 {
			s.fl.n, s.fl.neg = p.intLen(s.fl.f, s.fl.sg)
		}
		return s.fl.n
	}
	if s.fl != nil {
		s = p.flBytes(s)
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (p *Path) strByte(s Str, i int) *Term {
	if s.fl != nil {
		s = p.flBytes(s)
	}
	if s.b != nil {
		return s.b[i]
	}
	return p.tc.bytes[s.s[i]]
}

func (p *Path) strBytes(s Str) []*Term {
	if s.fl != nil {
		s = p.flBytes(s)
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = p.tc.bytes[s.s[i]]
	}
	return r
}

func (p *Path) mkStr(b []*Term) Str {
	conc := true
	for _, t := range b {
		if t.op != OConst {
			conc = false
			break
		}
	}
	if conc {
		r := make([]byte, len(b))
		for i, t := range b {
			r[i] = byte(t.k)
		}
		return Str{s: string(r)}
	}
	return Str{b: b}
}

func (p *Path) strSlice(s Str, lo, hi int) Str {
	if s.fl != nil {
		if lo == 0 && hi == p.strLen(s) {
			return s
		}
		s = p.flBytes(s)
	}
	if s.b != nil {
		return p.mkStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (p *Path) concat(a, b Str) Str {
	if a.isConc() && b.isConc() {
		return Str{s: a.s + b.s}
	}
	if a.isConc() && a.s == "" {
		return b
	}
	if b.isConc() && b.s == "" {
		return a
	}
	x, y := p.strBytes(a), p.strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return p.mkStr(r)
}

func (p *Path) strEq(a, b Str) *Term {
	if a.isConc() && b.isConc() {
		return p.tc.Bool(a.s == b.s)
	}
	if a.fl != nil || b.fl != nil {
		if t := p.flEq(a, b); t != nil {
			return t
		}
		if a.fl != nil {
			a = p.flBytes(a)
		}
		if b.fl != nil {
			b = p.flBytes(b)
		}
	}
	if p.strLen(a) != p.strLen(b) {
		return p.tc.tFalse
	}
	n := p.strLen(a)
	r := p.tc.tTrue
	for i := 0; i < n; i++ {
		r = p.tc.And(r, p.tc.Eq(p.strByte(a, i), p.strByte(b, i)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (p *Path) strLess(a, b Str) *Term {
	if a.isConc() && b.isConc() {
		return p.tc.Bool(a.s < b.s)
	}
	na, nb := p.strLen(a), p.strLen(b)
	n := min(na, nb)
	r := p.tc.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := p.strByte(a, i), p.strByte(b, i)
		r = p.tc.Or(p.tc.Ult(x, y), p.tc.And(p.tc.Eq(x, y), r))
	}
	return r
}

func (p *Path) bytesToStr(s Slice) Str {
	b := make([]*Term, s.len)
	for i := range b {
		b[i] = p.elem(s.arr, s.off+i).(*Term)
	}
	return p.mkStr(b)
}

func (p *Path) strToBytes(s Str, et types.Type) Slice {
	b := p.strBytes(s)
	c := 0
	if es := int(p.w.prog.sizes.Sizeof(et)); len(b) > 0 {
		c = roundSize(len(b)*es, true) / es
	}
	a := &ArrayObj{e: make([]Value, c), et: et}
	for i := range b {
		a.e[i] = b[i]
	}
	return Slice{a, 0, len(b), c}
}

// goString returns the concrete string or aborts as unsupported.
func (p *Path) goString(v Value) string {
	s := v.(Str)
	if s.fl != nil {
		s = p.flBytes(s)
	}
	if s.b != nil {
		// concretize byte by byte
		r := make([]byte, len(s.b))
		for i, t := range s.b {
			r[i] = byte(p.concretize(t))
		}
		return string(r)
	}
	return s.s
}

// equal compares two values of static type t.
func (p *Path) equal(x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		return p.tc.Eq(a, y.(*Term))
	case Str:
		return p.strEq(a, y.(Str))
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return p.tc.tFalse
		}
		return p.tc.Bool(p.cptr(a).p == p.cptr(b).p)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			p.unsupported("iface compare")
		}
		if a.t == nil || b.t == nil {
			return p.tc.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return p.tc.tFalse
		}
		if !types.Comparable(a.t) {
			panic(p.rtPanic("runtime error: comparing uncomparable type " + a.t.String()))
		}
		if isFloat(a.t) {
			return p.tc.FBin(OFEq, a.v.(*Term), b.v.(*Term))
		}
		return p.equal(a.v, b.v)
	case *StructObj:
		b := y.(*StructObj)
		r := p.tc.tTrue
		for i := range a.f {
			if a.t != nil && isFloat(a.t.Field(i).Type()) {
				r = p.tc.And(r, p.tc.FBin(OFEq, a.f[i].(*Term), b.f[i].(*Term)))
				continue
			}
			r = p.tc.And(r, p.equal(a.f[i], b.f[i]))
		}
		return r
	case *ArrayObj:
		b := y.(*ArrayObj)
		r := p.tc.tTrue
		for i := range a.e {
			r = p.tc.And(r, p.equal(p.elem(a, i), p.elem(b, i)))
		}
		return r
	case *MapObj:
		b, _ := y.(*MapObj)
		return p.tc.Bool(a == b)
	case *ChanObj:
		b, _ := y.(*ChanObj)
		return p.tc.Bool(a == b)
	case *Closure:
		b, _ := y.(*Closure)
		return p.tc.Bool(a == b)
	case Slice:
		b, _ := y.(Slice)
		return p.tc.Bool(a.arr == nil && b.arr == nil)
	case nil:
		return p.tc.Bool(y == nil)
	case *SyncMapObj, *MutexObj, *RWMutexObj:
		return p.tc.Bool(x == y)
	}
	p.unsupported(fmt.Sprintf("compare %T", x))
	return nil
}

// deepEqual is reflect.DeepEqual, apart from cyclic data.
func (p *Path) deepEqual(x, y Value, depth int) *Term {
	tc := p.tc
	if depth > 50 {
		p.unsupported("deep comparison")
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok || (a.t == nil) != (b.t == nil) {
			return tc.tFalse
		}
		if a.t == nil {
			return tc.tTrue
		}
		if !types.Identical(a.t, b.t) {
			return tc.tFalse
		}
		if isFloat(a.t) {
			return tc.FBin(OFEq, a.v.(*Term), b.v.(*Term))
		}
		return p.deepEqual(a.v, b.v, depth+1)
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return tc.tFalse
		}
		a, b = p.cptr(a), p.cptr(b)
		if a.p == b.p {
			return tc.tTrue
		}
		if a.p == nil || b.p == nil {
			return tc.tFalse
		}
		return p.deepEqual(*a.p, *b.p, depth+1)
	case Slice:
		b, ok := y.(Slice)
		if !ok || a.len != b.len || (a.arr == nil) != (b.arr == nil) {
			return tc.tFalse
		}
		r := tc.tTrue
		for i := 0; i < a.len && r != tc.tFalse; i++ {
			if isFloat(a.arr.et) {
				r = tc.And(r, tc.FBin(OFEq, p.elem(a.arr, a.off+i).(*Term), p.elem(b.arr, b.off+i).(*Term)))
				continue
			}
			r = tc.And(r, p.deepEqual(p.elem(a.arr, a.off+i), p.elem(b.arr, b.off+i), depth+1))
		}
		return r
	case *StructObj:
		b, ok := y.(*StructObj)
		if !ok || len(a.f) != len(b.f) {
			return tc.tFalse
		}
		r := tc.tTrue
		for i := range a.f {
			if a.t != nil && isFloat(a.t.Field(i).Type()) {
				r = tc.And(r, tc.FBin(OFEq, a.f[i].(*Term), b.f[i].(*Term)))
				continue
			}
			r = tc.And(r, p.deepEqual(a.f[i], b.f[i], depth+1))
		}
		return r
	case *ArrayObj:
		b, ok := y.(*ArrayObj)
		if !ok || len(a.e) != len(b.e) {
			return tc.tFalse
		}
		r := tc.tTrue
		for i := range a.e {
			r = tc.And(r, p.deepEqual(p.elem(a, i), p.elem(b, i), depth+1))
		}
		return r
	case *MapObj:
		b, ok := y.(*MapObj)
		if !ok || (a == nil) != (b == nil) {
			return tc.tFalse
		}
		if a == b {
			return tc.tTrue
		}
		if a.live != b.live {
			return tc.tFalse
		}
		r := tc.tTrue
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			in := tc.tFalse
			for _, f := range b.ents {
				if !f.dead {
					if k := p.equal(e.k, f.k); k != tc.tFalse {
						in = tc.Or(in, tc.And(k, p.deepEqual(e.v, f.v, depth+1)))
					}
				}
			}
			r = tc.And(r, in)
		}
		return r
	case *Closure:
		b, _ := y.(*Closure)
		return tc.Bool(a == nil && b == nil)
	}
	return p.equal(x, y)
}

// cptr makes a symbolic element pointer concrete.
func (p *Path) cptr(a Ptr) Ptr {
	if a.sym == nil {
		return a
	}
	i := int(int64(p.concretize(a.sym)))
	return Ptr{p: &a.arr.e[a.idx+i], arr: a.arr, idx: a.idx + i}
}

// concKey returns a Go-comparable key when v is fully concrete.
func concKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == OConst {
			return x.k, true
		}
	case Str:
		if x.isConc() {
			return x.s, true
		}
	case Ptr:
		if x.sym == nil {
			return x.p, true
		}
	case Iface:
		if x.t == nil {
			return "nil!", true
		}
		k, ok := concKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]interface{}{types.TypeString(x.t, nil), k}, true
	case *StructObj:
		s := ""
		for _, f := range x.f {
			k, ok := concKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%#v;", k)
		}
		return "struct:" + s, true
	}
	return nil, false
}

func newMap(kt types.Type) *MapObj { return &MapObj{idx: map[interface{}]*mapEnt{}, kt: kt} }

// find locates the entry for k, forking on symbolic key equality.
func (p *Path) mapFind(m *MapObj, k Value) *mapEnt {
	if m == nil || m.live == 0 {
		return nil
	}
	ck, conc := concKey(k)
	if conc {
		if e, ok := m.idx[ck]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc && e.ck != nil {
			continue
		}
		eq := p.equal(e.k, k)
		if p.branch(eq) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *MapObj, k, v Value) {
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	p.mapAdd(m, k, v)
}

func (p *Path) mapAdd(m *MapObj, k, v Value) {
	e := &mapEnt{k: k, v: v}
	if ck, ok := concKey(k); ok {
		e.ck = ck
		m.idx[ck] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.live++
}

func (p *Path) mapDel(m *MapObj, k Value) *mapEnt {
	e := p.mapFind(m, k)
	if e == nil {
		return nil
	}
	e.dead = true
	m.live--
	if e.ck != nil {
		delete(m.idx, e.ck)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.live < len(m.ents)/2 {
		var n []*mapEnt
		for _, x := range m.ents {
			if !x.dead {
				n = append(n, x)
			}
		}
		m.ents = n
	}
	return e
}
