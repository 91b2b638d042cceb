package main

import (
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type regFn func(name string, f intrinsicFn)

func (p *Path) slotOf(v Value) *Value {
	a := p.cptr(v.(Ptr))
	if a.p == nil {
		panic(p.nilDeref())
	}
	return a.p
}

func obj[T any](p *Path, v Value) T {
	s := p.slotOf(v)
	o, ok := (*s).(T)
	if !ok {
		p.unsupported("synchronisation object of unexpected shape")
	}
	return o
}

func regSync(reg func(string, intrinsicFn)) {
	type F = *ssa.Function
	reg("(*sync.Mutex).Lock", func(p *Path, g *G, c *frame, fn F, a []Value) Value { p.lock(g, obj[*MutexObj](p, a[0])); return nil })
	reg("(*sync.Mutex).Unlock", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		p.unlock(g, obj[*MutexObj](p, a[0]))
		return nil
	})
	reg("(*sync.Mutex).TryLock", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		m := obj[*MutexObj](p, a[0])
		p.schedPoint(g, "trylock")
		if m.locked {
			return p.tc.tFalse
		}
		m.locked = true
		g.acquire(m.vc)
		return p.tc.tTrue
	})
	reg("(*sync.RWMutex).Lock", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		p.rwLock(g, obj[*RWMutexObj](p, a[0]))
		return nil
	})
	reg("(*sync.RWMutex).Unlock", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		p.rwUnlock(g, obj[*RWMutexObj](p, a[0]))
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		p.rLock(g, obj[*RWMutexObj](p, a[0]))
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		p.rUnlock(g, obj[*RWMutexObj](p, a[0]))
		return nil
	})
	reg("(*sync.RWMutex).TryLock", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		m := obj[*RWMutexObj](p, a[0])
		p.schedPoint(g, "trylock")
		if m.w || m.readers > 0 {
			return p.tc.tFalse
		}
		m.w = true
		g.acquire(m.vc)
		g.acquire(m.rvc)
		return p.tc.tTrue
	})
	reg("(*sync.RWMutex).TryRLock", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		m := obj[*RWMutexObj](p, a[0])
		p.schedPoint(g, "trylock")
		if m.w || m.wWait > 0 {
			return p.tc.tFalse
		}
		m.readers++
		g.acquire(m.vc)
		return p.tc.tTrue
	})
	reg("(*sync.Once).Do", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		o := obj[*OnceObj](p, a[0])
		p.schedPoint(g, "once")
		p.block(g, "once", func() bool { return !o.busy })
		if o.done {
			g.acquire(o.vc)
			return nil
		}
		o.busy = true
		defer func() { o.busy = false; o.done = true; g.release(&o.vc) }()
		p.callValue(g, c, a[1], nil)
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		w := obj[*WGObj](p, a[0])
		w.n += p.intVal(a[1])
		g.release(&w.vc)
		if w.n < 0 {
			panic(p.rtPanicPlain("sync: negative WaitGroup counter"))
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		w := obj[*WGObj](p, a[0])
		w.n--
		g.release(&w.vc)
		if w.n < 0 {
			panic(p.rtPanicPlain("sync: negative WaitGroup counter"))
		}
		p.schedPoint(g, "wg")
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		w := obj[*WGObj](p, a[0])
		p.block(g, "waitgroup", func() bool { return w.n == 0 })
		g.acquire(w.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		w := obj[*WGObj](p, a[0])
		w.n++
		f := a[1]
		p.spawn(g, &Closure{native: func(p *Path, g *G, _ []Value) Value {
			p.callValue(g, nil, f, nil)
			w.n--
			g.release(&w.vc)
			return nil
		}}, nil, nil)
		return nil
	})
	// Cond
	reg("(*sync.Cond).Wait", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		s := p.slotOf(a[0])
		st := (*s).(*StructObj)
		var l Iface
		for i := range st.f {
			if st.t.Field(i).Name() == "L" {
				l = st.f[i].(Iface)
			}
		}
		co, _ := p.side[s].(*CondObj)
		if co == nil {
			co = &CondObj{}
			p.side[s] = co
		}
		flag := new(bool)
		co.waiters = append(co.waiters, flag)
		p.callMethod(g, c, l, "Unlock")
		p.block(g, "cond wait", func() bool { return *flag })
		p.callMethod(g, c, l, "Lock")
		return nil
	})
	sig := func(all bool) intrinsicFn {
		return func(p *Path, g *G, c *frame, fn F, a []Value) Value {
			co, _ := p.side[p.slotOf(a[0])].(*CondObj)
			for co != nil && len(co.waiters) > 0 {
				*co.waiters[0] = true
				co.waiters = co.waiters[1:]
				if !all {
					break
				}
			}
			p.schedPoint(g, "signal")
			return nil
		}
	}
	reg("(*sync.Cond).Signal", sig(false))
	reg("(*sync.Cond).Broadcast", sig(true))
	// Pool: always a fresh object
	reg("(*sync.Pool).Get", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		st := (*p.slotOf(a[0])).(*StructObj)
		for i := range st.f {
			if st.t.Field(i).Name() == "New" {
				if f, ok := st.f[i].(*Closure); ok && f != nil {
					return p.callValue(g, c, f, nil)
				}
			}
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", nopZero)

	// sync.Map
	sm := func(f func(p *Path, g *G, c *frame, m *MapObj, a []Value) Value) intrinsicFn {
		return func(p *Path, g *G, c *frame, fn F, a []Value) Value {
			s := obj[*SyncMapObj](p, a[0])
			p.schedPoint(g, "syncmap")
			if s.m == nil {
				s.m = newMap(nil)
			}
			g.acquire(s.m.vc)
			r := f(p, g, c, s.m, a[1:])
			g.release(&s.m.vc)
			return r
		}
	}
	hk := func(p *Path, k Value) {
		if x, ok := k.(Iface); ok && x.t != nil && !types.Comparable(x.t) {
			panic(p.rtPanic("runtime error: hash of unhashable type " + x.t.String()))
		}
	}
	reg("(*sync.Map).Load", sm(func(p *Path, g *G, c *frame, m *MapObj, a []Value) Value {
		hk(p, a[0])
		if e := p.mapFind(m, a[0]); e != nil {
			return []Value{e.v, p.tc.tTrue}
		}
		return []Value{Iface{}, p.tc.tFalse}
	}))
	reg("(*sync.Map).Store", sm(func(p *Path, g *G, c *frame, m *MapObj, a []Value) Value {
		hk(p, a[0])
		p.mapSet(m, a[0], a[1])
		return nil
	}))
	reg("(*sync.Map).LoadOrStore", sm(func(p *Path, g *G, c *frame, m *MapObj, a []Value) Value {
		hk(p, a[0])
		if e := p.mapFind(m, a[0]); e != nil {
			return []Value{e.v, p.tc.tTrue}
		}
		p.mapAdd(m, a[0], a[1])
		return []Value{a[1], p.tc.tFalse}
	}))
	reg("(*sync.Map).LoadAndDelete", sm(func(p *Path, g *G, c *frame, m *MapObj, a []Value) Value {
		if e := p.mapDel(m, a[0]); e != nil {
			return []Value{e.v, p.tc.tTrue}
		}
		return []Value{Iface{}, p.tc.tFalse}
	}))
	reg("(*sync.Map).Delete", sm(func(p *Path, g *G, c *frame, m *MapObj, a []Value) Value {
		hk(p, a[0])
		p.mapDel(m, a[0])
		return nil
	}))
	reg("(*sync.Map).Swap", sm(func(p *Path, g *G, c *frame, m *MapObj, a []Value) Value {
		if e := p.mapFind(m, a[0]); e != nil {
			o := e.v
			e.v = a[1]
			return []Value{o, p.tc.tTrue}
		}
		p.mapAdd(m, a[0], a[1])
		return []Value{Iface{}, p.tc.tFalse}
	}))
	reg("(*sync.Map).CompareAndSwap", sm(func(p *Path, g *G, c *frame, m *MapObj, a []Value) Value {
		if e := p.mapFind(m, a[0]); e != nil && p.branch(p.equal(e.v, a[1])) {
			e.v = a[2]
			return p.tc.tTrue
		}
		return p.tc.tFalse
	}))
	reg("(*sync.Map).CompareAndDelete", sm(func(p *Path, g *G, c *frame, m *MapObj, a []Value) Value {
		if e := p.mapFind(m, a[0]); e != nil && p.branch(p.equal(e.v, a[1])) {
			p.mapDel(m, a[0])
			return p.tc.tTrue
		}
		return p.tc.tFalse
	}))
	reg("(*sync.Map).Clear", sm(func(p *Path, g *G, c *frame, m *MapObj, a []Value) Value {
		for _, e := range m.ents {
			e.dead = true
		}
		vc := m.vc
		*m = MapObj{idx: map[interface{}]*mapEnt{}, vc: vc}
		return nil
	}))
	reg("(*sync.Map).Range", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		s := obj[*SyncMapObj](p, a[0])
		p.schedPoint(g, "syncmap")
		if s.m == nil {
			s.m = newMap(nil)
		}
		g.acquire(s.m.vc)
		g.release(&s.m.vc)
		for i, e := range p.iterOrder(s.m, nil) {
			if i > 0 {
				p.schedPoint(g, "syncmap range")
				g.acquire(s.m.vc)
				g.release(&s.m.vc)
			}
			if e.dead {
				continue
			}
			if !p.branch(p.callValue(g, c, a[1], []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	})
	// atomic.Value
	reg("(*sync/atomic.Value).Load", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		o := obj[*AtomicValObj](p, a[0])
		p.schedPoint(g, "atomic")
		g.acquire(o.vc)
		return o.v
	})
	reg("(*sync/atomic.Value).Store", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		o := obj[*AtomicValObj](p, a[0])
		p.schedPoint(g, "atomic")
		o.v = a[1]
		g.release(&o.vc)
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		o := obj[*AtomicValObj](p, a[0])
		p.schedPoint(g, "atomic")
		g.acquire(o.vc)
		r := o.v
		o.v = a[1]
		g.release(&o.vc)
		return r
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		o := obj[*AtomicValObj](p, a[0])
		p.schedPoint(g, "atomic")
		g.acquire(o.vc)
		if p.branch(p.equal(o.v, a[1])) {
			o.v = a[2]
			g.release(&o.vc)
			return p.tc.tTrue
		}
		return p.tc.tFalse
	})
}

type atomVC struct{ vc VC }

func (p *Path) atomSync(g *G, s *Value) {
	k := [2]interface{}{"atom", s}
	v, _ := p.side[k].(*atomVC)
	if v == nil {
		v = &atomVC{}
		p.side[k] = v
	}
	g.acquire(v.vc)
	g.release(&v.vc)
}

func atomicIntrinsic(name string) intrinsicFn {
	ld := func(p *Path, s *Value, fn *ssa.Function) Value {
		if *s == nil {
			return p.zero(fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem())
		}
		return *s
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			s := p.slotOf(a[0])
			p.schedPoint(g, "atomic")
			p.atomSync(g, s)
			return ld(p, s, fn)
		}
	case strings.HasPrefix(name, "Store"):
		return func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			s := p.slotOf(a[0])
			p.schedPoint(g, "atomic")
			p.atomSync(g, s)
			*s = a[1]
			return nil
		}
	case strings.HasPrefix(name, "Add"):
		return func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			s := p.slotOf(a[0])
			p.schedPoint(g, "atomic")
			p.atomSync(g, s)
			r := p.tc.Bin(OAdd, ld(p, s, fn).(*Term), a[1].(*Term))
			*s = r
			return r
		}
	case strings.HasPrefix(name, "Swap"):
		return func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			s := p.slotOf(a[0])
			p.schedPoint(g, "atomic")
			p.atomSync(g, s)
			r := ld(p, s, fn)
			*s = a[1]
			return r
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			s := p.slotOf(a[0])
			p.schedPoint(g, "atomic")
			p.atomSync(g, s)
			if p.branch(p.equal(ld(p, s, fn), a[1])) {
				*s = a[2]
				return p.tc.tTrue
			}
			return p.tc.tFalse
		}
	case strings.HasPrefix(name, "And"), strings.HasPrefix(name, "Or"):
		op := OBand
		if strings.HasPrefix(name, "Or") {
			op = OBor
		}
		return func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			s := p.slotOf(a[0])
			p.schedPoint(g, "atomic")
			p.atomSync(g, s)
			r := ld(p, s, fn).(*Term)
			*s = p.tc.Bin(op, r, a[1].(*Term))
			return r
		}
	}
	return nil
}

// ---- time ----

const epochNs = int64(1_900_000_000) * 1_000_000_000
const monoTag = uint64(1) << 63

type ticker struct {
	c       *ChanObj
	stopped bool
	slot    *Value
}

type timerObj struct {
	at      *Term
	c       *ChanObj
	f       Value
	stopped bool
	slot    *Value
}

func (p *Path) mkTime(ext *Term) Value {
	t := p.w.prog.prog.ImportedPackage("time").Type("Time").Type()
	v := p.zero(t).(*StructObj)
	v.f[0] = p.tc.Const(64, monoTag)
	v.f[1] = ext
	return v
}

func (p *Path) timeNow() Value { return p.mkTime(p.clock) }

// timeExt gives the virtual instant of a time; ok is false for the zero time.
func (p *Path) timeExt(v Value) (*Term, bool) {
	s := v.(*StructObj)
	w := s.f[0].(*Term)
	if w.op == OConst && w.k == monoTag {
		return s.f[1].(*Term), true
	}
	if e := s.f[1].(*Term); w.op == OConst && w.k == 0 && e.op == OConst && e.k == 0 {
		return nil, false
	}
	p.unsupported("time value outside the clock model")
	return nil, false
}

func (p *Path) satAdd(a, b *Term) *Term {
	if a.op == OConst && a.k == 0 {
		return b
	}
	if b.op == OConst && b.k == 0 {
		return a
	}
	s := p.tc.Bin(OAdd, a, b)
	z := p.tc.Const(64, 0)
	pos := p.tc.And(p.tc.Slt(z, b), p.tc.Slt(s, a))
	neg := p.tc.And(p.tc.Slt(b, z), p.tc.Slt(a, s))
	return p.tc.Ite(pos, p.tc.Const(64, math.MaxInt64), p.tc.Ite(neg, p.tc.Const(64, 1<<63), s))
}

func (p *Path) satSub(a, b *Term) *Term {
	d := p.tc.Bin(OSub, a, b)
	z := p.tc.Const(64, 0)
	// overflow: signs of a and b differ and sign of d differs from a
	ovf := p.tc.And(p.tc.Not(p.tc.Eq(p.tc.Slt(a, z), p.tc.Slt(b, z))), p.tc.Not(p.tc.Eq(p.tc.Slt(d, z), p.tc.Slt(a, z))))
	r := p.tc.Ite(ovf, p.tc.Ite(p.tc.Slt(a, z), p.tc.Const(64, 1<<63), p.tc.Const(64, math.MaxInt64)), d)
	if r.op != OConst && r != a {
		p.tc.diffOf[r] = [2]*Term{a, b}
	}
	return r
}

func (p *Path) timeCmp(a, b Value, f func(x, y *Term) *Term, zz, zb, az bool) Value {
	x, ok1 := p.timeExt(a)
	y, ok2 := p.timeExt(b)
	switch {
	case !ok1 && !ok2:
		return p.tc.Bool(zz)
	case !ok1:
		return p.tc.Bool(zb)
	case !ok2:
		return p.tc.Bool(az)
	}
	return f(x, y)
}

func regTime(reg func(string, intrinsicFn)) {
	type F = *ssa.Function
	reg("time.Now", func(p *Path, g *G, c *frame, fn F, a []Value) Value { return p.timeNow() })
	reg("time.runtimeNow", func(p *Path, g *G, c *frame, fn F, a []Value) Value { p.unsupported("runtimeNow"); return nil })
	reg("(time.Time).Add", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		x, ok := p.timeExt(a[0])
		if !ok {
			return a[0]
		}
		return p.mkTime(p.satAdd(x, a[1].(*Term)))
	})
	reg("(time.Time).Sub", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		x, ok1 := p.timeExt(a[0])
		y, ok2 := p.timeExt(a[1])
		switch {
		case !ok1 && !ok2:
			return p.tc.Const(64, 0)
		case !ok1:
			return p.tc.Const(64, 1<<63)
		case !ok2:
			return p.tc.Const(64, math.MaxInt64)
		}
		return p.satSub(x, y)
	})
	reg("(time.Time).Before", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		return p.timeCmp(a[0], a[1], p.tc.Slt, false, true, false)
	})
	reg("(time.Time).After", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		return p.timeCmp(a[0], a[1], func(x, y *Term) *Term { return p.tc.Slt(y, x) }, false, false, true)
	})
	reg("(time.Time).Equal", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		return p.timeCmp(a[0], a[1], p.tc.Eq, true, false, false)
	})
	reg("(time.Time).Compare", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		x, ok1 := p.timeExt(a[0])
		y, ok2 := p.timeExt(a[1])
		switch {
		case !ok1 && !ok2:
			return p.i64(0)
		case !ok1:
			return p.i64(-1)
		case !ok2:
			return p.i64(1)
		}
		return p.tc.Ite(p.tc.Slt(x, y), p.i64(-1), p.tc.Ite(p.tc.Eq(x, y), p.i64(0), p.i64(1)))
	})
	reg("(time.Time).IsZero", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		_, ok := p.timeExt(a[0])
		return p.tc.Bool(!ok)
	})
	unix := func(div int64) intrinsicFn {
		return func(p *Path, g *G, c *frame, fn F, a []Value) Value {
			x, ok := p.timeExt(a[0])
			if !ok {
				p.unsupported("Unix of zero time")
			}
			t := p.satAdd(x, p.tc.Const(64, uint64(epochNs)))
			if div == 1 {
				return t
			}
			return p.tc.Bin(OSdiv, t, p.tc.Const(64, uint64(div)))
		}
	}
	reg("(time.Time).UnixNano", unix(1))
	reg("(time.Time).UnixMicro", unix(1000))
	reg("(time.Time).UnixMilli", unix(1000000))
	reg("(time.Time).Unix", unix(1000000000))
	from := func(mul int64) intrinsicFn {
		return func(p *Path, g *G, c *frame, fn F, a []Value) Value {
			v := a[0].(*Term)
			lim := math.MaxInt64 / mul
			var ns *Term
			switch {
			case p.branch(p.tc.Slt(p.tc.Const(64, uint64(lim)), v)):
				ns = p.tc.Const(64, math.MaxInt64)
			case p.branch(p.tc.Slt(v, p.tc.Const(64, uint64(-lim)))):
				ns = p.tc.Const(64, 1<<63)
			default:
				ns = p.tc.Bin(OMul, v, p.tc.Const(64, uint64(mul)))
			}
			if len(a) > 1 {
				ns = p.satAdd(ns, a[1].(*Term))
			}
			return p.mkTime(p.satSub(ns, p.tc.Const(64, uint64(epochNs))))
		}
	}
	reg("time.Unix", from(1000000000))
	reg("time.UnixMilli", from(1000000))
	reg("time.UnixMicro", from(1000))
	reg("time.Since", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		x, ok := p.timeExt(a[0])
		if !ok {
			return p.tc.Const(64, math.MaxInt64)
		}
		return p.satSub(p.clock, x)
	})
	reg("time.Until", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		x, ok := p.timeExt(a[0])
		if !ok {
			return p.tc.Const(64, 1<<63)
		}
		return p.satSub(x, p.clock)
	})
	for _, n := range []string{"UTC", "Local", "In", "Round", "Truncate"} {
		reg("(time.Time)."+n, ident)
	}
	for _, n := range []string{"String", "Format", "GoString"} {
		reg("(time.Time)."+n, func(p *Path, g *G, c *frame, fn F, a []Value) Value { return Str{s: "time"} })
	}
	reg("(time.Duration).String", func(p *Path, g *G, c *frame, fn F, a []Value) Value { return Str{s: "duration"} })
	reg("time.Sleep", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		d := a[0].(*Term)
		if p.branch(p.tc.Sle(d, p.tc.Const(64, 0))) {
			p.schedPoint(g, "sleep")
			return nil
		}
		t := &timerObj{at: p.satAdd(p.clock, d)}
		p.timers = append(p.timers, t)
		p.block(g, "sleep", func() bool { return t.stopped })
		return nil
	})
	mkTicker := func(p *Path, tn string) (*ChanObj, *Value) {
		tt := p.w.prog.prog.ImportedPackage("time")
		st := p.zero(tt.Type(tn).Type()).(*StructObj)
		ch := &ChanObj{cap: 1, et: tt.Type("Time").Type()}
		for i := range st.f {
			if st.t.Field(i).Name() == "C" {
				st.f[i] = ch
			}
		}
		slot := new(Value)
		*slot = st
		return ch, slot
	}
	reg("time.NewTicker", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		d := a[0].(*Term)
		if p.branch(p.tc.Sle(d, p.tc.Const(64, 0))) {
			panic(p.rtPanicPlain("non-positive interval for NewTicker"))
		}
		ch, slot := mkTicker(p, "Ticker")
		p.tickers = append(p.tickers, &ticker{c: ch, slot: slot})
		return Ptr{p: slot}
	})
	reg("time.Tick", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		ch, slot := mkTicker(p, "Ticker")
		p.tickers = append(p.tickers, &ticker{c: ch, slot: slot})
		return ch
	})
	reg("(*time.Ticker).Stop", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		for _, t := range p.tickers {
			if t.slot == a[0].(Ptr).p {
				t.stopped = true
			}
		}
		return nil
	})
	reg("(*time.Ticker).Reset", nopZero)
	newTimer := func(p *Path, g *G, d *Term, f Value) (*ChanObj, *Value) {
		ch, slot := mkTicker(p, "Timer")
		t := &timerObj{c: ch, slot: slot, f: f, at: p.satAdd(p.clock, d)}
		if p.branch(p.tc.Sle(d, p.tc.Const(64, 0))) {
			p.fireTimer(g, t)
		} else {
			p.timers = append(p.timers, t)
		}
		return ch, slot
	}
	reg("time.NewTimer", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		_, s := newTimer(p, g, a[0].(*Term), nil)
		return Ptr{p: s}
	})
	reg("time.After", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		ch, _ := newTimer(p, g, a[0].(*Term), nil)
		return ch
	})
	reg("time.AfterFunc", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		_, s := newTimer(p, g, a[0].(*Term), a[1])
		return Ptr{p: s}
	})
	reg("(*time.Timer).Stop", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		for _, t := range p.timers {
			if t.slot == a[0].(Ptr).p && !t.stopped {
				t.stopped = true
				return p.tc.tTrue
			}
		}
		return p.tc.tFalse
	})
	reg("(*time.Timer).Reset", nopZero)
}

func (p *Path) fireTimer(g *G, t *timerObj) {
	t.stopped = true
	if t.f != nil {
		p.spawn(g, t.f, nil, nil)
	} else if t.c != nil && len(t.c.buf) < 1 {
		t.c.push(g, p.timeNow())
	}
}

// advance moves the virtual clock and fires what becomes due.
func (p *Path) advance(g *G, d *Term) {
	p.clock = p.tc.Bin(OAdd, p.clock, d)
	ts := p.timers
	p.timers = nil
	var due []*timerObj
	for _, t := range ts {
		if t.stopped {
			continue
		}
		if p.branch(p.tc.Sle(t.at, p.clock)) {
			due = append(due, t)
		} else {
			p.timers = append(p.timers, t)
		}
	}
	for _, t := range due {
		p.fireTimer(g, t)
	}
}

// ---- files ----

type fileNode struct {
	data []*Term
}

type FileObj struct {
	n      *fileNode
	name   string
	pos    int
	closed bool
	flags  int
}

// errIs is an error that wraps one of package os.
func (p *Path) errIs(msg, of string) Iface {
	t := p.w.prog.prog.ImportedPackage("fmt").Type("wrapError").Type()
	slot := new(Value)
	*slot = p.zero(t)
	so := (*slot).(*StructObj)
	so.f[0], so.f[1] = Str{s: msg}, *p.global(p.w.prog.prog.ImportedPackage("os").Var(of))
	return Iface{t: types.NewPointer(t), v: Ptr{p: slot}}
}

func regOS(reg func(string, intrinsicFn)) {
	type F = *ssa.Function
	// a read bounded by a symbolic count distinguishes only what is there to read
	reg("(*io.LimitedReader).Read", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		if r := a[0].(Ptr); r.p != nil {
			if s, ok := (*r.p).(*StructObj); ok {
				if n, ok := s.f[1].(*Term); ok && n.op != OConst {
					return p.call(g, c, p.w.prog.prog.ImportedPackage(ndPkg).Func("LimitedRead"), a, nil)
				}
			}
		}
		return p.body(g, c, fn, a)
	})
	reg("(runtime.errorString).Error", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		return p.concat(Str{s: "runtime error: "}, a[0].(Str))
	})
	open := func(p *Path, name string, flag int) Value {
		n := p.fs[name]
		const oCreate, oTrunc, oExcl, oAppend = 0x40, 0x200, 0x80, 0x400
		if n == nil {
			if flag&oCreate == 0 {
				return []Value{Ptr{}, p.errIs("open " + name + ": no such file or directory", "ErrNotExist")}
			}
			if strings.Contains(strings.TrimPrefix(name, "/tmp/zzverif/"), "/") {
				return []Value{Ptr{}, p.errIs("open " + name + ": no such file or directory", "ErrNotExist")}
			}
			n = &fileNode{}
			p.fs[name] = n
		} else if flag&oExcl != 0 && flag&oCreate != 0 {
			return []Value{Ptr{}, p.errIs("open "+name+": file exists", "ErrExist")}
		}
		if flag&oTrunc != 0 {
			n.data = nil
		}
		f := &FileObj{n: n, name: name, flags: flag}
		if flag&oAppend != 0 {
			f.pos = len(n.data)
		}
		s := new(Value)
		*s = f
		return []Value{Ptr{p: s}, Iface{}}
	}
	reg("os.OpenFile", func(p *Path, g *G, c *frame, fn F, a []Value) Value { return open(p, p.goString(a[0]), p.intVal(a[1])) })
	reg("os.Open", func(p *Path, g *G, c *frame, fn F, a []Value) Value { return open(p, p.goString(a[0]), 0) })
	reg("os.Create", func(p *Path, g *G, c *frame, fn F, a []Value) Value { return open(p, p.goString(a[0]), 0x242) })
	reg("os.Remove", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		n := p.goString(a[0])
		if p.fs[n] == nil {
			return p.errIs("remove " + n + ": no such file or directory", "ErrNotExist")
		}
		delete(p.fs, n)
		return Iface{}
	})
	reg("os.Rename", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		n, m := p.goString(a[0]), p.goString(a[1])
		if p.fs[n] == nil {
			return p.errIs("rename " + n + ": no such file or directory", "ErrNotExist")
		}
		p.fs[m] = p.fs[n]
		delete(p.fs, n)
		return Iface{}
	})
	reg("os.ReadFile", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		n := p.goString(a[0])
		if p.fs[n] == nil {
			return []Value{Slice{}, p.errIs("open " + n + ": no such file or directory", "ErrNotExist")}
		}
		return []Value{p.strToBytes(p.mkStr(p.fs[n].data), types.Typ[types.Uint8]), Iface{}}
	})
	reg("os.WriteFile", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		n := p.goString(a[0])
		p.fs[n] = &fileNode{data: p.strBytes(p.bytesToStr(a[1].(Slice)))}
		return Iface{}
	})
	file := func(p *Path, v Value) *FileObj {
		a := v.(Ptr)
		if a.p == nil {
			return nil
		}
		f, _ := (*a.p).(*FileObj)
		return f
	}
	eof := func(p *Path) Value {
		return *p.global(p.w.prog.prog.ImportedPackage("io").Var("EOF"))
	}
	read := func(p *Path, f *FileObj, s Slice) (int, Value) {
		if f == nil || f.closed {
			return 0, p.errNew("file already closed")
		}
		if s.len == 0 {
			return 0, Iface{}
		}
		if f.flags&3 == 1 {
			return 0, p.errNew("bad file descriptor")
		}
		if f.pos >= len(f.n.data) {
			return 0, eof(p)
		}
		n := min(s.len, len(f.n.data)-f.pos)
		for i := 0; i < n; i++ {
			s.arr.e[s.off+i] = f.n.data[f.pos+i]
		}
		f.pos += n
		return n, Iface{}
	}
	write := func(p *Path, f *FileObj, b []*Term) (int, Value) {
		if f == nil || f.closed {
			return 0, p.errNew("file already closed")
		}
		if f.flags&3 == 0 {
			return 0, p.errNew("bad file descriptor")
		}
		d := append([]*Term(nil), f.n.data...)
		for len(d) < f.pos {
			d = append(d, p.tc.Const(8, 0))
		}
		d = append(d[:f.pos], append(append([]*Term(nil), b...), d[min(len(d), f.pos+len(b)):]...)...)
		f.n.data = d
		f.pos += len(b)
		return len(b), Iface{}
	}
	reg("(*os.File).Read", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		n, e := read(p, file(p, a[0]), a[1].(Slice))
		return []Value{p.i64(n), e}
	})
	reg("(*os.File).Write", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		n, e := write(p, file(p, a[0]), p.strBytes(p.bytesToStr(a[1].(Slice))))
		return []Value{p.i64(n), e}
	})
	reg("(*os.File).WriteString", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		n, e := write(p, file(p, a[0]), p.strBytes(a[1].(Str)))
		return []Value{p.i64(n), e}
	})
	reg("(*os.File).ReadFrom", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		f := file(p, a[0])
		r := a[1].(Iface)
		total := 0
		for {
			buf := Slice{p.newArray(types.Typ[types.Uint8], 512), 0, 512, 512}
			res := p.callMethod(g, c, r, "Read", buf).([]Value)
			n := p.intVal(res[0])
			if n > 0 {
				buf.len = n
				w, e := write(p, f, p.strBytes(p.bytesToStr(buf)))
				total += w
				if e.(Iface).t != nil {
					return []Value{p.i64(total), e}
				}
			}
			if e := res[1].(Iface); e.t != nil {
				if p.branch(p.equal(e, eof(p))) {
					return []Value{p.i64(total), Iface{}}
				}
				return []Value{p.i64(total), e}
			}
			p.steps += 20
			p.step()
		}
	})
	reg("(*os.File).WriteTo", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		f := file(p, a[0])
		if f == nil || f.closed {
			return []Value{p.i64(0), p.errNew("file already closed")}
		}
		if f.flags&3 == 1 {
			return []Value{p.i64(0), p.errNew("bad file descriptor")}
		}
		rest := p.mkStr(f.n.data[min(f.pos, len(f.n.data)):])
		f.pos = len(f.n.data)
		if p.strLen(rest) == 0 {
			return []Value{p.i64(0), Iface{}}
		}
		return p.callMethod(g, c, a[1].(Iface), "Write", p.strToBytes(rest, types.Typ[types.Uint8]))
	})
	reg("(*os.File).Close", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		f := file(p, a[0])
		if f == nil {
			return p.errNew("invalid argument")
		}
		if f.closed {
			return p.errNew("close " + f.name + ": file already closed")
		}
		f.closed = true
		return Iface{}
	})
	stat := func(p *Path, name string, size int) Value {
		t := p.w.prog.prog.ImportedPackage("os").Type("fileStat").Type()
		slot := new(Value)
		*slot = p.zero(t)
		so := (*slot).(*StructObj)
		so.f[0], so.f[1] = Str{s: name[strings.LastIndexByte(name, '/')+1:]}, p.i64(size)
		return []Value{Iface{t: types.NewPointer(t), v: Ptr{p: slot}}, Iface{}}
	}
	reg("(*os.File).Stat", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		f := file(p, a[0])
		if f == nil || f.closed {
			return []Value{Iface{}, p.errNew("use of closed file")}
		}
		return stat(p, f.name, len(f.n.data))
	})
	for _, n := range []string{"os.Stat", "os.Lstat"} {
		reg(n, func(p *Path, g *G, c *frame, fn F, a []Value) Value {
			n := p.goString(a[0])
			if p.fs[n] == nil {
				return []Value{Iface{}, p.errIs("stat " + n + ": no such file or directory", "ErrNotExist")}
			}
			return stat(p, n, len(p.fs[n].data))
		})
	}
	cut := func(p *Path, f *fileNode, n int) {
		d := append([]*Term(nil), f.data[:min(n, len(f.data))]...)
		for len(d) < n {
			d = append(d, p.tc.Const(8, 0))
		}
		f.data = d
	}
	reg("(*os.File).Truncate", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		f := file(p, a[0])
		n := p.intVal(a[1])
		if f == nil || f.closed || f.flags&3 == 0 || n < 0 {
			return p.errNew("invalid argument")
		}
		cut(p, f.n, n)
		return Iface{}
	})
	reg("os.Truncate", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		f := p.fs[p.goString(a[0])]
		n := p.intVal(a[1])
		if f == nil || n < 0 {
			return p.errNew("invalid argument")
		}
		cut(p, f, n)
		return Iface{}
	})
	at := func(f func(p *Path, o *FileObj, s Slice) (int, Value)) intrinsicFn {
		return func(p *Path, g *G, c *frame, fn F, a []Value) Value {
			o := file(p, a[0])
			n := p.intVal(a[2])
			if o == nil || n < 0 {
				return []Value{p.i64(0), p.errNew("negative offset")}
			}
			old := o.pos
			o.pos = n
			k, e := f(p, o, a[1].(Slice))
			o.pos = old
			return []Value{p.i64(k), e}
		}
	}
	reg("(*os.File).ReadAt", at(func(p *Path, o *FileObj, s Slice) (int, Value) {
		n, e := read(p, o, s)
		if n < s.len && e.(Iface).t == nil {
			e = eof(p)
		}
		return n, e
	}))
	reg("(*os.File).WriteAt", at(func(p *Path, o *FileObj, s Slice) (int, Value) {
		return write(p, o, p.strBytes(p.bytesToStr(s)))
	}))
	reg("os.CreateTemp", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		dir, pat := p.goString(a[0]), p.goString(a[1])
		if dir == "" {
			dir = "/tmp/zzverif"
		}
		for i := 0; ; i++ {
			n := strconv.Itoa(i)
			if j := strings.LastIndexByte(pat, '*'); j >= 0 {
				n = pat[:j] + n + pat[j+1:]
			} else {
				n = pat + n
			}
			if n = strings.TrimSuffix(dir, "/") + "/" + n; p.fs[n] == nil {
				return open(p, n, 0xc2)
			}
		}
	})
	reg("os.TempDir", func(p *Path, g *G, c *frame, fn F, a []Value) Value { return Str{s: "/tmp/zzverif"} })
	reg("(*os.File).Name", func(p *Path, g *G, c *frame, fn F, a []Value) Value { return Str{s: file(p, a[0]).name} })
	reg("(*os.File).Sync", func(p *Path, g *G, c *frame, fn F, a []Value) Value { return Iface{} })
	reg("(*os.File).Seek", func(p *Path, g *G, c *frame, fn F, a []Value) Value {
		f := file(p, a[0])
		o, w := p.intVal(a[1]), p.intVal(a[2])
		switch w {
		case 1:
			o += f.pos
		case 2:
			o += len(f.n.data)
		}
		if o < 0 {
			return []Value{p.i64(0), p.errNew("invalid argument")}
		}
		f.pos = o
		return []Value{p.i64(o), Iface{}}
	})
}
