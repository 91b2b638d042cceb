package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// VC is a vector clock indexed by goroutine id.
type VC []int

func (v VC) get(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func joinVC(a, b VC) VC {
	if len(b) == 0 {
		return a
	}
	n := max(len(a), len(b))
	r := make(VC, n)
	for i := range r {
		r[i] = max(a.get(i), b.get(i))
	}
	return r
}

type G struct {
	id     int
	resume chan struct{}
	done   bool
	pred   func() bool // nil: runnable
	why    string
	top    *frame
	vc     VC
	daemon bool
	eager  *G // runs up to its first shared operation, then its creator goes on
}

type shadow struct {
	wg, wc int // last write: goroutine, clock
	win    ssa.Instruction
	reads  map[int]rd
}

type rd struct {
	c  int
	in ssa.Instruction
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	n := append(VC(nil), g.vc...)
	n[g.id]++
	g.vc = n
}

// release: the object's clock absorbs g's; acquire: g absorbs the object's.
func (g *G) release(vc *VC) { *vc = joinVC(*vc, g.vc); g.tick() }
func (g *G) acquire(vc VC)  { g.vc = joinVC(g.vc, vc) }

func (p *Path) newG() *G {
	g := &G{id: len(p.gs), resume: make(chan struct{})}
	p.gs = append(p.gs, g)
	g.tick()
	return g
}

// spawn starts a new goroutine (it runs when scheduled).
func (p *Path) spawn(parent *G, fn Value, args []Value, common interface{}) {
	if len(p.gs) > 64 {
		panic(abortPath{"unsupported: too many goroutines"})
	}
	g := p.newG()
	g.acquire(parent.vc)
	g.tick()
	parent.tick()
	p.startG(g, func() {
		if cl, ok := fn.(*Closure); ok && cl != nil {
			p.callValue(g, nil, cl, args)
		} else if b, ok := fn.(*ssa.Builtin); ok && b.Name() == "close" {
			p.chanClose(g, args[0].(*ChanObj))
		} else {
			panic(p.nilDeref())
		}
	})
	if p.explore && p.preempt > 0 && !p.noSteps {
		// what it does before touching anything shared can as well be done now
		g.eager = parent
		p.cur = g
		p.g = g
		g.resume <- struct{}{}
		<-parent.resume
		if p.dead {
			panic(abortPath{"dead"})
		}
		p.g = parent
		return
	}
	p.schedPoint(parent, "go")
}

// giveBack returns control to the creator of an eagerly started goroutine.
func (p *Path) giveBack(g *G, wait bool) {
	n := g.eager
	g.eager = nil
	p.cur = n
	p.g = n
	n.resume <- struct{}{}
	if !wait {
		return
	}
	<-g.resume
	if p.dead {
		panic(abortPath{"dead"})
	}
	p.g = g
}

func (p *Path) startG(g *G, body func()) {
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		<-g.resume
		if p.dead {
			return
		}
		p.g = g
		out := p.guard(body)
		g.done = true
		if p.dead {
			return
		}
		if out != nil {
			p.finish(*out)
			return
		}
		// the goroutine ended; hand over
		if out := p.guard(func() { p.handOver(g, true) }); out != nil {
			p.finish(*out)
		}
	}()
}

// guard runs body and translates host panics into a path outcome.
func (p *Path) guard(body func()) (out *outcome) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case targetPanic:
			out = &outcome{kind: "panic", msg: x.m}
		case abortPath:
			out = classify(x.why)
		case outcome:
			out = &x
		default:
			if p.dead {
				out = &outcome{kind: "dead"}
				return
			}
			out = &outcome{kind: "internal", msg: fmt.Sprint(r) + "\n" + p.where()}
			dbg(hostStack())
		}
	}()
	body()
	return nil
}

// finish ends the path with the outcome; called on the running goroutine.
func (p *Path) finish(o outcome) {
	if p.dead {
		return
	}
	p.out = o
	p.dead = true
	close(p.doneC)
}

func (p *Path) runnable(except *G) []*G {
	var r []*G
	for _, g := range p.gs {
		if g.done || g == except {
			continue
		}
		if g.pred == nil || g.pred() {
			r = append(r, g)
		}
	}
	return r
}

// handOver picks the next goroutine to run when g cannot continue.
func (p *Path) handOver(g *G, ended bool) {
	if g.eager != nil {
		p.giveBack(g, !ended)
		return
	}
	for {
		rs := p.runnable(nil)
		if ended {
			rs = p.runnable(g)
		}
		if len(rs) == 0 {
			p.deadlock()
			return
		}
		k := 0
		if p.explore {
			k = p.choice(len(rs))
		} else {
			// FIFO: the one after g
			for i, x := range rs {
				if x.id > g.id {
					k = i
					break
				}
			}
		}
		n := rs[k]
		n.pred = nil
		p.noteSched(n)
		if n == g {
			return
		}
		p.cur = n
		p.g = n
		n.resume <- struct{}{}
		if ended {
			return
		}
		<-g.resume
		if p.dead {
			panic(abortPath{"dead"})
		}
		p.g = g
		return
	}
}

func (p *Path) deadlock() {
	s := ""
	for _, g := range p.gs {
		if !g.done {
			s += fmt.Sprintf(" g%d:%s", g.id, g.why)
		}
	}
	p.finish(outcome{kind: "deadlock", msg: "all goroutines are blocked:" + s})
	panic(abortPath{"dead"})
}

// block waits until pred holds (pred must be side-effect free).
func (p *Path) block(g *G, why string, pred func() bool) {
	for !pred() {
		g.pred = pred
		g.why = why
		p.handOver(g, false)
		g.pred = nil
	}
}

func (p *Path) noteSched(g *G) {
	if p.explore {
		p.sched = append(p.sched, g.id)
	}
}

// schedPoint is a place where another goroutine may be scheduled first.
func (p *Path) schedPoint(g *G, why string) { p.schedPointIf(g, why, nil) }

// schedPointIf is the same before an operation that waits until enabled holds; until
// then nothing is gained by letting g try.
func (p *Path) schedPointIf(g *G, why string, enabled func() bool) {
	if g.eager != nil {
		g.pred, g.why = enabled, why
		p.giveBack(g, true)
		g.pred = nil
		return
	}
	if !p.explore || p.preempt <= 0 || p.noSteps {
		return
	}
	rs := p.runnable(g)
	if len(rs) == 0 {
		return
	}
	k := p.choice(len(rs) + 1)
	if k == 0 {
		return
	}
	p.preempt--
	g.pred, g.why = enabled, why
	n := rs[k-1]
	n.pred = nil
	p.noteSched(n)
	p.cur = n
	p.g = n
	n.resume <- struct{}{}
	<-g.resume
	if p.dead {
		panic(abortPath{"dead"})
	}
	p.g = g
	g.pred = nil
}

// access records a memory access for race detection; instructions known to
// race become scheduling points.
func (p *Path) access(g *G, in ssa.Instruction, loc interface{}, write bool) {
	if !p.track || p.noSteps || g == nil || len(p.gs) < 2 {
		return
	}
	if in == nil {
		return
	}
	if p.explore && p.w.run.isRacy(in) {
		p.schedPoint(g, "race")
	}
	s := p.shadow[loc]
	if s == nil {
		s = &shadow{wg: -1, reads: map[int]rd{}}
		p.shadow[loc] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.get(s.wg) {
		p.race(s.win, in)
	}
	c := g.vc.get(g.id)
	if write {
		for rg, r := range s.reads {
			if rg != g.id && r.c > g.vc.get(rg) {
				p.race(r.in, in)
			}
		}
		s.wg, s.wc, s.win = g.id, c, in
		s.reads = map[int]rd{}
	} else {
		s.reads[g.id] = rd{c, in}
	}
}

func (p *Path) race(a, b ssa.Instruction) {
	p.w.run.addRacy(unlessHarness(a), unlessHarness(b))
}

// unlessHarness drops accesses of the harness: it runs in one go between the
// operations it makes.
func unlessHarness(in ssa.Instruction) ssa.Instruction {
	if f := in.Parent(); f != nil {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/zzverif/") {
			return nil
		}
	}
	return in
}

// ---- channels ----

func (p *Path) chanSend(g *G, c *ChanObj, v Value) {
	if c == nil {
		p.block(g, "send on nil channel", func() bool { return false })
	}
	if c.cap > 0 {
		p.schedPointIf(g, "send", func() bool { return c.closed || len(c.buf) < c.cap })
	} else {
		p.schedPoint(g, "send")
	}
	if c.closed {
		panic(p.rtPanicPlain("send on closed channel"))
	}
	if c.cap > 0 {
		p.block(g, "chan send", func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			panic(p.rtPanicPlain("send on closed channel"))
		}
		c.push(g, v)
		return
	}
	o := &offer{v: v, vc: append(VC(nil), g.vc...)}
	c.offers = append(c.offers, o)
	p.block(g, "chan send", func() bool { return o.taken || c.closed })
	if !o.taken {
		o.dead = true
		panic(p.rtPanicPlain("send on closed channel"))
	}
	g.acquire(c.vc)
	g.tick()
}

func (c *ChanObj) liveOffer() *offer {
	for len(c.offers) > 0 && (c.offers[0].taken || c.offers[0].dead) {
		c.offers = c.offers[1:]
	}
	if len(c.offers) > 0 {
		return c.offers[0]
	}
	return nil
}

// push puts a value in the buffer. The k-th receive happens before the send number k+cap
// is done, so the send knows what the receiver that freed its slot did (a buffered
// channel used as a lock relies on it).
func (c *ChanObj) push(g *G, v Value) {
	vc := append(VC(nil), g.vc...)
	g.tick()
	c.buf = append(c.buf, v)
	c.bvc = append(c.bvc, vc)
	if len(c.took) > c.cap-len(c.buf) {
		g.acquire(c.took[0])
		c.took = append([]VC(nil), c.took[1:]...)
	}
}

func (c *ChanObj) canRecv() bool {
	return len(c.buf) > 0 || c.closed || c.liveOffer() != nil
}

func (p *Path) doRecv(g *G, c *ChanObj) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if len(c.bvc) > len(c.buf) {
			// a timer puts its value with no clock
			g.acquire(c.bvc[0])
			c.bvc = append([]VC(nil), c.bvc[1:]...)
		}
		c.took = append(c.took, append(VC(nil), g.vc...))
		g.tick()
		return v, true
	}
	if o := c.liveOffer(); o != nil {
		o.taken = true
		g.acquire(o.vc)
		g.release(&c.vc)
		return o.v, true
	}
	g.acquire(c.vc)
	return nil, false
}

func (p *Path) chanRecv(g *G, c *ChanObj) (Value, bool) {
	if c == nil {
		p.block(g, "receive on nil channel", func() bool { return false })
	}
	if c.cap > 0 {
		p.schedPointIf(g, "recv", c.canRecv)
	} else {
		p.schedPoint(g, "recv")
	}
	c.recvq++
	p.block(g, "chan receive", c.canRecv)
	c.recvq--
	return p.doRecv(g, c)
}

func (p *Path) chanClose(g *G, c *ChanObj) {
	if c == nil {
		panic(p.rtPanicPlain("close of nil channel"))
	}
	p.schedPoint(g, "close")
	if c.closed {
		panic(p.rtPanicPlain("close of closed channel"))
	}
	c.closed = true
	g.release(&c.vc)
}

func (p *Path) selectOp(fr *frame, in *ssa.Select) Value {
	g := fr.g
	type st struct {
		c    *ChanObj
		send bool
		v    Value
	}
	var ss []st
	for _, s := range in.States {
		c, _ := fr.get(s.Chan).(*ChanObj)
		x := st{c: c}
		if s.Send != nil {
			x.send = true
			x.v = p.copyVal(fr.get(s.Send))
		}
		ss = append(ss, x)
	}
	p.schedPoint(g, "select")
	ready := func() []int {
		var r []int
		for i, s := range ss {
			if s.c == nil {
				continue
			}
			if s.send {
				if s.c.closed || len(s.c.buf) < s.c.cap || (s.c.cap == 0 && s.c.recvq > 0 && s.c.liveOffer() == nil) {
					r = append(r, i)
				}
			} else if s.c.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	rs := ready()
	k := -1
	if len(rs) == 0 && in.Blocking {
		for _, s := range ss {
			if s.c != nil && !s.send {
				s.c.recvq++
			}
		}
		p.block(g, "select", func() bool { return len(ready()) > 0 })
		for _, s := range ss {
			if s.c != nil && !s.send {
				s.c.recvq--
			}
		}
		rs = ready()
	}
	if len(rs) > 0 {
		k = rs[0]
		if len(rs) > 1 {
			k = rs[p.choice(len(rs))]
			p.noteSelect(k)
		}
	}
	// result: index, recvOk, then one value per receive
	res := []Value{p.tc.Const(64, uint64(int64(k))), p.tc.tFalse}
	for i, s := range ss {
		if s.send {
			if i == k {
				if s.c.closed {
					panic(p.rtPanicPlain("send on closed channel"))
				}
				if s.c.cap > 0 {
					s.c.push(g, s.v)
				} else {
					o := &offer{v: s.v, vc: append(VC(nil), g.vc...)}
					s.c.offers = append(s.c.offers, o)
					p.block(g, "chan send", func() bool { return o.taken })
				}
			}
			continue
		}
		var v Value
		if i == k {
			var ok bool
			v, ok = p.doRecv(g, s.c)
			res[1] = p.tc.Bool(ok)
		}
		if v == nil {
			v = p.zero(chanElem(in.States[i].Chan.Type()))
		}
		res = append(res, v)
	}
	return res
}

func (p *Path) noteSelect(k int) {}

// ---- locks ----

func (p *Path) lock(g *G, m *MutexObj) {
	p.schedPointIf(g, "lock", func() bool { return !m.locked })
	p.block(g, "mutex lock", func() bool { return !m.locked })
	m.locked = true
	g.acquire(m.vc)
}

func (p *Path) unlock(g *G, m *MutexObj) {
	if !m.locked {
		panic(outcome{kind: "panic", msg: "fatal error: sync: unlock of unlocked mutex"})
	}
	m.locked = false
	g.release(&m.vc)
}

func (p *Path) rwLock(g *G, m *RWMutexObj) {
	p.schedPointIf(g, "lock", func() bool { return !m.w })
	m.wWait++
	p.block(g, "rwmutex lock", func() bool { return !m.w && m.readers == 0 })
	m.wWait--
	m.w = true
	g.acquire(m.vc)
	g.acquire(m.rvc)
}

func (p *Path) rwUnlock(g *G, m *RWMutexObj) {
	if !m.w {
		panic(outcome{kind: "panic", msg: "fatal error: sync: Unlock of unlocked RWMutex"})
	}
	m.w = false
	g.release(&m.vc)
}

func (p *Path) rLock(g *G, m *RWMutexObj) {
	p.schedPointIf(g, "rlock", func() bool { return !m.w && m.wWait == 0 })
	p.block(g, "rwmutex rlock", func() bool { return !m.w && m.wWait == 0 })
	m.readers++
	g.acquire(m.vc)
}

func (p *Path) rUnlock(g *G, m *RWMutexObj) {
	if m.readers == 0 {
		panic(outcome{kind: "panic", msg: "fatal error: sync: RUnlock of unlocked RWMutex"})
	}
	m.readers--
	g.release(&m.rvc)
}

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }
