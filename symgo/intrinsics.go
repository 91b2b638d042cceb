package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ndPkg = repoModule + "/zzverif/nd"

func (w *Worker) intrinsic(fn *ssa.Function) intrinsicFn {
	if in, ok := w.intr[fn]; ok {
		return in
	}
	in := lookupIntrinsic(fn)
	w.intr[fn] = in
	return in
}

func lookupIntrinsic(fn *ssa.Function) intrinsicFn {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	base := fn.Name()
	if strings.HasPrefix(pk, repoModule) && fn.Signature.Recv() == nil {
		switch {
		case strings.HasPrefix(base, "_Cfunc_") && fn.Blocks != nil:
			return func(p *Path, g *G, _ *frame, fn *ssa.Function, args []Value) Value { return p.callC(g, fn, args) }
		case strings.HasPrefix(base, "_cgo"), strings.HasPrefix(base, "_Cgo"):
			return nopZero
		}
	}
	switch pk {
	case "github.com/sirupsen/logrus", "log", "log/slog":
		if base == "init" {
			return nopZero
		}
		switch {
		case strings.HasPrefix(base, "Fatal"), base == "Exit":
			return func(p *Path, g *G, _ *frame, fn *ssa.Function, args []Value) Value {
				panic(outcome{kind: "exit", msg: fn.String() + " ends the process"})
			}
		case strings.HasPrefix(base, "Panic"):
			return func(p *Path, g *G, _ *frame, fn *ssa.Function, args []Value) Value {
				panic(p.rtPanicPlain(fn.String()))
			}
		}
		return nopZero
	case "sync/atomic":
		if fn.Signature.Recv() == nil {
			if in := atomicIntrinsic(base); in != nil {
				return in
			}
		}
	case "os", "syscall", "internal/poll", "net", "runtime", "internal/godebug", "internal/race", "internal/testlog":
		if base == "init" {
			return nil
		}
		if pk == "internal/race" || pk == "internal/testlog" {
			return nopZero
		}
		if pk == "internal/godebug" {
			return nopZero
		}
		if fn.Synthetic != "" {
			return nil
		}
		if pk == "net" || pk == "os" {
			// methods on simple types are fine; anything else is outside
			if fn.Signature.Recv() != nil {
				return nil
			}
			switch fn.Name() {
			case "Pipe", "SplitHostPort", "JoinHostPort":
				if pk == "net" {
					return nil
				}
			}
		}
		return func(p *Path, g *G, _ *frame, fn *ssa.Function, args []Value) Value {
			if fn.Pkg.Pkg.Path() == "os" || fn.Pkg.Pkg.Path() == "net" {
				switch fn.Name() {
				case "IsNotExist", "IsExist":
					of := *p.global(fn.Pkg.Var("Err" + fn.Name()[2:]))
					return p.tc.Bool(p.errorsIs(g, nil, args[0].(Iface), of.(Iface)))
				case "IsTimeout", "IsPermission":
					return p.tc.tFalse
				}
			}
			p.unsupported("call of " + fn.String())
			return nil
		}
	}
	return nil
}

func nopZero(p *Path, g *G, _ *frame, fn *ssa.Function, args []Value) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(r.At(0).Type())
	}
	return p.zero(r)
}

func ident(p *Path, g *G, _ *frame, fn *ssa.Function, args []Value) Value { return args[0] }

// body runs the function's own code although it has an intrinsic.
func (p *Path) body(g *G, caller *frame, fn *ssa.Function, args []Value) Value {
	fr := &frame{p: p, g: g, fn: fn, info: p.w.info(fn), caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	p.w.noteFn(fn)
	fr.env = make([]Value, fr.info.n)
	for i, x := range fn.Params {
		fr.env[fr.info.idx[x]] = args[i]
	}
	old := g.top
	g.top = fr
	fr.run()
	g.top = old
	return fr.result
}

func (p *Path) errNew(msg string) Iface {
	f := p.w.prog.prog.ImportedPackage("errors").Func("New")
	return p.call(p.g, nil, f, []Value{Str{s: msg}}, nil).(Iface)
}

func (p *Path) errNewS(msg Str) Iface {
	f := p.w.prog.prog.ImportedPackage("errors").Func("New")
	return p.call(p.g, nil, f, []Value{msg}, nil).(Iface)
}

func (p *Path) i64(n int) *Term { return p.tc.Const(64, uint64(int64(n))) }

var intrinsics map[string]intrinsicFn

func init() {
	type I = intrinsicFn
	intrinsics = map[string]intrinsicFn{}
	reg := func(name string, f I) { intrinsics[name] = f }
	N := ndPkg + "."

	// ---- harness primitives ----
	regInt := func(name string, w uint8) {
		reg(N+name, func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
			return p.input(p.goString(a[0]), w)
		})
	}
	regInt("Int", 64)
	regInt("Int64", 64)
	regInt("Uint64", 64)
	regInt("Int32", 32)
	regInt("Uint32", 32)
	regInt("Int16", 16)
	regInt("Uint16", 16)
	regInt("Int8", 8)
	regInt("Byte", 8)
	regInt("Float64", 64)
	reg(N+"Bool", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		return p.tc.Not(p.tc.Eq(p.input(p.goString(a[0]), 8), p.tc.Const(8, 0)))
	})
	reg(N+"Str", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		name := p.uniqueName(p.goString(a[0]))
		n := p.intVal(a[1])
		b := make([]*Term, n)
		for i := range b {
			b[i] = p.input(fmt.Sprintf("%s[%d]", name, i), 8)
		}
		return p.mkStr(b)
	})
	reg(N+"Choice", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		name := p.uniqueName(p.goString(a[0]))
		k := p.choice(p.intVal(a[1]))
		p.side["choice:"+name] = k
		return p.i64(k)
	})
	reg(N+"Depth", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.lim.depth = p.intVal(a[0])
		return nil
	})
	reg(N+"Size", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg(N+"Pick", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		// the value of an integer term made concrete by enumeration
		return p.tc.Const(64, p.concretize(a[0].(*Term)))
	})
	reg(N+"Assume", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.assume(a[0].(*Term))
		return nil
	})
	reg(N+"Assert", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		c := a[0].(*Term)
		if c.IsTrue() {
			return nil
		}
		msg := p.goString(a[1])
		if !p.branch(c) {
			panic(outcome{kind: "assert", msg: msg})
		}
		return nil
	})
	reg(N+"Fail", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		panic(outcome{kind: "assert", msg: p.goString(a[0])})
	})
	reg(N+"Cover", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.covers[p.goString(a[0])] = true
		return nil
	})
	reg(N+"Advance", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.advance(g, a[0].(*Term))
		return nil
	})
	reg(N+"TimeNow", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value { return p.timeNow() })
	reg(N+"Tick", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		for _, t := range p.tickers {
			if !t.stopped && len(t.c.buf) < 1 {
				t.c.push(g, p.timeNow())
			}
		}
		return nil
	})
	reg(N+"Tickers", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		return p.i64(len(p.tickers))
	})
	reg(N+"Explore", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		n := p.intVal(a[0])
		p.explore = n >= 0
		p.preempt = n
		p.track = n > 0
		if n > 0 && !p.w.run.concurrent {
			p.w.run.concurrent = true
		}
		return nil
	})
	reg(N+"Quiesce", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		for {
			rs := p.runnable(g)
			if len(rs) == 0 {
				return nil
			}
			p.quiesceYield(g)
		}
	})
	reg(N+"Observe", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		o := obs{label: p.goString(a[0])}
		s := a[1].(Slice)
		for i := 0; i < s.len; i++ {
			v := p.elem(s.arr, s.off+i)
			if x, ok := v.(Iface); ok && x.t != nil {
				if p.w.prog.implements(x.t, errType) {
					v = Iface{t: types.Typ[types.String], v: Str{s: "error"}}
				}
			}
			o.parts = append(o.parts, v)
		}
		p.obs = append(p.obs, o)
		return nil
	})
	reg(N+"SetDial", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.dial = a[0]
		return nil
	})
	reg(N+"AllocLimit", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.allocLimit = uint64(p.intVal(a[0]))
		return nil
	})
	reg(N+"MapOrder", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.permute = p.intVal(a[0])
		return nil
	})
	reg(N+"MaxLen", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.lim.concMax = p.intVal(a[0])
		return nil
	})
	reg(N+"Limit", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.lim.decisions = p.intVal(a[0])
		return nil
	})
	reg(N+"Steps", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.lim.steps = p.intVal(a[0])
		return nil
	})
	reg(N+"Y", nopZero)
	reg(N+"ZeroLocals", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.czero = true
		return nil
	})
	reg(N+"Tier", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		return p.i64(p.w.run.prog.tier)
	})
	reg(N+"TempPath", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		return Str{s: "/tmp/zzverif/" + p.goString(a[0])}
	})
	reg(N+"WriteFile", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		n := p.goString(a[0])
		p.fs[n] = &fileNode{data: p.strBytes(a[1].(Str))}
		return nil
	})
	reg(N+"ReadFile", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		f := p.fs[p.goString(a[0])]
		if f == nil {
			return []Value{Str{}, p.tc.tFalse}
		}
		return []Value{p.mkStr(f.data), p.tc.tTrue}
	})
	reg(N+"And", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		return p.tc.And(a[0].(*Term), a[1].(*Term))
	})
	reg(N+"Or", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		return p.tc.Or(a[0].(*Term), a[1].(*Term))
	})
	reg(N+"Yield", func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value {
		p.schedPoint(g, "yield")
		return nil
	})

	for _, n := range []string{"Lock", "Unlock"} {
		reg(N+n, func(p *Path, g *G, _ *frame, fn *ssa.Function, a []Value) Value { return nil })
	}

	// ---- strconv ----
	for _, pre := range []string{"strconv."} {
		reg(pre+"Itoa", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			return p.formatInt(a[0].(*Term), true)
		})
		reg(pre+"FormatInt", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			if b := a[1].(*Term); b.op == OConst && b.k == 10 {
				return p.formatInt(a[0].(*Term), true)
			}
			return p.body(g, c, fn, a)
		})
		reg(pre+"FormatUint", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			if b := a[1].(*Term); b.op == OConst && b.k == 10 {
				return p.formatInt(a[0].(*Term), false)
			}
			return p.body(g, c, fn, a)
		})
		reg(pre+"AppendInt", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			if b := a[2].(*Term); b.op == OConst && b.k == 10 {
				return p.appendStr(a[0].(Slice), p.formatInt(a[1].(*Term), true))
			}
			return p.body(g, c, fn, a)
		})
		reg(pre+"AppendUint", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			if b := a[2].(*Term); b.op == OConst && b.k == 10 {
				return p.appendStr(a[0].(Slice), p.formatInt(a[1].(*Term), false))
			}
			return p.body(g, c, fn, a)
		})
		parse := func(signed, atoi bool) I {
			return func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
				s := a[0].(Str)
				base10 := atoi
				bits := uint64(64)
				if !atoi {
					b, bs := a[1].(*Term), a[2].(*Term)
					base10 = b.op == OConst && b.k == 10
					if bs.op != OConst {
						base10 = false
					} else if bs.k != 0 {
						bits = bs.k
					}
				}
				if s.fl != nil {
					if s.fl.int && base10 && bits == 64 && (s.fl.sg == signed || nonneg(s.fl.f)) {
						return []Value{s.fl.f, Iface{}}
					}
					if s.fl.int && base10 && bits == 64 {
						// the number is outside the range when its top bit is set
						if !p.branch(p.tc.Slt(s.fl.f, p.tc.Const(64, 0))) {
							return []Value{s.fl.f, Iface{}}
						}
						b := append([]Value{Str{s: map[bool]string{true: "-1", false: "18446744073709551615"}[s.fl.sg]}}, a[1:]...)
						r := p.body(g, c, fn, b).([]Value)
						if e, ok := r[1].(Iface).v.(Ptr); ok && e.p != nil {
							if st, ok := (*e.p).(*StructObj); ok && len(st.f) == 3 {
								st.f[1] = s
								return r
							}
						}
					}
					s = p.flBytes(s)
					a = append([]Value{s}, a[1:]...)
				}
				if base10 && s.b != nil && bits == 64 {
					if t, ok := p.side[bytesKey(s.b)].(*intText); ok && t.signed == signed {
						return []Value{t.t, Iface{}}
					}
				}
				r := p.body(g, c, fn, a).([]Value)
				if base10 && s.b != nil && r[1].(Iface).t == nil {
					p.noteDigits(r[0].(*Term), s.b, signed)
				}
				return r
			}
		}
		reg(pre+"Atoi", parse(true, true))
		reg(pre+"ParseInt", parse(true, false))
		reg(pre+"ParseUint", parse(false, false))
		reg(pre+"ParseFloat", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			s := a[0].(Str)
			bits := p.intVal(a[1])
			if s.fl != nil && s.fl.int && bits == 64 {
				if s.fl.sg {
					return []Value{p.negZeroFix(s.fl.f), Iface{}}
				}
				return []Value{p.tc.FUn(OFromU, s.fl.f, 64), Iface{}}
			}
			if s.fl != nil && !s.fl.int && s.fl.bits == 64 && s.fl.prec == -1 && bits == 64 {
				return []Value{p.canonNaN(s.fl.f), Iface{}}
			}
			if s.b != nil && bits == 64 {
				switch t := p.side[bytesKey(s.b)].(type) {
				case *intText:
					if t.signed {
						return []Value{p.negZeroFix(t.t), Iface{}}
					}
					return []Value{p.tc.FUn(OFromU, t.t, 64), Iface{}}
				case *FloatFmt:
					return []Value{p.canonNaN(t.f), Iface{}}
				}
			}
			if s.isConc() {
				f, err := strconv.ParseFloat(s.s, bits)
				if err == nil {
					return []Value{p.tc.Const(64, math.Float64bits(f)), Iface{}}
				}
			}
			r := p.body(g, c, fn, a).([]Value)
			if f := r[0].(*Term); s.b != nil && bits == 64 && r[1].(Iface).t == nil && f.op != OConst && p.ftext[f] == nil {
				p.ftext[f] = s.b
			}
			return r
		})
		reg(pre+"FormatFloat", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			return p.formatFloat(a[0].(*Term), byte(p.intVal(a[1])), p.intVal(a[2]), p.intVal(a[3]))
		})
		reg(pre+"AppendFloat", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			return p.appendStr(a[0].(Slice), p.formatFloat(a[1].(*Term), byte(p.intVal(a[2])), p.intVal(a[3]), p.intVal(a[4])))
		})
		reg(pre+"Quote", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			s := a[0].(Str)
			if s.isConc() {
				return Str{s: strconv.Quote(s.s)}
			}
			if c == nil || c.fn.Pkg == nil || c.fn.Pkg.Pkg.Path() != "strconv" {
				return p.body(g, c, fn, a)
			}
			// the text of a NumError: one path, without the escapes
			return p.concat(p.concat(Str{s: "\""}, s), Str{s: "\""})
		})
	}
	// error construction inside the number parsers keeps a copy of the text
	reg("internal/stringslite.Clone", ident)
	reg("strings.Clone", ident)
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)

	unicodeIntrinsics(reg)

	// ---- strings ----
	reg("strings.ToLower", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		return p.caseMap(g, c, fn, a, 'A', 'Z', func(t *Term) *Term { return p.tc.Bin(OAdd, t, p.tc.Const(8, 32)) }, strings.ToLower)
	})
	reg("strings.ToUpper", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		return p.caseMap(g, c, fn, a, 'a', 'z', func(t *Term) *Term { return p.tc.Bin(OSub, t, p.tc.Const(8, 32)) }, strings.ToUpper)
	})
	reg("strings.EqualFold", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Str), a[1].(Str)
		if x.isConc() && y.isConc() {
			return p.tc.Bool(strings.EqualFold(x.s, y.s))
		}
		bx, by := p.strBytes(x), p.strBytes(y)
		asc := p.tc.tTrue
		for _, t := range append(append([]*Term(nil), bx...), by...) {
			asc = p.tc.And(asc, p.tc.Ult(t, p.tc.Const(8, 0x80)))
		}
		if asc != p.tc.tTrue {
			p.reduce("case folding of non-ASCII text: non-ASCII bytes only equal themselves")
		}
		if len(bx) != len(by) {
			return p.tc.tFalse
		}
		low := func(t *Term) *Term {
			up := p.tc.And(p.tc.Ule(p.tc.Const(8, 'A'), t), p.tc.Ule(t, p.tc.Const(8, 'Z')))
			return p.tc.Ite(up, p.tc.Bin(OAdd, t, p.tc.Const(8, 32)), t)
		}
		r := p.tc.tTrue
		for i := range bx {
			r = p.tc.And(r, p.tc.Eq(low(bx[i]), low(by[i])))
		}
		return r
	})
	// ---- bytealg ----
	idxByte := func(p *Path, b []*Term, c *Term) Value {
		for i, t := range b {
			if p.branch(p.tc.Eq(t, c)) {
				return p.i64(i)
			}
		}
		return p.i64(-1)
	}
	sl := func(p *Path, v Value) []*Term {
		if s, ok := v.(Str); ok {
			return p.strBytes(s)
		}
		s := v.(Slice)
		b := make([]*Term, s.len)
		for i := range b {
			b[i] = p.elem(s.arr, s.off+i).(*Term)
		}
		return b
	}
	for _, n := range []string{"IndexByte", "IndexByteString"} {
		reg("internal/bytealg."+n, func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(Slice); ok {
				ch := a[1].(*Term)
				for i := 0; i < s.len; i++ {
					if p.branch(p.tc.Eq(p.elem(s.arr, s.off+i).(*Term), ch)) {
						return p.i64(i)
					}
				}
				return p.i64(-1)
			}
			return idxByte(p, sl(p, a[0]), a[1].(*Term))
		})
	}
	for _, n := range []string{"Count", "CountString"} {
		reg("internal/bytealg."+n, func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			r := p.i64(0)
			for _, t := range sl(p, a[0]) {
				r = p.tc.Bin(OAdd, r, p.tc.BoolToBV(p.tc.Eq(t, a[1].(*Term)), 64))
			}
			return r
		})
	}
	for _, n := range []string{"Index", "IndexString"} {
		reg("internal/bytealg."+n, func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			x, y := sl(p, a[0]), sl(p, a[1])
			for i := 0; i+len(y) <= len(x); i++ {
				e := p.tc.tTrue
				for k := range y {
					e = p.tc.And(e, p.tc.Eq(x[i+k], y[k]))
				}
				if p.branch(e) {
					return p.i64(i)
				}
			}
			return p.i64(-1)
		})
	}
	for _, n := range []string{"Compare", "CompareString"} {
		reg("internal/bytealg."+n, func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			x, y := p.mkStr(sl(p, a[0])), p.mkStr(sl(p, a[1]))
			return p.tc.Ite(p.strEq(x, y), p.i64(0), p.tc.Ite(p.strLess(x, y), p.i64(-1), p.i64(1)))
		})
	}
	reg("internal/bytealg.Equal", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		return p.strEq(p.mkStr(sl(p, a[0])), p.mkStr(sl(p, a[1])))
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	reg("internal/bytealg.MakeNoZero", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		n := p.intVal(a[0])
		return Slice{&ArrayObj{e: make([]Value, n), et: types.Typ[types.Uint8]}, 0, n, n}
	})

	// ---- fmt ----
	reg("fmt.Sprintf", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		s, _ := p.sprintf(g, a[0].(Str), a[1].(Slice), false)
		return s
	})
	reg("fmt.Sprint", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		return p.sprint(g, a[0].(Slice), false)
	})
	reg("fmt.Sprintln", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		return p.concat(p.sprint(g, a[0].(Slice), true), Str{s: "\n"})
	})
	reg("fmt.Errorf", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		s, wrapped := p.sprintf(g, a[0].(Str), a[1].(Slice), true)
		if wrapped.t != nil {
			t := p.w.prog.prog.ImportedPackage("fmt").Type("wrapError").Type()
			slot := new(Value)
			*slot = p.zero(t)
			so := (*slot).(*StructObj)
			so.f[0], so.f[1] = s, wrapped
			return Iface{t: types.NewPointer(t), v: Ptr{p: slot}}
		}
		return p.errNewS(s)
	})
	for _, n := range []string{"Println", "Printf", "Print"} {
		reg("fmt."+n, func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			return []Value{p.i64(0), Iface{}}
		})
	}
	fprint := func(f func(p *Path, g *G, a []Value) Str) I {
		return func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			s := f(p, g, a[1:])
			w := a[0].(Iface)
			if w.t == nil {
				panic(p.nilDeref())
			}
			if n := w.t.String(); n == "*os.File" {
				return []Value{p.i64(p.strLen(s)), Iface{}}
			}
			return p.callMethod(g, c, w, "Write", p.strToBytes(s, types.Typ[types.Uint8]))
		}
	}
	reg("fmt.Fprintf", fprint(func(p *Path, g *G, a []Value) Str {
		s, _ := p.sprintf(g, a[0].(Str), a[1].(Slice), false)
		return s
	}))
	reg("fmt.Fprint", fprint(func(p *Path, g *G, a []Value) Str { return p.sprint(g, a[0].(Slice), false) }))
	reg("fmt.Fprintln", fprint(func(p *Path, g *G, a []Value) Str {
		return p.concat(p.sprint(g, a[0].(Slice), true), Str{s: "\n"})
	}))

	// ---- errors ----
	reg("errors.Is", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		return p.tc.Bool(p.errorsIs(g, c, a[0].(Iface), a[1].(Iface)))
	})
	reg("errors.As", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		tgt := a[1].(Iface)
		if tgt.t == nil {
			panic(p.rtPanicPlain("errors: target cannot be nil"))
		}
		et := tgt.t.Underlying().(*types.Pointer).Elem()
		return p.tc.Bool(p.errorsAs(g, c, a[0].(Iface), et, tgt.v.(Ptr)))
	})

	// ---- runtime, os ----
	reg("runtime.Gosched", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		p.yield(g)
		return nil
	})
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory", "runtime.ReadMemStats"} {
		reg(n, nopZero)
	}
	reg("runtime.GOMAXPROCS", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value { return p.i64(8) })
	reg("runtime.NumCPU", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value { return p.i64(8) })
	reg("os.Exit", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		panic(outcome{kind: "exit", msg: "os.Exit ends the process"})
	})
	reg("os.Getenv", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value { return Str{} })
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	dial := func(neti, addri int) I {
		return func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			if p.dial == nil {
				p.unsupported("net.Dial without harness hook")
			}
			p.schedPoint(g, "dial")
			return p.callValue(g, c, p.dial, []Value{a[neti], a[addri]})
		}
	}
	reg("net.Dial", dial(0, 1))
	reg("net.DialTimeout", dial(0, 1))
	reg("(*net.Dialer).Dial", dial(1, 2))
	reg("(*net.Dialer).DialContext", dial(2, 3))

	reg("reflect.DeepEqual", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		return p.deepEqual(a[0], a[1], 0)
	})
	reg("context.WithValue", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		par, key := a[0].(Iface), a[1].(Iface)
		if par.t == nil {
			panic(p.rtPanicPlain("cannot create context from nil parent"))
		}
		if key.t == nil {
			panic(p.rtPanicPlain("nil key"))
		}
		if !types.Comparable(key.t) {
			panic(p.rtPanicPlain("key is not comparable"))
		}
		t := fn.Pkg.Type("valueCtx").Type()
		slot := new(Value)
		*slot = p.zero(t)
		so := (*slot).(*StructObj)
		so.f[0], so.f[1], so.f[2] = par, key, a[2].(Iface)
		return Iface{t: types.NewPointer(t), v: Ptr{p: slot}}
	})

	// ---- math ----
	reg("math.Abs", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		return p.tc.Bin(OBand, a[0].(*Term), p.tc.Const(64, 1<<63-1))
	})
	m1 := func(name string, op Op) {
		reg("math."+name, func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			return p.tc.FUn(op, a[0].(*Term), 64)
		})
	}
	m1("Floor", OFFloor)
	m1("Ceil", OFCeil)
	m1("Trunc", OFTrunc)
	m1("Sqrt", OFSqrt)
	m1("Round", OFRound)
	reg("math.IsNaN", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		return p.tc.FUn(OIsNaN, a[0].(*Term), 0)
	})
	reg("math.IsInf", func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
		f := a[0].(*Term)
		if f.op != OConst && p.tc.fbound(f) >= 0 {
			return p.tc.tFalse
		}
		inf := p.tc.Const(64, 0x7ff<<52)
		switch s := p.intVal(a[1]); {
		case s > 0:
			return p.tc.Eq(f, inf)
		case s < 0:
			return p.tc.Eq(f, p.tc.Const(64, 0xfff<<52))
		}
		return p.tc.Eq(p.tc.Bin(OBand, f, p.tc.Const(64, 1<<63-1)), inf)
	})
	reg("math.Float64bits", ident)
	reg("math.Float64frombits", ident)
	reg("math.Float32bits", ident)
	reg("math.Float32frombits", ident)

	regSync(reg)
	regTime(reg)
	regOS(reg)
}

var errType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (p *Path) appendStr(s Slice, x Str) Value {
	b := p.strBytes(x)
	vs := make([]Value, len(b))
	for i := range b {
		vs[i] = b[i]
	}
	return p.appendVals(s, vs, types.Typ[types.Uint8])
}

func (p *Path) caseMap(g *G, c *frame, fn *ssa.Function, a []Value, lo, hi byte, m func(*Term) *Term, conc func(string) string) Value {
	s := a[0].(Str)
	if s.isConc() {
		return Str{s: conc(s.s)}
	}
	b := p.strBytes(s)
	asc := p.tc.tTrue
	for _, t := range b {
		asc = p.tc.And(asc, p.tc.Ult(t, p.tc.Const(8, 0x80)))
	}
	if !p.branch(asc) {
		// non-ASCII text: keep the ASCII letters mapped, leave the rest alone.
		// (Only a few non-ASCII letters have ASCII counterparts: K and I forms.)
		p.reduce("case mapping of non-ASCII text: non-ASCII bytes are left unchanged")
	}
	r := make([]*Term, len(b))
	for i, t := range b {
		in := p.tc.And(p.tc.Ule(p.tc.Const(8, uint64(lo)), t), p.tc.Ule(t, p.tc.Const(8, uint64(hi))))
		r[i] = p.tc.Ite(in, m(t), t)
	}
	return p.mkStr(r)
}

func (p *Path) yield(g *G) {
	rs := p.runnable(g)
	if len(rs) == 0 {
		return
	}
	p.quiesceYield(g)
}

// quiesceYield lets some other runnable goroutine go first.
func (p *Path) quiesceYield(g *G) {
	rs := p.runnable(g)
	k := 0
	if p.explore {
		k = p.choice(len(rs))
	} else {
		for i, x := range rs {
			if x.id > g.id {
				k = i
				break
			}
		}
	}
	n := rs[k]
	n.pred = nil
	p.noteSched(n)
	p.cur = n
	p.g = n
	p.steps += 50
	if p.steps > p.lim.steps {
		panic(abortPath{"hang: goroutines keep running"})
	}
	g.pred = nil
	n.resume <- struct{}{}
	<-g.resume
	if p.dead {
		panic(abortPath{"dead"})
	}
	p.g = g
}

// callMethod calls a method of the dynamic value by name.
func (p *Path) callMethod(g *G, c *frame, x Iface, name string, args ...Value) Value {
	ms := p.w.prog.prog.MethodSets.MethodSet(x.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := p.w.prog.prog.MethodValue(ms.At(i))
			return p.call(g, c, f, append([]Value{x.v}, args...), nil)
		}
	}
	p.unsupported("no method " + name + " on " + x.t.String())
	return nil
}

func (p *Path) hasMethod(x Iface, name string) bool {
	ms := p.w.prog.prog.MethodSets.MethodSet(x.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (p *Path) errorsIs(g *G, c *frame, err, target Iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for {
		if types.Comparable(target.t) && p.branch(p.equal(err, target)) {
			return true
		}
		if p.hasMethod(err, "Is") {
			if r, ok := p.callMethod(g, c, err, "Is", target).(*Term); ok && p.branch(r) {
				return true
			}
		}
		if !p.hasMethod(err, "Unwrap") {
			return false
		}
		switch r := p.callMethod(g, c, err, "Unwrap").(type) {
		case Iface:
			if r.t == nil {
				return false
			}
			err = r
		case Slice:
			for i := 0; i < r.len; i++ {
				if p.errorsIs(g, c, p.elem(r.arr, r.off+i).(Iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func (p *Path) errorsAs(g *G, c *frame, err Iface, et types.Type, dst Ptr) bool {
	for err.t != nil {
		if it, ok := et.Underlying().(*types.Interface); ok {
			if p.w.prog.implements(err.t, it) {
				p.storeTo(dst.p, err)
				return true
			}
		} else if types.Identical(err.t, et) {
			p.storeTo(dst.p, err.v)
			return true
		}
		if !p.hasMethod(err, "Unwrap") {
			return false
		}
		r, ok := p.callMethod(g, c, err, "Unwrap").(Iface)
		if !ok {
			return false
		}
		err = r
	}
	return false
}

func sortSlice(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
	s := a[0].(Iface).v.(Slice)
	less := a[1]
	for i := 1; i < s.len; i++ {
		for k := i; k > 0; k-- {
			if !p.branch(p.callValue(g, c, less, []Value{p.i64(k), p.i64(k - 1)}).(*Term)) {
				break
			}
			x, y := &s.arr.e[s.off+k], &s.arr.e[s.off+k-1]
			vx, vy := p.copyVal(*x), p.copyVal(*y)
			p.storeTo(x, vy)
			p.storeTo(y, vx)
		}
	}
	return nil
}

// ---- decimal text ----

type intText struct {
	t      *Term
	signed bool
}

func bytesKey(b []*Term) interface{} {
	var sb strings.Builder
	sb.WriteString("bytes:")
	for _, t := range b {
		sb.WriteString(strconv.Itoa(int(t.id)))
		sb.WriteByte(',')
	}
	return sb.String()
}

// noteDigits remembers that the integer n was parsed from the text b.
func (p *Path) noteDigits(n *Term, b []*Term, signed bool) {
	if n.op == OConst || len(b) == 0 {
		return
	}
	d := &decInfo{dig: b, sg: signed}
	if b[0].op == OConst && (b[0].k == '-' || b[0].k == '+') {
		d.neg = b[0].k == '-'
		d.dig = b[1:]
	} else if b[0].op != OConst {
		// the parser has decided whether this byte is a sign on this path
		if p.known(p.tc.Eq(b[0], p.tc.Const(8, '-'))) {
			d.neg = true
			d.dig = b[1:]
		} else if p.known(p.tc.Eq(b[0], p.tc.Const(8, '+'))) {
			d.dig = b[1:]
		} else if !p.known(p.tc.Ule(p.tc.Const(8, '0'), b[0])) {
			return
		}
	}
	if n.w < 64 {
		return
	}
	p.decs[n] = d
	p.decOrder = append(p.decOrder, n)
}

// known reports whether the path condition implies c.
func (p *Path) known(c *Term) bool {
	if c.op == OConst {
		return c.k == 1
	}
	if s := p.stated(c); s >= 0 {
		return s == 1
	}
	// must not depend on the model so that replays agree: ask the solver
	r, _ := p.w.solver.Check(p.slice(p.tc.Not(c)))
	return r == Unsat
}

// formatInt is the decimal text of an integer; its bytes are worked out when they
// are asked for.
func (p *Path) formatInt(t *Term, signed bool) Str {
	if t.op == OConst {
		if signed {
			return Str{s: strconv.FormatInt(t.S(), 10)}
		}
		return Str{s: strconv.FormatUint(t.k, 10)}
	}
	if t.w < 64 {
		t = p.tc.Resize(t, signed, 64)
	}
	return Str{fl: &FloatFmt{f: t, int: true, sg: signed}}
}

// intLen decides the sign and the number of digits.
func (p *Path) intLen(t *Term, signed bool) (n int, neg bool) {
	mag := t
	if signed && !nonneg(mag) && p.branch(p.tc.Slt(mag, p.tc.Const(64, 0))) {
		neg = true
		mag = p.tc.Neg(mag)
		n = 1
	}
	k := 1
	pow := uint64(10)
	for k < 20 {
		if p.branch(p.tc.Ult(mag, p.tc.Const(64, pow))) {
			break
		}
		k++
		if k == 20 {
			break
		}
		pow *= 10
	}
	return n + k, neg
}

func (p *Path) intBytes(s Str) Str {
	t, signed := s.fl.f, s.fl.sg
	if _, ok := p.decs[t]; !ok {
		// the same number, computed another way, may have been formatted before
		for _, o := range p.decOrder {
			if len(o.vars) == len(t.vars) && (len(o.vars) == 0 || o.vars[0] == t.vars[0]) && p.known(p.tc.Eq(o, t)) {
				p.decs[t] = p.decs[o]
				break
			}
		}
	}
	if d, ok := p.decs[t]; ok && (signed == d.sg || nonneg(t)) {
		dig := d.dig
		for len(dig) > 1 && p.branch(p.tc.Eq(dig[0], p.tc.Const(8, '0'))) {
			dig = dig[1:]
		}
		b := dig
		if d.neg {
			if len(dig) == 1 && p.branch(p.tc.Eq(dig[0], p.tc.Const(8, '0'))) {
				return Str{s: "0"}
			}
			b = append([]*Term{p.tc.Const(8, '-')}, dig...)
		}
		r := p.mkStr(b)
		if r.b != nil {
			p.side[bytesKey(r.b)] = &intText{t, signed}
		}
		return r
	}
	if s.fl.n == 0 {
		s.fl.n, s.fl.neg = p.intLen(t, signed)
	}
	neg, k, mag := s.fl.neg, s.fl.n, t
	if neg {
		mag = p.tc.Neg(t)
		k--
	}
	w := uint8(64)
	if k <= 4 {
		w = 16
	} else if k <= 9 {
		w = 32
	}
	m := p.tc.Extract(mag, w-1, 0)
	var bs []*Term
	sum := p.tc.Const(w, 0)
	pp := uint64(1)
	digs := make([]*Term, k)
	for i := k - 1; i >= 0; i-- {
		d := p.freshVar("dig", 8)
		lo := uint64('0')
		if i == 0 && k > 1 {
			lo = '1'
		}
		p.addDef(p.tc.And(p.tc.Ule(p.tc.Const(8, lo), d), p.tc.Ule(d, p.tc.Const(8, '9'))))
		digs[i] = d
		sum = p.tc.Bin(OAdd, sum, p.tc.Bin(OMul, p.tc.Zext(p.tc.Bin(OSub, d, p.tc.Const(8, '0')), w), p.tc.Const(w, pp)))
		pp *= 10
	}
	if k == 20 {
		p.addDef(p.tc.Eq(digs[0], p.tc.Const(8, '1')))
	}
	// digit values under the current model, so that the model stays valid
	p.defModel(digs, p.eval(mag).k)
	p.assume(p.tc.Eq(sum, m))
	bs = digs
	if neg {
		bs = append([]*Term{p.tc.Const(8, '-')}, digs...)
	}
	r := p.mkStr(bs)
	if r.b != nil {
		p.side[bytesKey(r.b)] = &intText{t, signed}
		// the reverse direction too
		p.decs[t] = &decInfo{neg: neg, dig: digs, sg: signed}
		p.decOrder = append(p.decOrder, t)
	}
	return r
}

// addDef adds a constraint on fresh variables whose model values are set by the
// caller afterwards.
func (p *Path) addDef(c *Term) { p.addPC(c) }

func (p *Path) defModel(digs []*Term, v uint64) {
	if len(p.trail) < len(p.prefix) {
		return // the prefix model already has them
	}
	n := make(map[string]uint64, len(p.model)+len(digs))
	for k, x := range p.model {
		n[k] = x
	}
	s := strconv.FormatUint(v, 10)
	for i, d := range digs {
		c := uint64('0')
		if i < len(s) {
			c = uint64(s[i])
		}
		n[d.name] = c
	}
	p.setModel(n)
}

// negZeroFix: the double denoted by the decimal text of an integer.
func (p *Path) negZeroFix(t *Term) *Term { return p.tc.FUn(OFromS, t, 64) }

func (p *Path) canonNaN(f *Term) *Term {
	if nan := p.tc.FUn(OIsNaN, f, 0); nan.IsFalse() || p.stated(nan) == 0 {
		return f
	}
	return p.tc.Ite(p.tc.FUn(OIsNaN, f, 0), p.tc.Const(64, math.Float64bits(math.NaN())), f)
}

// strMat is the same text with its bytes worked out.
func (p *Path) strMat(s Str) Str {
	if s.fl != nil {
		return p.flBytes(s)
	}
	return s
}

type fltApp struct{}

func (p *Path) formatFloat(f *Term, fm byte, prec, bits int) Str {
	if f.op == OConst {
		return Str{s: strconv.FormatFloat(f64(f.k), fm, prec, bits)}
	}
	return Str{fl: &FloatFmt{f: f, fmt: fm, prec: prec, bits: bits}}
}

// flEq compares formatted floats through their provenance; nil when unknown.
func (p *Path) flEq(a, b Str) *Term {
	if a.fl != nil && b.fl != nil {
		if a.fl.int && b.fl.int {
			e := p.tc.Eq(a.fl.f, b.fl.f)
			if a.fl.sg != b.fl.sg {
				e = p.tc.And(e, p.tc.Sle(p.tc.Const(64, 0), a.fl.f))
			}
			return e
		}
		if a.fl.int || b.fl.int {
			return nil
		}
		if a.fl.fmt == b.fl.fmt && a.fl.prec == -1 && b.fl.prec == -1 && a.fl.bits == b.fl.bits {
			return p.tc.Or(p.tc.Eq(a.fl.f, b.fl.f), p.tc.And(p.tc.FUn(OIsNaN, a.fl.f, 0), p.tc.FUn(OIsNaN, b.fl.f, 0)))
		}
		return nil
	}
	if b.fl != nil {
		a, b = b, a
	}
	if a.fl.int {
		if !b.isConc() {
			return nil
		}
		var v uint64
		var err error
		if a.fl.sg {
			var i int64
			i, err = strconv.ParseInt(b.s, 10, 64)
			v = uint64(i)
		} else {
			v, err = strconv.ParseUint(b.s, 10, 64)
		}
		if err != nil || a.fl.sg && strconv.FormatInt(int64(v), 10) != b.s || !a.fl.sg && strconv.FormatUint(v, 10) != b.s {
			return p.tc.tFalse
		}
		return p.tc.Eq(a.fl.f, p.tc.Const(64, v))
	}
	if b.isConc() {
		g, err := strconv.ParseFloat(b.s, 64)
		if err != nil || strconv.FormatFloat(g, a.fl.fmt, a.fl.prec, a.fl.bits) != b.s {
			return p.tc.tFalse
		}
		if a.fl.prec != -1 || a.fl.bits != 64 {
			return nil
		}
		if math.IsNaN(g) {
			return p.tc.FUn(OIsNaN, a.fl.f, 0)
		}
		return p.tc.Eq(a.fl.f, p.tc.Const(64, math.Float64bits(g)))
	}
	return nil
}

// flBytes gives the text of a formatted float: exact for integral values below
// 2^53, a single representative otherwise.
func (p *Path) flBytes(s Str) Str {
	f := s.fl.f
	if f.op == OConst && !s.fl.int {
		return Str{s: strconv.FormatFloat(f64(f.k), s.fl.fmt, s.fl.prec, s.fl.bits)}
	}
	if t, ok := p.side[s.fl].(Str); ok {
		return t
	}
	var r Str
	if s.fl.int {
		r = p.intBytes(s)
		p.side[s.fl] = r
		return r
	}
	if f.op == OFromS && f.a.w == 64 && s.fl.fmt == 'f' && s.fl.prec == -1 {
		lim := p.tc.Const(64, 1<<53)
		if p.branch(p.tc.And(p.tc.Sle(p.tc.Neg(lim), f.a), p.tc.Sle(f.a, lim))) {
			r = p.strMat(p.formatInt(f.a, true))
			p.side[s.fl] = r
			return r
		}
	}
	if b := p.ftext[f]; b != nil && s.fl.fmt == 'f' && s.fl.prec == -1 && s.fl.bits == 64 {
		if r, ok := p.canonDec(b); ok {
			p.side[s.fl] = r
			return r
		}
	}
	p.reduce("text of a general floating-point value: one representative value per path")
	n := len(p.trail)
	var v uint64
	if n < len(p.prefix) {
		v = p.prefix[n].val
		p.trail = append(p.trail, p.prefix[n])
	} else {
		v = p.eval(f).k
		p.record(decision{kind: 'v', val: v, yes: true})
	}
	p.addPC(p.tc.Eq(f, p.tc.Const(f.w, v)))
	r = Str{s: strconv.FormatFloat(f64(v), s.fl.fmt, s.fl.prec, s.fl.bits)}
	p.side[s.fl] = r
	return r
}

// canonDec is the shortest decimal text, without exponent, of the double the text
// b denotes. Up to 15 significant digits every decimal has its own double, so the
// shortest text that denotes it is the same digits without redundant zeros.
func (p *Path) canonDec(b []*Term) (Str, bool) {
	is := func(t *Term, c byte) bool { return p.branch(p.tc.Eq(t, p.tc.Const(8, uint64(c)))) }
	var out []*Term
	i := 0
	if len(b) > 0 && is(b[0], '-') {
		out = append(out, b[0])
		i = 1
	} else if len(b) > 0 && is(b[0], '+') {
		i = 1
	}
	digit := func(t *Term) bool {
		return p.branch(p.tc.And(p.tc.Ule(p.tc.Const(8, '0'), t), p.tc.Ule(t, p.tc.Const(8, '9'))))
	}
	var dig []*Term
	point, exp := -1, 0
	for ; i < len(b); i++ {
		switch {
		case digit(b[i]):
			dig = append(dig, b[i])
			continue
		case point < 0 && is(b[i], '.'):
			point = len(dig)
			continue
		case len(dig) > 0 && (is(b[i], 'e') || is(b[i], 'E')):
			neg := false
			i++
			if i < len(b) && is(b[i], '-') {
				neg = true
				i++
			} else if i < len(b) && is(b[i], '+') {
				i++
			}
			if len(b)-i < 1 || len(b)-i > 2 {
				return Str{}, false
			}
			for ; i < len(b); i++ {
				if !digit(b[i]) {
					return Str{}, false
				}
				exp = exp*10 + int(p.concretize(b[i])-'0')
			}
			if neg {
				exp = -exp
			}
		default:
			return Str{}, false
		}
	}
	if point < 0 {
		point = len(dig)
	}
	z := p.tc.Const(8, '0')
	for len(dig) > 0 && is(dig[0], '0') {
		dig = dig[1:]
		point--
	}
	for len(dig) > 0 && is(dig[len(dig)-1], '0') {
		dig = dig[:len(dig)-1]
	}
	if len(dig) == 0 {
		return p.mkStr(append(out, z)), true
	}
	if len(dig) > 15 {
		return Str{}, false
	}
	point += exp
	if point <= 0 {
		out = append(out, z)
		if len(dig) > 0 {
			out = append(out, p.tc.Const(8, '.'))
		}
		for ; point < 0; point++ {
			out = append(out, z)
		}
		out = append(out, dig...)
	} else {
		for i, d := range dig {
			if i == point {
				out = append(out, p.tc.Const(8, '.'))
			}
			out = append(out, d)
		}
		for i := len(dig); i < point; i++ {
			out = append(out, z)
		}
	}
	return p.mkStr(out), true
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
