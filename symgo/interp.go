package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow sentinels (host panics) ----

type targetPanic struct {
	v Iface // the Go panic value
	m string
}

type abortPath struct{ why string } // infeasible, unsupported, limits, end of path

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	p       *Path
	g       *G
	fn      *ssa.Function
	info    *fnInfo
	env     []Value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	defers  []func()
	result  Value
	panicV  *targetPanic // panicking with this
	recover bool
	caller  *frame
	depth   int
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if i, ok := w.infos[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { i.idx[v] = i.n; i.n++ }
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	w.infos[fn] = i
	return i
}

func (fr *frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.p.constVal(x)
	case *ssa.Global:
		return Ptr{p: fr.p.global(x)}
	case *ssa.Function:
		return fr.p.fnVal(x)
	case *ssa.Builtin:
		return x
	}
	return fr.env[fr.info.idx[v]]
}

func (fr *frame) set(v ssa.Value, x Value) { fr.env[fr.info.idx[v]] = x }

func (p *Path) fnVal(f *ssa.Function) *Closure {
	if c, ok := p.w.fnVals[f]; ok {
		return c
	}
	c := &Closure{fn: f}
	p.w.fnVals[f] = c
	return c
}

func (p *Path) constVal(c *ssa.Const) Value {
	if v, ok := p.w.consts[c]; ok {
		return v
	}
	v := p.constVal0(c)
	switch v.(type) {
	case *StructObj, *ArrayObj:
		return v
	case *Term, Str:
		p.w.consts[c] = v
	}
	return v
}

func (p *Path) constVal0(c *ssa.Const) Value {
	if c.Value == nil {
		return p.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.Interface); ok {
			_ = tp
			return Iface{}
		}
		panic(fmt.Sprintf("const of %v", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return p.tc.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		return Str{s: string(rune(c.Int64()))}
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if width(t) == 32 {
			return p.tc.Const(32, uint64(math.Float32bits(float32(f))))
		}
		return p.tc.Const(64, math.Float64bits(f))
	case b.Info()&types.IsInteger != 0:
		if b.Info()&types.IsUnsigned != 0 {
			return p.tc.Const(width(t), c.Uint64())
		}
		return p.tc.Const(width(t), uint64(c.Int64()))
	}
	p.unsupported("constant " + c.String())
	return nil
}

func (p *Path) isRepoPkg(pk *ssa.Package) bool {
	return pk != nil && strings.HasPrefix(pk.Pkg.Path(), repoModule)
}

func (p *Path) global(g *ssa.Global) *Value {
	m := p.w.stdGlobals
	if p.isRepoPkg(g.Pkg) {
		m = p.globals
	}
	if s, ok := m[g]; ok {
		return s
	}
	p.initPkg(g.Pkg)
	s, ok := m[g]
	if !ok {
		s = new(Value)
		*s = p.zero(g.Type().Underlying().(*types.Pointer).Elem())
		m[g] = s
	}
	return s
}

// initPkg allocates the package's globals and runs its initialiser (lazily).
func (p *Path) initPkg(pk *ssa.Package) {
	repo := p.isRepoPkg(pk)
	m := p.w.stdGlobals
	done := p.w.stdInit
	if repo {
		m = p.globals
		done = p.inited
	}
	if done[pk] {
		return
	}
	done[pk] = true
	for _, mem := range pk.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := m[g]; !ok {
				s := new(Value)
				*s = p.zero(g.Type().Underlying().(*types.Pointer).Elem())
				m[g] = s
			}
		}
	}
	if p.skipInit(pk.Pkg.Path()) {
		if fs := p.w.prog.prog.ImportedPackage("io/fs"); pk.Pkg.Path() == "os" && fs != nil {
			for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
				*m[pk.Var(n)] = *p.global(fs.Var(n))
			}
		}
		return
	}
	init := pk.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	old := p.noSteps
	p.noSteps = true
	defer func() {
		p.noSteps = old
		if !repo {
			if r := recover(); r != nil {
				// initialisers of library packages that need unsupported
				// features leave the remaining variables at their zero value
				p.w.note("init of " + pk.Pkg.Path() + " incomplete: " + fmt.Sprint(r))
			}
		}
	}()
	p.call(p.g, nil, init, nil, nil)
}

func (p *Path) skipInit(path string) bool {
	switch path {
	case "unicode", "os", "syscall", "runtime", "net", "internal/poll", "internal/godebug", "github.com/sirupsen/logrus", "log", "reflect", "internal/cpu", "crypto/rand", "math/rand", "internal/testlog", "golang.org/x/sys/unix":
		return true
	}
	return false
}

func (p *Path) step() {
	if p.noSteps {
		return
	}
	p.steps++
	if p.steps%8192 == 0 && !p.dead {
		p.checkStop()
	}
	if p.steps > p.lim.steps {
		panic(abortPath{"hang: step limit"})
	}
}

// call runs fn with args; native intrinsics first.
func (p *Path) call(g *G, caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	if in := p.w.intrinsic(fn); in != nil {
		return in(p, g, caller, fn, args)
	}
	if fn.Blocks == nil {
		// an assembly version of a function that is there in Go as well
		if n := strings.TrimPrefix(fn.Name(), "arch"); fn.Pkg != nil && n != fn.Name() && n != "" {
			if f := fn.Pkg.Func(strings.ToLower(n[:1]) + n[1:]); f != nil && f.Blocks != nil {
				return p.call(g, caller, f, args, nil)
			}
		}
		for _, n := range []string{fn.Name() + "Generic", fn.Name() + "_g"} {
			if fn.Pkg != nil {
				if f := fn.Pkg.Func(n); f != nil && f.Blocks != nil {
					return p.call(g, caller, f, args, nil)
				}
			}
		}
		p.unsupported("no body: " + fn.String())
	}
	if fn.Synthetic == "package initializer" && caller != nil && caller.fn.Synthetic == "package initializer" && fn.Pkg != caller.fn.Pkg {
		return nil // lazily initialised
	}
	if !p.noSteps {
		p.w.noteFn(fn)
	}
	fr := &frame{p: p, g: g, fn: fn, info: p.w.info(fn), caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > p.lim.depth {
			panic(abortPath{"hang: recursion limit"})
		}
	}
	fr.env = make([]Value, fr.info.n)
	for i, x := range fn.Params {
		fr.env[fr.info.idx[x]] = args[i]
	}
	for i, x := range fn.FreeVars {
		fr.env[fr.info.idx[x]] = env[i]
	}
	oldTop := g.top
	g.top = fr
	fr.run()
	g.top = oldTop
	return fr.result
}

func (p *Path) callValue(g *G, caller *frame, f Value, args []Value) Value {
	c, ok := f.(*Closure)
	if !ok || c == nil {
		panic(p.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	if c.native != nil {
		return c.native(p, g, args)
	}
	return p.call(g, caller, c.fn, args, c.env)
}

func (fr *frame) run() {
	fr.block = fr.fn.Blocks[0]
	for {
		done := fr.runBlocks()
		if done {
			return
		}
		// recovered: continue at the Recover block
		if fr.fn.Recover == nil {
			fr.result = fr.zeroResult()
			return
		}
		fr.prev = nil
		fr.block = fr.fn.Recover
	}
}

func (fr *frame) zeroResult() Value {
	r := fr.fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return fr.p.zero(r.At(0).Type())
	}
	return fr.p.zero(r)
}

// runBlocks returns true when the function has returned, false after recovery.
func (fr *frame) runBlocks() (done bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.g.top = fr
		fr.panicV = &tp
		fr.runDefers()
		if fr.panicV != nil {
			panic(*fr.panicV)
		}
		done = false
	}()
	for {
		if fr.exec() {
			return true
		}
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
}

func (fr *frame) runDefer(d func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.g.top = fr
		fr.panicV = &tp
	}()
	d()
}

// exec runs one basic block; returns true on function return.
func (fr *frame) exec() bool {
	p := fr.p
	b := fr.block
	// phis in parallel
	i := 0
	if len(b.Instrs) > 0 {
		if _, ok := b.Instrs[0].(*ssa.Phi); ok {
			pi := 0
			for k, pr := range b.Preds {
				if pr == fr.prev {
					pi = k
					break
				}
			}
			var tmp []Value
			for i < len(b.Instrs) {
				ph, ok := b.Instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				tmp = append(tmp, fr.get(ph.Edges[pi]))
				i++
			}
			for k := range tmp {
				fr.set(b.Instrs[k].(*ssa.Phi), tmp[k])
			}
		}
	}
	for ; i < len(b.Instrs); i++ {
		p.step()
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			slot := new(Value)
			*slot = p.zero(in.Type().Underlying().(*types.Pointer).Elem())
			fr.set(in, Ptr{p: slot})
		case *ssa.UnOp:
			fr.set(in, fr.unop(in))
		case *ssa.BinOp:
			fr.set(in, p.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y)))
		case *ssa.Call:
			fr.set(in, fr.doCall(&in.Call, in))
		case *ssa.ChangeInterface:
			fr.set(in, fr.get(in.X))
		case *ssa.ChangeType:
			fr.set(in, fr.get(in.X))
		case *ssa.Convert:
			fr.set(in, p.convert(fr.get(in.X), in.X.Type(), in.Type()))
		case *ssa.MultiConvert:
			fr.set(in, p.convert(fr.get(in.X), in.X.Type(), in.Type()))
		case *ssa.Defer:
			fn, args, common := fr.prepCall(&in.Call)
			ff, g := fr, fr.g
			d := func() { ff.invoke(fn, args, common, nil) }
			_ = g
			if in.DeferStack != nil {
				ds := fr.get(in.DeferStack)
				if t, ok := ds.(*frame); ok {
					t.defers = append(t.defers, d)
					break
				}
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Extract:
			fr.set(in, fr.get(in.Tuple).([]Value)[in.Index])
		case *ssa.Field:
			fr.set(in, p.copyVal(fr.get(in.X).(*StructObj).f[in.Field]))
		case *ssa.FieldAddr:
			x := p.cptr(fr.get(in.X).(Ptr))
			if x.p == nil {
				panic(p.nilDeref())
			}
			so, ok := (*x.p).(*StructObj)
			if !ok {
				p.unsupported(fmt.Sprintf("field address in %T at %s", *x.p, fr.fn))
			}
			fr.set(in, Ptr{p: &so.f[in.Field]})
		case *ssa.Go:
			fn, args, common := fr.prepCall(&in.Call)
			p.spawn(fr.g, fn, args, common)
		case *ssa.If:
			c := fr.get(in.Cond).(*Term)
			fr.prev = b
			if p.branch(c) {
				fr.block = b.Succs[0]
			} else {
				fr.block = b.Succs[1]
			}
			return false
		case *ssa.Index:
			fr.set(in, fr.index(in))
		case *ssa.IndexAddr:
			fr.set(in, fr.indexAddr(in))
		case *ssa.Jump:
			fr.prev = b
			fr.block = b.Succs[0]
			return false
		case *ssa.Lookup:
			fr.set(in, fr.lookup(in))
		case *ssa.MakeChan:
			n := p.intVal(fr.get(in.Size))
			fr.set(in, &ChanObj{cap: n, et: in.Type().Underlying().(*types.Chan).Elem()})
		case *ssa.MakeClosure:
			c := &Closure{fn: in.Fn.(*ssa.Function)}
			for _, x := range in.Bindings {
				c.env = append(c.env, fr.get(x))
			}
			fr.set(in, c)
		case *ssa.MakeInterface:
			fr.set(in, Iface{t: in.X.Type(), v: fr.get(in.X)})
		case *ssa.MakeMap:
			if in.Reserve != nil {
				// only a hint; huge or negative symbolic hints are harmless in Go
				_ = fr.get(in.Reserve)
			}
			fr.set(in, newMap(in.Type().Underlying().(*types.Map).Key()))
		case *ssa.MakeSlice:
			fr.set(in, fr.makeSlice(in))
		case *ssa.MapUpdate:
			m := fr.get(in.Map).(*MapObj)
			if m == nil {
				panic(p.rtPanicPlain("assignment to entry in nil map"))
			}
			p.access(fr.g, in, m, true)
			p.mapSet(m, fr.get(in.Key), p.copyVal(fr.get(in.Value)))
		case *ssa.Next:
			fr.set(in, fr.next(in))
		case *ssa.Panic:
			v := fr.get(in.X).(Iface)
			panic(targetPanic{v: v, m: p.panicText(v)})
		case *ssa.Range:
			fr.set(in, fr.rangeIter(in))
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
			case 1:
				fr.result = fr.get(in.Results[0])
			default:
				r := make([]Value, len(in.Results))
				for k, x := range in.Results {
					r[k] = fr.get(x)
				}
				fr.result = r
			}
			return true
		case *ssa.RunDefers:
			fr.runDefers()
			if fr.panicV != nil {
				panic(*fr.panicV)
			}
		case *ssa.Select:
			fr.set(in, p.selectOp(fr, in))
		case *ssa.Send:
			p.chanSend(fr.g, fr.get(in.Chan).(*ChanObj), p.copyVal(fr.get(in.X)))
		case *ssa.Slice:
			fr.set(in, fr.slice(in))
		case *ssa.SliceToArrayPointer:
			s := fr.get(in.X).(Slice)
			n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			if s.len < n {
				panic(p.rtPanic(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", s.len, n)))
			}
			if s.off == 0 && len(s.arr.e) == n {
				slot := new(Value)
				*slot = s.arr
				fr.set(in, Ptr{p: slot})
				break
			}
			// an aliasing sub-array
			sub := &ArrayObj{e: s.arr.e[s.off : s.off+n : s.off+n], et: s.arr.et}
			slot := new(Value)
			*slot = sub
			fr.set(in, Ptr{p: slot})
		case *ssa.Store:
			a := fr.get(in.Addr).(Ptr)
			p.store(fr.g, in, a, fr.get(in.Val))
		case *ssa.TypeAssert:
			fr.set(in, fr.typeAssert(in))
		default:
			p.unsupported(fmt.Sprintf("instruction %T", in))
		}
	}
	panic("block fell through")
}

func (p *Path) nilDeref() targetPanic {
	return p.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

// rtPanic builds a runtime.Error panic value.
func (p *Path) rtPanic(msg string) targetPanic {
	t := p.w.prog.rtErr
	return targetPanic{v: Iface{t: t, v: Str{s: strings.TrimPrefix(msg, "runtime error: ")}}, m: msg}
}

func (p *Path) rtPanicPlain(msg string) targetPanic {
	t := p.w.prog.rtErr
	return targetPanic{v: Iface{t: t, v: Str{s: msg}}, m: msg}
}

func (p *Path) panicText(v Iface) string {
	if v.t == nil {
		return "panic(nil)"
	}
	switch x := v.v.(type) {
	case Str:
		if x.isConc() {
			return x.s
		}
	}
	return "panic of type " + v.t.String()
}

func (p *Path) load(g *G, in ssa.Instruction, a Ptr, t types.Type) Value {
	if a.sym != nil {
		return p.loadSym(a, t)
	}
	if a.p == nil {
		panic(p.nilDeref())
	}
	p.access(g, in, a.p, false)
	v := *a.p
	if v == nil {
		return p.zero(t)
	}
	switch v.(type) {
	case *Term:
		if isScalar(t) && v.(*Term).w == width(t) {
			return v
		}
		return p.recast(a, v, t)
	case Str, Slice, *ArrayObj:
		if r := p.recast(a, v, t); r != nil {
			return r
		}
		return p.copyVal(v)
	case *StructObj, *MutexObj, *RWMutexObj, *OnceObj, *WGObj:
		return p.copyVal(v)
	}
	return v
}

// recast reads memory through a pointer that went through unsafe.Pointer: nil when the
// value already has the wanted shape.
func (p *Path) recast(a Ptr, v Value, t types.Type) Value {
	bits := func(v Value, a Ptr, n int) *Term { // n bits from v on, little endian
		var r *Term
		add := func(x Value) {
			e, ok := x.(*Term)
			if !ok || e.w == 0 {
				p.unsupported("unsafe cast")
			}
			if r == nil {
				r = e
			} else {
				r = p.tc.Concat(e, r)
			}
		}
		if o, ok := v.(*ArrayObj); ok {
			for i := 0; i < len(o.e) && (r == nil || int(r.w) < n); i++ {
				add(p.elem(o, i))
			}
		} else if a.arr != nil {
			for i := a.idx; i < len(a.arr.e) && (r == nil || int(r.w) < n); i++ {
				add(p.elem(a.arr, i))
			}
		} else {
			add(v)
		}
		if r == nil || int(r.w) < n {
			p.unsupported("unsafe cast")
		}
		return p.tc.Extract(r, uint8(n-1), 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case Slice:
			if u.Info()&types.IsString != 0 {
				return p.bytesToStr(x)
			}
		case *Term:
			if isScalar(t) && x.w != 0 && width(t) != 0 {
				return bits(v, a, int(width(t)))
			}
			p.unsupported("unsafe cast")
		case *ArrayObj:
			return bits(v, a, int(width(t)))
		}
	case *types.Slice:
		if s, ok := v.(Str); ok {
			return p.strToBytes(s, u.Elem())
		}
	case *types.Array:
		if _, ok := v.(*Term); ok && isScalar(u.Elem()) && width(u.Elem()) != 0 {
			w := int(width(u.Elem()))
			r := p.newArray(u.Elem(), int(u.Len()))
			if w*len(r.e) > 64 {
				p.unsupported("unsafe cast")
			}
			b := bits(v, a, w*len(r.e))
			for i := range r.e {
				r.e[i] = p.tc.Extract(b, uint8(i*w+w-1), uint8(i*w))
			}
			return r
		}
	default:
		if _, ok := v.(*Term); ok {
			p.unsupported("unsafe cast")
		}
	}
	return nil
}

// selectTerm is element i of n: a balanced choice between runs of equal elements.
func (p *Path) selectTerm(i *Term, n int, elem func(int) *Term) *Term {
	type run struct {
		from int
		v    *Term
	}
	var rs []run
	for k := 0; k < n; k++ {
		if v := elem(k); len(rs) == 0 || rs[len(rs)-1].v != v {
			rs = append(rs, run{k, v})
		}
	}
	var sel func(rs []run) *Term
	sel = func(rs []run) *Term {
		if len(rs) == 1 {
			return rs[0].v
		}
		m := len(rs) / 2
		return p.tc.Ite(p.tc.Ult(i, p.tc.Const(i.w, uint64(rs[m].from))), sel(rs[:m]), sel(rs[m:]))
	}
	return sel(rs)
}

func (p *Path) loadSym(a Ptr, t types.Type) Value {
	if isScalar(t) && a.n <= 1100 {
		return p.selectTerm(a.sym, a.n, func(i int) *Term { return p.elem(a.arr, a.idx+i).(*Term) })
	}
	c := p.cptr(a)
	v := *c.p
	if v == nil {
		return p.zero(t)
	}
	return p.copyVal(v)
}

func (p *Path) store(g *G, in ssa.Instruction, a Ptr, v Value) {
	if a.sym != nil {
		if tv, ok := v.(*Term); ok && a.n <= 300 {
			for i := 0; i < a.n; i++ {
				o := p.elem(a.arr, a.idx+i).(*Term)
				a.arr.e[a.idx+i] = p.tc.Ite(p.tc.Eq(a.sym, p.tc.Const(a.sym.w, uint64(i))), tv, o)
			}
			return
		}
		a = p.cptr(a)
	}
	if a.p == nil {
		panic(p.nilDeref())
	}
	p.access(g, in, a.p, true)
	p.storeTo(a.p, v)
}

func (fr *frame) unop(in *ssa.UnOp) Value {
	p := fr.p
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		return p.load(fr.g, in, x.(Ptr), in.Type())
	case token.NOT:
		return p.tc.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if isFloat(in.Type()) {
			return p.tc.Bin(OBxor, t, p.tc.Const(t.w, 1<<(t.w-1)))
		}
		return p.tc.Neg(t)
	case token.XOR:
		return p.tc.Bnot(x.(*Term))
	case token.ARROW:
		v, ok := p.chanRecv(fr.g, x.(*ChanObj))
		if v == nil {
			v = p.zero(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		if in.CommaOk {
			return []Value{v, p.tc.Bool(ok)}
		}
		return v
	}
	p.unsupported("unop " + in.Op.String())
	return nil
}

func (p *Path) binop(op token.Token, t, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		if isFloat(t) {
			return p.tc.FBin(OFEq, x.(*Term), y.(*Term))
		}
		return p.eqMixed(t, ty, x, y)
	case token.NEQ:
		if isFloat(t) {
			return p.tc.Not(p.tc.FBin(OFEq, x.(*Term), y.(*Term)))
		}
		return p.tc.Not(p.eqMixed(t, ty, x, y))
	}
	if isString(t) {
		a, b := x.(Str), y.(Str)
		switch op {
		case token.ADD:
			return p.concat(a, b)
		case token.LSS:
			return p.strLess(a, b)
		case token.GTR:
			return p.strLess(b, a)
		case token.LEQ:
			return p.tc.Not(p.strLess(b, a))
		case token.GEQ:
			return p.tc.Not(p.strLess(a, b))
		}
	}
	a, b := x.(*Term), y.(*Term)
	if isFloat(t) {
		switch op {
		case token.ADD:
			return p.tc.FBin(OFAdd, a, b)
		case token.SUB:
			return p.tc.FBin(OFSub, a, b)
		case token.MUL:
			return p.tc.FBin(OFMul, a, b)
		case token.QUO:
			return p.tc.FBin(OFDiv, a, b)
		case token.LSS:
			return p.tc.FBin(OFLt, a, b)
		case token.LEQ:
			return p.tc.FBin(OFLe, a, b)
		case token.GTR:
			return p.tc.FBin(OFLt, b, a)
		case token.GEQ:
			return p.tc.FBin(OFLe, b, a)
		}
	}
	sg := isSigned(t)
	switch op {
	case token.ADD:
		return p.tc.Bin(OAdd, a, b)
	case token.SUB:
		return p.tc.Bin(OSub, a, b)
	case token.MUL:
		return p.tc.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if p.branch(p.tc.Eq(b, p.tc.Const(b.w, 0))) {
			panic(p.rtPanic("runtime error: integer divide by zero"))
		}
		o := OUdiv
		switch {
		case op == token.QUO && sg:
			o = OSdiv
		case op == token.REM && sg:
			o = OSrem
		case op == token.REM:
			o = OUrem
		}
		return p.tc.Bin(o, a, b)
	case token.AND:
		return p.tc.Bin(OBand, a, b)
	case token.OR:
		return p.tc.Bin(OBor, a, b)
	case token.XOR:
		return p.tc.Bin(OBxor, a, b)
	case token.AND_NOT:
		return p.tc.Bin(OBand, a, p.tc.Bnot(b))
	case token.SHL, token.SHR:
		if isSigned(ty) && !nonneg(b) {
			if p.branch(p.tc.Slt(b, p.tc.Const(b.w, 0))) {
				panic(p.rtPanic("runtime error: negative shift amount"))
			}
		}
		return p.shift(op, sg, a, b)
	case token.LSS:
		if sg {
			return p.tc.Slt(a, b)
		}
		return p.tc.Ult(a, b)
	case token.LEQ:
		if sg {
			return p.tc.Sle(a, b)
		}
		return p.tc.Ule(a, b)
	case token.GTR:
		if sg {
			return p.tc.Slt(b, a)
		}
		return p.tc.Ult(b, a)
	case token.GEQ:
		if sg {
			return p.tc.Sle(b, a)
		}
		return p.tc.Ule(b, a)
	}
	p.unsupported("binop " + op.String())
	return nil
}

func (p *Path) shift(op token.Token, sg bool, a, b *Term) *Term {
	o := OShl
	if op == token.SHR {
		o = OLshr
		if sg {
			o = OAshr
		}
	}
	if b.w == a.w {
		return p.tc.Bin(o, a, b)
	}
	if b.w < a.w {
		return p.tc.Bin(o, a, p.tc.Zext(b, a.w))
	}
	// wider count: saturate
	big := p.tc.Not(p.tc.Ult(b, p.tc.Const(b.w, uint64(a.w))))
	lo := p.tc.Extract(b, a.w-1, 0)
	r := p.tc.Bin(o, a, lo)
	if o == OAshr {
		return p.tc.Ite(big, p.tc.Bin(o, a, p.tc.Const(a.w, uint64(a.w-1))), r)
	}
	return p.tc.Ite(big, p.tc.Const(a.w, 0), r)
}

func (p *Path) eqMixed(t, ty types.Type, x, y Value) *Term {
	_, xi := t.Underlying().(*types.Interface)
	_, yi := ty.Underlying().(*types.Interface)
	if xi && !yi {
		if _, ok := y.(Iface); !ok {
			y = Iface{t: ty, v: y}
		}
	}
	if yi && !xi {
		if _, ok := x.(Iface); !ok {
			x = Iface{t: t, v: x}
		}
	}
	return p.equal(x, y)
}

func (p *Path) convert(x Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := to.(*types.TypeParam); ok {
		p.unsupported("convert to type parameter " + tp.String())
	}
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch f := fu.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return x
				}
				// integer to string (rune)
				c := x.(*Term)
				if c.op == OConst {
					return Str{s: string(rune(sx(c.k, c.w)))}
				}
				c64 := p.tc.Resize(c, isSigned(from), 64)
				return p.mkStr(p.encodeRuneSym(c64))
			case *types.Slice:
				s := x.(Slice)
				if w := width(f.Elem()); w == 8 {
					return p.bytesToStr(s)
				}
				var b []*Term
				for i := 0; i < s.len; i++ {
					r := p.elem(s.arr, s.off+i).(*Term)
					if r.op == OConst {
						for _, c := range []byte(string(rune(int32(r.k)))) {
							b = append(b, p.tc.Const(8, uint64(c)))
						}
						continue
					}
					b = append(b, p.encodeRuneSym(r)...)
				}
				return p.mkStr(b)
			}
		case t.Kind() == types.UnsafePointer:
			return x
		case t.Info()&(types.IsInteger|types.IsFloat) != 0:
			if f, ok := fu.(*types.Basic); ok && f.Kind() == types.UnsafePointer {
				p.unsupported("uintptr of pointer")
			}
			c := x.(*Term)
			ff, tf := isFloat(from), isFloat(to)
			switch {
			case ff && tf:
				return p.tc.FUn(OFCvt, c, width(to))
			case ff:
				return p.floatToInt(c, to)
			case tf:
				if isSigned(from) {
					return p.tc.FUn(OFromS, c, width(to))
				}
				return p.tc.FUn(OFromU, c, width(to))
			}
			return p.tc.Resize(c, isSigned(from), width(to))
		}
		return x
	case *types.Slice:
		if isString(from) {
			if width(t.Elem()) == 8 {
				return p.strToBytes(x.(Str), t.Elem())
			}
			s := x.(Str)
			if !s.isConc() {
				b := p.strBytes(s)
				a := &ArrayObj{et: t.Elem()}
				for len(b) > 0 {
					r, w := p.decodeRuneSym(b)
					a.e = append(a.e, r)
					b = b[w:]
				}
				return Slice{a, 0, len(a.e), len(a.e)}
			}
			a := &ArrayObj{et: t.Elem()}
			for _, r := range s.s {
				a.e = append(a.e, p.tc.Const(32, uint64(uint32(r))))
			}
			return Slice{a, 0, len(a.e), len(a.e)}
		}
		return x
	case *types.Pointer:
		return x
	}
	return x
}

func (p *Path) floatToInt(c *Term, to types.Type) Value {
	w := width(to)
	if c.op == OConst {
		f := f64(c.k)
		if c.w == 32 {
			f = float64(f32(c.k))
		}
		if isSigned(to) {
			return p.tc.Const(w, uint64(int64(f)))
		}
		return p.tc.Const(w, uint64(f))
	}
	// within range: exact; outside: implementation defined (amd64)
	if isSigned(to) && w < 64 || !isSigned(to) && w < 32 {
		// by way of 32 bits
		c = p.tc.FUn(OFCvt, c, 64)
		lo := p.tc.Const(64, math.Float64bits(-2147483649.0))
		hi := p.tc.Const(64, math.Float64bits(2147483648.0))
		in := p.tc.And(p.tc.FBin(OFLt, lo, c), p.tc.FBin(OFLt, c, hi))
		return p.tc.Extract(p.tc.Ite(in, p.tc.FUn(OToS, c, 64), p.tc.Const(64, 1<<31)), w-1, 0)
	}
	if !isSigned(to) {
		c = p.tc.FUn(OFCvt, c, 64)
		if w == 32 {
			return p.tc.Extract(p.floatToInt(c, types.Typ[types.Int64]).(*Term), 31, 0)
		}
		half := p.tc.Const(64, math.Float64bits(9223372036854775808.0))
		low := p.floatToInt(c, types.Typ[types.Int64]).(*Term)
		high := p.floatToInt(p.tc.FBin(OFSub, c, half), types.Typ[types.Int64]).(*Term)
		return p.tc.Ite(p.tc.FBin(OFLt, c, half), low, p.tc.Bin(OBxor, high, p.tc.Const(64, 1<<63)))
	}
	c = p.tc.FUn(OFCvt, c, 64)
	lo := p.tc.Const(64, math.Float64bits(-9223372036854775808.0))
	hi := p.tc.Const(64, math.Float64bits(9223372036854775808.0))
	in := p.tc.And(p.tc.FBin(OFLe, lo, c), p.tc.FBin(OFLt, c, hi))
	return p.tc.Ite(in, p.tc.FUn(OToS, c, 64), p.tc.Const(64, 1<<63))
}

func (p *Path) intVal(v Value) int {
	t := v.(*Term)
	if t.op == OConst {
		return int(t.S())
	}
	return int(sx(p.concretize(t), t.w))
}

// boundsIdx checks 0 <= idx < n and returns idx as a 64-bit term.
func (p *Path) boundsIdx(idx *Term, signed bool, n int) *Term {
	i := p.tc.Resize(idx, signed, 64)
	if i.op == OConst {
		if i.k >= uint64(n) {
			panic(p.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.k), n)))
		}
		return i
	}
	if !p.branch(p.tc.Ult(i, p.tc.Const(64, uint64(n)))) {
		panic(p.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n)))
	}
	return i
}

func (fr *frame) index(in *ssa.Index) Value {
	p := fr.p
	x := fr.get(in.X)
	switch c := x.(type) {
	case Str:
		n := p.strLen(c)
		i := p.boundsIdx(fr.get(in.Index).(*Term), isSigned(in.Index.Type()), n)
		return p.strIdx(c, i, n)
	case *ArrayObj:
		i := p.boundsIdx(fr.get(in.Index).(*Term), isSigned(in.Index.Type()), len(c.e))
		if i.op == OConst {
			return p.copyVal(p.elem(c, int(i.k)))
		}
		return p.loadSym(Ptr{arr: c, sym: i, n: len(c.e)}, in.Type())
	}
	p.unsupported(fmt.Sprintf("index of %T", x))
	return nil
}

func (p *Path) strIdx(c Str, i *Term, n int) Value {
	if i.op == OConst {
		return p.strByte(c, int(i.k))
	}
	if n <= 1100 {
		return p.selectTerm(i, n, func(k int) *Term { return p.strByte(c, k) })
	}
	return p.strByte(c, int(p.concretize(i)))
}

func (fr *frame) indexAddr(in *ssa.IndexAddr) Value {
	p := fr.p
	x := fr.get(in.X)
	it := fr.get(in.Index).(*Term)
	sg := isSigned(in.Index.Type())
	var arr *ArrayObj
	off, n := 0, 0
	switch c := x.(type) {
	case Slice:
		arr, off, n = c.arr, c.off, c.len
	case Ptr:
		c = p.cptr(c)
		if c.p == nil {
			panic(p.nilDeref())
		}
		arr = (*c.p).(*ArrayObj)
		n = len(arr.e)
	default:
		p.unsupported(fmt.Sprintf("index address of %T", x))
	}
	i := p.boundsIdx(it, sg, n)
	if i.op == OConst {
		k := off + int(i.k)
		return Ptr{p: &arr.e[k], arr: arr, idx: k}
	}
	if isScalar(arr.et) {
		return Ptr{arr: arr, idx: off, sym: i, n: n}
	}
	k := off + int(p.concretize(i))
	return Ptr{p: &arr.e[k], arr: arr, idx: k}
}

func (fr *frame) lookup(in *ssa.Lookup) Value {
	p := fr.p
	x := fr.get(in.X)
	if s, ok := x.(Str); ok {
		n := p.strLen(s)
		i := p.boundsIdx(fr.get(in.Index).(*Term), isSigned(in.Index.Type()), n)
		return p.strIdx(s, i, n)
	}
	m := x.(*MapObj)
	if m != nil {
		p.access(fr.g, in, m, false)
	}
	e := p.mapFind(m, fr.get(in.Index))
	var v Value
	if e != nil {
		v = p.copyVal(e.v)
	} else {
		v = p.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return []Value{v, p.tc.Bool(e != nil)}
	}
	return v
}

func (fr *frame) makeSlice(in *ssa.MakeSlice) Value {
	p := fr.p
	et := in.Type().Underlying().(*types.Slice).Elem()
	lt := p.tc.Resize(fr.get(in.Len).(*Term), isSigned(in.Len.Type()), 64)
	ct := p.tc.Resize(fr.get(in.Cap).(*Term), isSigned(in.Cap.Type()), 64)
	n := p.allocLen(lt, et, "makeslice: len out of range")
	c := n
	if in.Cap != in.Len {
		c = p.allocLen(ct, et, "makeslice: cap out of range")
		if c < n {
			panic(p.rtPanic("runtime error: makeslice: cap out of range"))
		}
	}
	return Slice{p.newArray(et, c), 0, n, c}
}

const maxAlloc = 1 << 47

// allocLen turns a requested length into a concrete one, separating the
// panicking and the absurdly large requests.
func (p *Path) allocLen(t *Term, et types.Type, msg string) int {
	es := uint64(p.w.prog.sizes.Sizeof(et))
	if es == 0 {
		es = 1
	}
	lim := p.allocLimit
	if t.op == OConst {
		if t.k > maxAlloc/es {
			panic(p.rtPanic("runtime error: " + msg))
		}
		if t.k*es > lim {
			panic(abortPath{"alloc: " + fmt.Sprintf("allocation of %d elements of %d bytes", t.k, es)})
		}
		p.allocated += t.k * es
		return int(t.k)
	}
	if p.branch(p.tc.Ult(p.tc.Const(64, maxAlloc/es), t)) {
		panic(p.rtPanic("runtime error: " + msg))
	}
	if p.branch(p.tc.Ult(p.tc.Const(64, lim/es), t)) {
		// try to make it as large as possible for the replay
		for _, big := range []uint64{1 << 40, 1 << 36, 1 << 33, 1 << 31, 1 << 29, lim / es * 8, lim / es * 2} {
			if p.tryAssume(p.tc.Ule(p.tc.Const(64, big), t)) {
				break
			}
		}
		panic(abortPath{"alloc: unbounded allocation"})
	}
	n := int(p.concretizeLen(t))
	p.allocated += uint64(n) * es
	return n
}

func (fr *frame) rangeIter(in *ssa.Range) Value {
	p := fr.p
	x := fr.get(in.X)
	if s, ok := x.(Str); ok {
		if s.fl != nil {
			s = p.flBytes(s)
		}
		return &mapIter{str: &s}
	}
	m := x.(*MapObj)
	it := &mapIter{m: m}
	if m != nil {
		p.access(fr.g, in, m, false)
		it.ents = p.iterOrder(m, fr.fn)
	}
	return it
}

// iterOrder picks an iteration order for the live entries.
// The order is left alone in harness code.
func (p *Path) iterOrder(m *MapObj, fn *ssa.Function) []*mapEnt {
	var l []*mapEnt
	for _, e := range m.ents {
		if !e.dead {
			l = append(l, e)
		}
	}
	if fn != nil && fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/zzverif/") {
		return l
	}
	if p.permute > 0 && len(l) > 1 && len(l) <= p.permute {
		var r []*mapEnt
		for len(l) > 1 {
			k := p.choice(len(l))
			r = append(r, l[k])
			l = append(append([]*mapEnt(nil), l[:k]...), l[k+1:]...)
		}
		return append(r, l[0])
	}
	return l
}

func (fr *frame) next(in *ssa.Next) Value {
	p := fr.p
	it := fr.get(in.Iter).(*mapIter)
	if in.IsString {
		s := *it.str
		n := p.strLen(s)
		if it.i >= n {
			return []Value{p.tc.tFalse, p.tc.Const(64, 0), p.tc.Const(32, 0)}
		}
		i := it.i
		if s.isConc() {
			r, w := decodeRune(s.s[i:])
			it.i += w
			return []Value{p.tc.tTrue, p.tc.Const(64, uint64(i)), p.tc.Const(32, uint64(uint32(r)))}
		}
		var bs []*Term
		for k := i; k < n && k < i+4; k++ {
			bs = append(bs, p.strByte(s, k))
		}
		r, w := p.decodeRuneSym(bs)
		it.i += w
		return []Value{p.tc.tTrue, p.tc.Const(64, uint64(i)), r}
	}
	kt := in.Type().(*types.Tuple).At(1).Type()
	vt := in.Type().(*types.Tuple).At(2).Type()
	for it.m != nil && it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.dead {
			continue
		}
		return []Value{p.tc.tTrue, e.k, p.copyVal(e.v)}
	}
	return []Value{p.tc.tFalse, p.zeroOrNil(kt), p.zeroOrNil(vt)}
}

func (p *Path) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return p.zero(t)
}

func decodeRune(s string) (rune, int) {
	for i, r := range s {
		_ = i
		n := len(string(r))
		if r == 0xFFFD && !(len(s) >= 3 && s[:3] == "\uFFFD") {
			n = 1
		}
		return r, n
	}
	return 0, 0
}

func (fr *frame) slice(in *ssa.Slice) Value {
	p := fr.p
	x := fr.get(in.X)
	get := func(v ssa.Value, def int) *Term {
		if v == nil {
			return p.tc.Const(64, uint64(def))
		}
		return p.tc.Resize(fr.get(v).(*Term), isSigned(v.Type()), 64)
	}
	check := func(lo, hi, mx *Term, capn int, what string) (int, int, int) {
		// 0 <= lo <= hi <= max <= cap
		cn := p.tc.Const(64, uint64(capn))
		if !p.branch(p.tc.Ule(mx, cn)) {
			panic(p.rtPanic("runtime error: slice bounds out of range [::] with capacity " + fmt.Sprint(capn)))
		}
		if !p.branch(p.tc.Ule(hi, mx)) {
			panic(p.rtPanic("runtime error: slice bounds out of range [:" + constTxt(hi) + "] with " + what + " " + fmt.Sprint(capn)))
		}
		if !p.branch(p.tc.Ule(lo, hi)) {
			panic(p.rtPanic("runtime error: slice bounds out of range [" + constTxt(lo) + ":" + constTxt(hi) + "]"))
		}
		h := int(p.concretize(hi))
		l := int(p.concretize(lo))
		m := int(p.concretize(mx))
		return l, h, m
	}
	switch c := x.(type) {
	case Str:
		n := p.strLen(c)
		if c.fl != nil && in.Low == nil && in.High == nil {
			return c
		}
		lo, hi := get(in.Low, 0), get(in.High, n)
		l, h, _ := check(lo, hi, p.tc.Const(64, uint64(n)), n, "length")
		return p.strSlice(c, l, h)
	case Slice:
		lo, hi, mx := get(in.Low, 0), get(in.High, c.len), get(in.Max, c.cap)
		l, h, m := check(lo, hi, mx, c.cap, "capacity")
		if c.arr == nil {
			return Slice{}
		}
		return Slice{c.arr, c.off + l, h - l, m - l}
	case Ptr:
		c = p.cptr(c)
		if c.p == nil {
			panic(p.nilDeref())
		}
		a := (*c.p).(*ArrayObj)
		n := len(a.e)
		lo, hi, mx := get(in.Low, 0), get(in.High, n), get(in.Max, n)
		l, h, m := check(lo, hi, mx, n, "capacity")
		return Slice{a, l, h - l, m - l}
	}
	p.unsupported(fmt.Sprintf("slice of %T", x))
	return nil
}

func constTxt(t *Term) string {
	if t.op == OConst {
		return fmt.Sprint(t.S())
	}
	return "?"
}

func (fr *frame) typeAssert(in *ssa.TypeAssert) Value {
	p := fr.p
	x, ok := fr.get(in.X).(Iface)
	if !ok {
		p.unsupported("type assertion on non-interface")
	}
	good := false
	var v Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if p.w.prog.implements(x.t, it) {
				good = true
				v = x
			}
		} else if types.Identical(x.t, in.AssertedType) {
			good = true
			v = p.copyVal(x.v)
		}
	}
	if in.CommaOk {
		if !good {
			v = p.zero(in.AssertedType)
		}
		return []Value{v, p.tc.Bool(good)}
	}
	if !good {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		panic(p.rtPanicPlain(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType)))
	}
	return v
}

func (fr *frame) prepCall(c *ssa.CallCommon) (Value, []Value, *ssa.CallCommon) {
	p := fr.p
	var fn Value
	var args []Value
	if c.IsInvoke() {
		recv, ok := fr.get(c.Value).(Iface)
		if !ok || recv.t == nil {
			panic(p.nilDeref())
		}
		f := p.w.prog.findMethod(recv.t, c.Method)
		if f == nil {
			p.unsupported("method " + c.Method.String() + " of " + recv.t.String())
		}
		fn = p.fnVal(f)
		args = append(args, p.copyVal(recv.v))
	} else {
		fn = fr.get(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args, c
}

func (fr *frame) doCall(c *ssa.CallCommon, in ssa.Instruction) Value {
	fn, args, c := fr.prepCall(c)
	return fr.invoke(fn, args, c, in)
}

func (fr *frame) invoke(fn Value, args []Value, c *ssa.CallCommon, in ssa.Instruction) Value {
	p := fr.p
	if b, ok := fn.(*ssa.Builtin); ok {
		return fr.builtin(b, args, c)
	}
	cl, ok := fn.(*Closure)
	if !ok || cl == nil {
		panic(p.nilDeref())
	}
	if cl.native != nil {
		return cl.native(p, fr.g, args)
	}
	return p.call(fr.g, fr, cl.fn, args, cl.env)
}

func (fr *frame) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	p := fr.p
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case Str:
			return p.tc.Const(64, uint64(p.strLen(x)))
		case Slice:
			if b.Name() == "cap" {
				return p.tc.Const(64, uint64(x.cap))
			}
			return p.tc.Const(64, uint64(x.len))
		case *MapObj:
			if x == nil {
				return p.tc.Const(64, 0)
			}
			p.access(fr.g, nil, x, false)
			return p.tc.Const(64, uint64(x.live))
		case *ChanObj:
			if x == nil {
				return p.tc.Const(64, 0)
			}
			if b.Name() == "cap" {
				return p.tc.Const(64, uint64(x.cap))
			}
			return p.tc.Const(64, uint64(len(x.buf)))
		case *ArrayObj:
			return p.tc.Const(64, uint64(len(x.e)))
		case Ptr:
			return p.tc.Const(64, uint64(len((*x.p).(*ArrayObj).e)))
		}
	case "append":
		s := args[0].(Slice)
		var et types.Type
		if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			et = st.Elem()
		}
		switch y := args[1].(type) {
		case Str:
			bs := p.strBytes(y)
			vs := make([]Value, len(bs))
			for i := range bs {
				vs[i] = bs[i]
			}
			return p.appendVals(s, vs, et)
		case Slice:
			if y.len == 0 {
				return s
			}
			vs := make([]Value, y.len)
			copy(vs, y.arr.e[y.off:y.off+y.len])
			if !isScalar(et) {
				for i := range vs {
					vs[i] = p.copyVal(vs[i])
				}
			}
			return p.appendVals(s, vs, et)
		}
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Str:
			bs := p.strBytes(y)
			n := min(d.len, len(bs))
			for i := 0; i < n; i++ {
				d.arr.e[d.off+i] = bs[i]
			}
			return p.tc.Const(64, uint64(n))
		case Slice:
			n := min(d.len, y.len)
			if n > 0 {
				if isScalar(d.arr.et) {
					copy(d.arr.e[d.off:d.off+n], y.arr.e[y.off:y.off+n])
				} else {
					tmp := make([]Value, n)
					for i := range tmp {
						tmp[i] = p.copyVal(y.arr.e[y.off+i])
					}
					for i := range tmp {
						p.storeTo(&d.arr.e[d.off+i], tmp[i])
					}
				}
			}
			return p.tc.Const(64, uint64(n))
		}
	case "delete":
		m := args[0].(*MapObj)
		if m != nil {
			p.access(fr.g, nil, m, true)
			p.mapDel(m, args[1])
		}
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(targetPanic{v: v, m: p.panicText(v)})
	case "print", "println":
		return nil
	case "recover":
		// the deferring function's caller frame is the panicking one
		t := fr.caller
		if t != nil && t.panicV != nil {
			v := t.panicV.v
			t.panicV = nil
			return v
		}
		return Iface{}
	case "close":
		p.chanClose(fr.g, args[0].(*ChanObj))
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if s, ok := r.(Str); ok {
				lt := p.strLess(a.(Str), s)
				if b.Name() == "max" {
					lt = p.strLess(s, a.(Str))
				}
				if p.branch(lt) {
					r = a
				}
				continue
			}
			x, y := r.(*Term), a.(*Term)
			t := c.Args[0].Type()
			if isFloat(t) {
				if x.op != OConst || y.op != OConst {
					p.unsupported("min/max of symbolic floats")
				}
				if b.Name() == "min" {
					r = p.tc.Const(64, math.Float64bits(min(f64(x.k), f64(y.k))))
				} else {
					r = p.tc.Const(64, math.Float64bits(max(f64(x.k), f64(y.k))))
				}
				continue
			}
			var lt *Term
			if isSigned(t) {
				lt = p.tc.Slt(x, y)
			} else {
				lt = p.tc.Ult(x, y)
			}
			if b.Name() == "min" {
				r = p.tc.Ite(lt, x, y)
			} else {
				r = p.tc.Ite(lt, y, x)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				*x = MapObj{idx: map[interface{}]*mapEnt{}, kt: x.kt}
			}
		case Slice:
			for i := 0; i < x.len; i++ {
				x.arr.e[x.off+i] = p.zero(x.arr.et)
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if args[0].(Ptr).isNil() {
			panic(p.nilDeref())
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "String": // unsafe.String
		ptr := args[0].(Ptr)
		n := p.intVal(args[1])
		if n == 0 {
			return Str{}
		}
		if ptr.arr == nil {
			p.unsupported("unsafe.String")
		}
		return p.bytesToStr(Slice{ptr.arr, ptr.idx, n, n})
	case "StringData":
		s := p.strToBytes(args[0].(Str), types.Typ[types.Uint8])
		if s.len == 0 {
			return Ptr{}
		}
		return Ptr{p: &s.arr.e[0], arr: s.arr}
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == nil || s.cap == 0 {
			return Ptr{}
		}
		return Ptr{p: &s.arr.e[s.off], arr: s.arr, idx: s.off}
	case "Slice":
		ptr := args[0].(Ptr)
		n := p.intVal(args[1])
		if ptr.isNil() {
			return Slice{}
		}
		if ptr.arr == nil {
			p.unsupported("unsafe.Slice")
		}
		return Slice{ptr.arr, ptr.idx, n, n}
	}
	p.unsupported("builtin " + b.Name())
	return nil
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// roundSize is the size the Go allocator reserves for a request.
func roundSize(n int, noscan bool) int {
	r := n
	if !noscan && n > 512 {
		r += 8
	}
	if r <= 32768-8 {
		i := sort.SearchInts(sizeClasses, r)
		return sizeClasses[i] - (r - n)
	}
	return (n + 8191) &^ 8191
}

func noPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.String && u.Kind() != types.UnsafePointer
	case *types.Array:
		return noPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !noPointers(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// growCap is the capacity append chooses, as the Go runtime does.
func (p *Path) growCap(n, old int, et types.Type) int {
	c := old
	switch {
	case n > 2*old:
		c = n
	case old < 256:
		c = 2 * old
	default:
		for c < n {
			c += (c + 3*256) >> 2
		}
	}
	es := int(p.w.prog.sizes.Sizeof(et))
	if es == 0 {
		return c
	}
	return roundSize(c*es, noPointers(et)) / es
}

func (p *Path) appendVals(s Slice, vs []Value, et types.Type) Slice {
	n := s.len + len(vs)
	if n <= s.cap {
		for i, v := range vs {
			if v == nil {
				v = p.zero(et)
			}
			p.storeTo(&s.arr.e[s.off+s.len+i], v)
		}
		return Slice{s.arr, s.off, n, s.cap}
	}
	c := p.growCap(n, s.cap, et)
	a := &ArrayObj{e: make([]Value, c), et: et}
	if s.arr != nil {
		if isScalar(et) {
			copy(a.e, s.arr.e[s.off:s.off+s.len])
		} else {
			for i := 0; i < s.len; i++ {
				a.e[i] = p.copyVal(s.arr.e[s.off+i])
			}
		}
	}
	copy(a.e[s.len:], vs)
	if !isScalar(et) {
		for i := range a.e {
			if a.e[i] == nil {
				a.e[i] = p.zero(et)
			}
		}
	}
	return Slice{a, 0, n, c}
}

func dbg(a ...interface{}) {
	if os.Getenv("SYMGO_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, a...)
	}
}
