package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Package fmt: the printer's rules over symbolic operands. Concrete operands go through
// the real fmt; what depends on addresses, and what is not modelled, becomes an opaque
// text "<T>", which can at most lead to a candidate the native run refutes.

type fspec struct {
	flags      string // without width and precision
	wid, prec  int
	hasW, hasP bool
	plusV      bool
}

func (s fspec) has(c byte) bool { return strings.IndexByte(s.flags, c) >= 0 }
func (s fspec) plain() bool     { return s.flags == "" && !s.hasW && !s.hasP }

func (s fspec) text(verb byte) string {
	f := "%" + s.flags
	if s.hasW {
		f += strconv.Itoa(s.wid)
	}
	if s.hasP {
		f += "." + strconv.Itoa(s.prec)
	}
	return f + string(rune(verb))
}

type printer struct {
	p *Path
	g *G
	// the text of an error: %q of symbolic text goes without the escapes
	loose bool
}

func (p *Path) sprint(g *G, args Slice, spaces bool) Str {
	r := Str{}
	f := printer{p: p, g: g}
	prev := false
	for i := 0; i < args.len; i++ {
		x := p.elem(args.arr, args.off+i).(Iface)
		str := false
		if x.t != nil {
			b, ok := x.t.Underlying().(*types.Basic)
			str = ok && b.Info()&types.IsString != 0
		}
		if i > 0 && (spaces || !str && !prev) {
			r = p.concat(r, Str{s: " "})
		}
		prev = str
		r = p.concat(r, f.arg(x, fspec{}, 'v'))
	}
	return r
}

// sprintf follows fmt's doPrintf. The format may be symbolic outside its directives.
func (p *Path) sprintf(g *G, format Str, args Slice, loose bool) (Str, Iface) {
	f := printer{p: p, g: g, loose: loose}
	var wrapped Iface
	r := Str{}
	add := func(s Str) { r = p.concat(r, s) }
	lit := func(s string) { add(Str{s: s}) }
	b := p.strBytes(format)
	pct := p.tc.Const(8, '%')
	ch := func(i int) byte { return byte(p.concretize(b[i])) }
	num, reordered := 0, false
	arg := func(i int) Iface { return p.elem(args.arr, args.off+i).(Iface) }
	for i := 0; i < len(b); {
		st := i
		for i < len(b) && !p.branch(p.tc.Eq(b[i], pct)) {
			i++
		}
		if i > st {
			add(p.mkStr(b[st:i]))
		}
		if i >= len(b) {
			break
		}
		i++
		var s fspec
		for i < len(b) {
			c := ch(i)
			if strings.IndexByte("#0+- ", c) < 0 {
				break
			}
			if !s.has(c) {
				s.flags += string(rune(c))
			}
			i++
		}
		good := true
		after := false // the directive has an argument index not yet used
		index := func() {
			if i >= len(b) || ch(i) != '[' {
				return
			}
			reordered = true
			j := i + 1
			n, ok := 0, false
			for j < len(b) && ch(j) >= '0' && ch(j) <= '9' && n < 1e6 {
				n, ok = n*10+int(ch(j)-'0'), true
				j++
			}
			if j < len(b) && ch(j) == ']' {
				i = j + 1
				if ok && n >= 1 && n <= args.len {
					num = n - 1
					after = true
					return
				}
				good = false
				return
			}
			for j = i; j < len(b) && ch(j) != ']'; j++ {
			}
			if j < len(b) {
				i = j + 1
			} else {
				i++
			}
			good = false
		}
		number := func() (int, bool) {
			n, ok := 0, false
			for i < len(b) && ch(i) >= '0' && ch(i) <= '9' {
				n, ok = n*10+int(ch(i)-'0'), true
				if n > 1e6 {
					p.unsupported("width in a format")
				}
				i++
			}
			return n, ok
		}
		star := func() (int, bool) {
			i++
			if num >= args.len {
				return 0, false
			}
			x := arg(num)
			num++
			t, ok := x.v.(*Term)
			if !ok || !isInteger(x.t) {
				return 0, false
			}
			n := int(int64(sx(p.concretize(t), t.w)))
			return n, n >= -1e6 && n <= 1e6
		}
		index()
		if i < len(b) && ch(i) == '*' {
			if s.wid, s.hasW = star(); !s.hasW {
				lit("%!(BADWIDTH)")
			}
			if s.wid < 0 {
				s.wid = -s.wid
				if !s.has('-') {
					s.flags += "-"
				}
			}
			after = false
		} else {
			s.wid, s.hasW = number()
			if after && s.hasW {
				good = false
			}
		}
		if i+1 <= len(b) && i < len(b) && ch(i) == '.' {
			i++
			if after {
				good = false
			}
			index()
			if i < len(b) && ch(i) == '*' {
				s.prec, s.hasP = star()
				if s.prec < 0 {
					s.prec, s.hasP = 0, false
				}
				if !s.hasP {
					lit("%!(BADPREC)")
				}
				after = false
			} else if s.prec, s.hasP = number(); !s.hasP {
				s.hasP = true
			}
		}
		if !after {
			index()
		}
		if i >= len(b) {
			lit("%!(NOVERB)")
			break
		}
		verb := ch(i)
		if verb >= 0x80 {
			p.unsupported("verb in a format")
		}
		i++
		switch {
		case verb == '%':
			lit("%")
			continue
		case !good:
			lit("%!" + string(rune(verb)) + "(BADINDEX)")
			continue
		case num >= args.len:
			lit("%!" + string(rune(verb)) + "(MISSING)")
			continue
		}
		x := arg(num)
		num++
		if verb == 'w' {
			wrapped = x
			verb = 'v'
		}
		add(f.arg(x, s, verb))
	}
	if !reordered && num < args.len {
		lit("%!(EXTRA ")
		for i := num; i < args.len; i++ {
			if i > num {
				lit(", ")
			}
			x := arg(i)
			if x.t == nil {
				lit("<nil>")
				continue
			}
			lit(typeText(x.t) + "=")
			add(f.arg(x, fspec{}, 'v'))
		}
		lit(")")
	}
	return r, wrapped
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func typeText(t types.Type) string {
	s := types.TypeString(t, func(q *types.Package) string { return q.Name() })
	if s == "byte" {
		return "uint8"
	} else if s == "rune" {
		return "int32"
	}
	return strings.Replace(s, "interface{", "interface {", -1)
}

// arg is fmt's printArg.
func (f printer) arg(x Iface, s fspec, verb byte) Str {
	p := f.p
	if x.t == nil {
		if verb == 'T' || verb == 'v' {
			return f.pad(Str{s: "<nil>"}, s)
		}
		return Str{s: "%!" + string(rune(verb)) + "(<nil>)"}
	}
	switch verb {
	case 'T':
		return f.str(Str{s: typeText(x.t)}, s, 's')
	case 'v':
		if s.has('+') {
			s.plusV, s.flags = true, strings.Replace(s.flags, "+", "", 1)
		}
	case 'p':
		return Str{s: "<pointer>"}
	}
	if s.has('#') && verb == 'v' {
		if v, ok := f.goBasic(x.t, x.v); ok && !isNamed(x.t) && !isFloat(x.t) {
			return Str{s: fmt.Sprintf(s.text('v'), v)}
		}
		if p.w.prog.implements(x.t, errType) {
			return Str{s: "<" + typeText(x.t) + ">"}
		}
	}
	return f.value(x.t, x.v, s, verb, 0, true)
}

func isNamed(t types.Type) bool { _, ok := t.(*types.Named); return ok }

// goBasic is a concrete basic value as a native one of the same kind.
func (f printer) goBasic(t types.Type, v Value) (interface{}, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch y := v.(type) {
	case Str:
		if y.isConc() {
			return y.s, true
		}
	case *Term:
		if y.op != OConst {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return y.k != 0, true
		case types.Int:
			return int(y.S()), true
		case types.Int8:
			return int8(y.k), true
		case types.Int16:
			return int16(y.k), true
		case types.Int32:
			return int32(y.k), true
		case types.Int64:
			return int64(y.k), true
		case types.Uint:
			return uint(y.k), true
		case types.Uint8:
			return uint8(y.k), true
		case types.Uint16:
			return uint16(y.k), true
		case types.Uint32:
			return uint32(y.k), true
		case types.Uint64:
			return uint64(y.k), true
		case types.Uintptr:
			return uintptr(y.k), true
		case types.Float64:
			return f64(y.k), true
		}
	}
	return nil, false
}

// method calls a method without arguments that returns a string.
func (f printer) method(t types.Type, v Value, name string) (Str, bool) {
	p := f.p
	ms := p.w.prog.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if o.Name() != name {
			continue
		}
		sig := o.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
			return Str{}, false
		}
		if ptr, ok := v.(Ptr); ok && ptr.isNil() {
			return Str{s: "<nil>"}, true
		}
		return p.callMethod(f.g, nil, Iface{t: t, v: v}, name).(Str), true
	}
	return Str{}, false
}

func (f printer) bad(t types.Type, v Value, verb byte) Str {
	r := Str{s: "%!" + string(rune(verb)) + "(" + typeText(t) + "="}
	r = f.p.concat(r, f.value(t, v, fspec{}, 'v', 1, false))
	return f.p.concat(r, Str{s: ")"})
}

// value is fmt's printValue, with the methods handled when exp.
func (f printer) value(t types.Type, v Value, s fspec, verb byte, depth int, exp bool) Str {
	p := f.p
	if x, ok := v.(Iface); ok {
		if _, isI := t.Underlying().(*types.Interface); isI || x.t != nil {
			if x.t == nil {
				return Str{s: "<nil>"}
			}
			return f.value(x.t, x.v, s, verb, depth, exp)
		}
	}
	if exp && strings.IndexByte("vsxXq", verb) >= 0 && !(verb == 'v' && s.has('#')) {
		if p.hasMethod(Iface{t: t, v: v}, "Format") {
			return Str{s: "<" + typeText(t) + ">"}
		}
		if p.w.prog.implements(t, errType) {
			if r, ok := f.method(t, v, "Error"); ok {
				return f.str(r, s, verb)
			}
		}
		if r, ok := f.method(t, v, "String"); ok {
			return f.str(r, s, verb)
		}
	}
	if depth > 20 {
		return Str{s: "<" + typeText(t) + ">"}
	}
	switch y := v.(type) {
	case Str:
		if strings.IndexByte("vsxXq", verb) < 0 {
			return f.bad(t, v, verb)
		}
		return f.str(y, s, verb)
	case *Term:
		return f.number(t, y, s, verb)
	case Slice:
		et := t.Underlying().(*types.Slice).Elem()
		if s.has('#') && verb == 'v' {
			break
		}
		return f.list(et, y.len, func(i int) Value { return p.elem(y.arr, y.off+i) }, s, verb, depth, exp)
	case *ArrayObj:
		if s.has('#') && verb == 'v' {
			break
		}
		return f.list(y.et, len(y.e), func(i int) Value { return y.e[i] }, s, verb, depth, exp)
	case *StructObj:
		if s.has('#') && verb == 'v' {
			break
		}
		r := Str{s: "{"}
		for i, x := range y.f {
			if i > 0 {
				r = p.concat(r, Str{s: " "})
			}
			fl := y.t.Field(i)
			if s.plusV {
				r = p.concat(r, Str{s: fl.Name() + ":"})
			}
			r = p.concat(r, f.value(fl.Type(), x, s, verb, depth+1, exp && fl.Exported()))
		}
		return p.concat(r, Str{s: "}"})
	case *MapObj:
		mt, ok := t.Underlying().(*types.Map)
		if !ok || s.has('#') && verb == 'v' {
			break
		}
		if y == nil {
			return Str{s: "map[]"}
		}
		var ents []*mapEnt
		for _, e := range y.ents {
			if e.dead {
				continue
			}
			if _, ok := f.goBasic(mt.Key(), e.k); !ok {
				return Str{s: "<" + typeText(t) + ">"}
			}
			ents = append(ents, e)
		}
		sort.SliceStable(ents, func(i, j int) bool {
			a, _ := f.goBasic(mt.Key(), ents[i].k)
			b, _ := f.goBasic(mt.Key(), ents[j].k)
			return less(a, b)
		})
		r := Str{s: "map["}
		for i, e := range ents {
			if i > 0 {
				r = p.concat(r, Str{s: " "})
			}
			r = p.concat(r, f.value(mt.Key(), e.k, s, verb, depth+1, exp))
			r = p.concat(r, Str{s: ":"})
			r = p.concat(r, f.value(mt.Elem(), e.v, s, verb, depth+1, exp))
		}
		return p.concat(r, Str{s: "]"})
	case Ptr:
		if y.isNil() {
			if verb == 'v' && !s.has('#') {
				return f.pad(Str{s: "<nil>"}, s)
			}
			break
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if ok && depth == 0 && y.p != nil && !(s.has('#') && verb == 'v') {
			switch pt.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return p.concat(Str{s: "&"}, f.value(pt.Elem(), *y.p, s, verb, 1, exp))
			}
		}
	}
	return Str{s: "<" + typeText(t) + ">"}
}

func less(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case bool:
		return !x && b.(bool)
	case float64:
		return x < b.(float64)
	case uint, uint8, uint16, uint32, uint64, uintptr:
		var u, v uint64
		fmt.Sscan(fmt.Sprint(a), &u)
		fmt.Sscan(fmt.Sprint(b), &v)
		return u < v
	}
	var u, v int64
	fmt.Sscan(fmt.Sprint(a), &u)
	fmt.Sscan(fmt.Sprint(b), &v)
	return u < v
}

func (f printer) list(et types.Type, n int, at func(int) Value, s fspec, verb byte, depth int, exp bool) Str {
	p := f.p
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && strings.IndexByte("sxXq", verb) >= 0 {
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = at(i).(*Term)
		}
		return f.str(p.mkStr(bs), s, verb)
	}
	r := Str{s: "["}
	for i := 0; i < n; i++ {
		if i > 0 {
			r = p.concat(r, Str{s: " "})
		}
		r = p.concat(r, f.value(et, at(i), s, verb, depth+1, exp))
	}
	return p.concat(r, Str{s: "]"})
}

// str is fmtS, fmtQ or fmtSx.
func (f printer) str(t Str, s fspec, verb byte) Str {
	p := f.p
	if (verb == 'v' || verb == 's') && s.plain() {
		return t
	}
	if t.isConc() {
		if verb == 'v' && s.has('#') {
			return Str{s: fmt.Sprintf(s.text('v'), t.s)}
		}
		if verb == 'v' {
			verb = 's'
		}
		return Str{s: fmt.Sprintf(s.text(verb), t.s)}
	}
	if (verb == 'x' || verb == 'X') && s.plain() {
		var r []*Term
		a := byte('a')
		if verb == 'X' {
			a = 'A'
		}
		for _, b := range p.strBytes(t) {
			for _, n := range []*Term{p.tc.Bin(OLshr, b, p.tc.Const(8, 4)), p.tc.Bin(OBand, b, p.tc.Const(8, 15))} {
				r = append(r, p.tc.Ite(p.tc.Ult(n, p.tc.Const(8, 10)), p.tc.Bin(OAdd, n, p.tc.Const(8, '0')), p.tc.Bin(OAdd, n, p.tc.Const(8, uint64(a-10)))))
			}
		}
		return p.mkStr(r)
	}
	if verb == 'q' && f.loose {
		return p.concat(p.concat(Str{s: "\""}, t), Str{s: "\""})
	}
	if verb == 'q' && s.plain() {
		if sc := p.w.prog.prog.ImportedPackage("strconv"); sc != nil {
			return p.call(f.g, nil, sc.Func("Quote"), []Value{t}, nil).(Str)
		}
	}
	if (verb == 'v' || verb == 's') && (s.flags == "" || s.flags == "-") {
		if s.hasP {
			b := p.strBytes(t)
			n, i := 0, 0
			for i < len(b) && n < s.prec {
				_, w := p.decodeRuneSym(b[i:])
				i += w
				n++
			}
			t = p.mkStr(b[:i])
		}
		return f.pad(t, s)
	}
	return Str{s: fmt.Sprintf(s.text(verb), p.goString(t))}
}

// pad fills a text up to the width.
func (f printer) pad(t Str, s fspec) Str {
	p := f.p
	if !s.hasW || s.wid == 0 {
		return t
	}
	b := p.strBytes(t)
	n := 0
	for i := 0; i < len(b); n++ {
		_, w := p.decodeRuneSym(b[i:])
		i += w
	}
	if n >= s.wid {
		return t
	}
	sp := Str{s: strings.Repeat(" ", s.wid-n)}
	if s.has('-') {
		return p.concat(t, sp)
	}
	return p.concat(sp, t)
}

// number prints booleans, integers and floats.
func (f printer) number(t types.Type, y *Term, s fspec, verb byte) Str {
	p := f.p
	ok := "vdboOxXcqU"
	switch {
	case y.w == 0:
		ok = "tv"
	case isFloat(t):
		ok = "vbgGxXfFeE"
	}
	if strings.IndexByte(ok, verb) < 0 {
		return f.bad(t, y, verb)
	}
	if v, ok := f.goBasic(t, y); ok {
		return Str{s: fmt.Sprintf(s.text(verb), v)}
	}
	switch {
	case y.w == 0:
		r := "false"
		if p.branch(y) {
			r = "true"
		}
		return f.pad(Str{s: r}, s)
	case isFloat(t):
		fm, prec := byte('g'), -1
		if verb != 'v' {
			fm = verb
		}
		if fm != 'g' && fm != 'G' {
			prec = 6
		}
		if s.hasP {
			prec = s.prec
		}
		if fm == 'F' {
			fm = 'f'
		}
		if s.flags == "" && !s.hasW && strings.IndexByte("gfe", fm) >= 0 {
			return p.formatFloat(y, fm, prec, int(y.w))
		}
		if y.op == OConst { // float32
			return Str{s: fmt.Sprintf(s.text(verb), f64(y.k))}
		}
		return Str{s: "<" + typeText(t) + ">"}
	}
	sg := isSigned(t)
	if verb == 'd' || verb == 'v' && !s.has('#') {
		if s.plain() {
			return p.formatInt(y, sg)
		}
		neg := sg && p.branch(p.tc.Slt(y, p.tc.Const(y.w, 0)))
		d := p.strBytes(p.formatInt(y, sg))
		sign := ""
		switch {
		case neg:
			sign, d = "-", d[1:]
		case s.has('+'):
			sign = "+"
		case s.has(' '):
			sign = " "
		}
		min := 0
		if s.hasP {
			min = s.prec
			if s.prec == 0 && p.branch(p.tc.Eq(y, p.tc.Const(y.w, 0))) {
				d, sign = nil, ""
				return f.pad(Str{}, s)
			}
		} else if s.has('0') && !s.has('-') && s.hasW {
			min = s.wid - len(sign)
		}
		r := Str{s: sign}
		if n := min - len(d); n > 0 {
			r = p.concat(r, Str{s: strings.Repeat("0", n)})
		}
		return f.pad(p.concat(r, p.mkStr(d)), s)
	}
	if verb == 'c' && s.plain() && y.w <= 32 {
		return p.mkStr(p.encodeRuneSym(p.tc.Resize(y, sg, 32)))
	}
	c := p.tc.Const(y.w, p.concretize(y))
	v, okc := f.goBasic(t, c)
	if !okc {
		return Str{s: "<" + typeText(t) + ">"}
	}
	return Str{s: fmt.Sprintf(s.text(verb), v)}
}
