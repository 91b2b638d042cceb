package main

// Symbolic execution of the C functions the repository calls through cgo: the C
// sources of the package are compiled by clang to LLVM IR (unoptimised, locals
// promoted to registers) on every run, and the IR is interpreted here.

import (
	"bytes"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cInstr struct {
	dst  string
	op   string
	text string
	// parsed operands
	ty, ty2 string
	a, b, c string
	pred    string
	list    []string // phi: val,label pairs; switch: const,label pairs; call: args; gep: type,val pairs
	label   string
}

type cBlock struct {
	name string
	ins  []cInstr
}

type cFunc struct {
	name   string
	params []string
	ptypes []string
	ret    string
	blocks map[string]*cBlock
	entry  string
}

type cModule struct {
	funcs map[string]*cFunc
	dir   string
}

// loadC compiles the C files of a package directory.
func loadC(dir string) (*cModule, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.c"))
	sort.Strings(files)
	m := &cModule{funcs: map[string]*cFunc{}, dir: dir}
	for _, f := range files {
		var out, errb bytes.Buffer
		cmd := exec.Command("clang", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-g0", "-w", "-I", dir, "-o", "-", f)
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Run(); err != nil {
			return nil, fmt.Errorf("clang %s: %v %s", f, err, errb.String())
		}
		var ir bytes.Buffer
		cmd = exec.Command("opt", "-S", "-passes=mem2reg", "-o", "-", "-")
		cmd.Stdin, cmd.Stdout, cmd.Stderr = &out, &ir, &errb
		if err := cmd.Run(); err != nil {
			return nil, fmt.Errorf("opt %s: %v %s", f, err, errb.String())
		}
		if err := m.parse(ir.String()); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return m, nil
}

func splitTop(s string) []string {
	var r []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{', '<':
			d++
		case ')', ']', '}', '>':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(r, strings.TrimSpace(s[st:]))
}

// tv splits "type [attrs] value".
func tv(s string) (ty, v string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.IndexByte(s, ']')
		ty = s[:i+1]
		s = strings.TrimSpace(s[i+1:])
	} else {
		i := strings.IndexByte(s, ' ')
		if i < 0 {
			return s, ""
		}
		ty = s[:i]
		s = s[i+1:]
	}
	fs := strings.Fields(s)
	if len(fs) == 0 {
		return ty, ""
	}
	return ty, fs[len(fs)-1]
}

func (m *cModule) parse(ir string) error {
	var f *cFunc
	var b *cBlock
	lines := strings.Split(ir, "\n")
	for li := 0; li < len(lines); li++ {
		l := lines[li]
		if i := strings.Index(l, ";"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		l = strings.TrimRight(l, " ")
		switch {
		case strings.HasPrefix(l, "define "):
			i := strings.IndexByte(l, '@')
			j := strings.IndexByte(l[i:], '(') + i
			k := strings.LastIndexByte(l, ')')
			// parameter list ends at the matching parenthesis
			d := 0
			for x := j; x < len(l); x++ {
				if l[x] == '(' {
					d++
				} else if l[x] == ')' {
					d--
					if d == 0 {
						k = x
						break
					}
				}
			}
			hd := strings.Fields(l[:i])
			f = &cFunc{name: l[i+1 : j], blocks: map[string]*cBlock{}, ret: hd[len(hd)-1]}
			n := 0
			if ps := strings.TrimSpace(l[j+1 : k]); ps != "" {
				for _, p := range splitTop(ps) {
					ty, v := tv(p)
					f.params = append(f.params, v)
					f.ptypes = append(f.ptypes, ty)
					n++
				}
			}
			f.entry = fmt.Sprintf("%%%d", n)
			b = &cBlock{name: f.entry}
			f.blocks[b.name] = b
			m.funcs[f.name] = f
		case f == nil:
		case l == "}":
			f = nil
		case l == "":
		case !strings.HasPrefix(l, " ") && strings.HasSuffix(l, ":"):
			b = &cBlock{name: "%" + strings.TrimSuffix(l, ":")}
			f.blocks[b.name] = b
		default:
			t := strings.TrimSpace(l)
			if strings.HasPrefix(t, "switch ") {
				for !strings.Contains(lines[li], "]") {
					li++
					t += " " + strings.TrimSpace(lines[li])
				}
			}
			in, err := parseInstr(t)
			if err != nil {
				return err
			}
			b.ins = append(b.ins, in)
		}
	}
	return nil
}

func parseInstr(t string) (cInstr, error) {
	in := cInstr{text: t}
	if i := strings.Index(t, ", !"); i >= 0 {
		t = t[:i]
	}
	if strings.HasPrefix(t, "%") {
		i := strings.Index(t, " = ")
		in.dst = t[:i]
		t = t[i+3:]
	}
	sp := strings.IndexByte(t, ' ')
	if sp < 0 {
		in.op = t
		return in, nil
	}
	in.op = t[:sp]
	rest := strings.TrimSpace(t[sp+1:])
	strip := func(ws ...string) {
		for again := true; again; {
			again = false
			for _, w := range ws {
				if strings.HasPrefix(rest, w+" ") {
					rest = rest[len(w)+1:]
					again = true
				}
			}
		}
	}
	switch in.op {
	case "tail", "musttail", "notail":
		rest = strings.TrimPrefix(rest, "call ")
		in.op = "call"
		fallthrough
	case "call":
		i := strings.IndexByte(rest, '@')
		if i < 0 {
			return in, fmt.Errorf("indirect call: %s", in.text)
		}
		j := strings.IndexByte(rest[i:], '(') + i
		k := strings.LastIndexByte(rest, ')')
		in.a = rest[i+1 : j]
		hd := strings.Fields(rest[:i])
		in.ty = hd[len(hd)-1]
		if as := strings.TrimSpace(rest[j+1 : k]); as != "" {
			in.list = splitTop(as)
		}
	case "add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem":
		strip("nuw", "nsw", "exact", "disjoint")
		ps := splitTop(rest)
		in.ty, in.a = tv(ps[0])
		in.b = ps[1]
	case "icmp":
		strip("samesign")
		i := strings.IndexByte(rest, ' ')
		in.pred = rest[:i]
		ps := splitTop(rest[i+1:])
		in.ty, in.a = tv(ps[0])
		in.b = ps[1]
	case "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast":
		strip("nneg", "nuw", "nsw")
		i := strings.Index(rest, " to ")
		in.ty, in.a = tv(rest[:i])
		in.ty2 = strings.TrimSpace(rest[i+4:])
	case "load":
		strip("volatile")
		ps := splitTop(rest)
		in.ty = ps[0]
		_, in.a = tv(ps[1])
	case "store":
		strip("volatile")
		ps := splitTop(rest)
		in.ty, in.a = tv(ps[0])
		_, in.b = tv(ps[1])
	case "getelementptr":
		strip("inbounds", "nuw", "nusw")
		ps := splitTop(rest)
		in.ty = ps[0]
		_, in.a = tv(ps[1])
		in.list = ps[2:]
	case "alloca":
		in.ty = splitTop(rest)[0]
	case "br":
		if strings.HasPrefix(rest, "label ") {
			in.label = strings.TrimPrefix(rest, "label ")
		} else {
			ps := splitTop(rest)
			_, in.a = tv(ps[0])
			in.b = strings.TrimPrefix(ps[1], "label ")
			in.c = strings.TrimPrefix(ps[2], "label ")
		}
	case "switch":
		i := strings.IndexByte(rest, '[')
		ps := splitTop(rest[:i])
		in.ty, in.a = tv(ps[0])
		in.label = strings.TrimPrefix(ps[1], "label ")
		fs := strings.Fields(strings.TrimSuffix(strings.TrimSpace(rest[i+1:]), "]"))
		for j := 0; j+3 < len(fs)+0 && j+3 <= len(fs); j += 4 {
			in.list = append(in.list, strings.TrimSuffix(fs[j+1], ","), fs[j+3])
		}
	case "phi":
		i := strings.IndexByte(rest, '[')
		in.ty = strings.TrimSpace(rest[:i])
		for _, p := range splitTop(rest[i:]) {
			p = strings.Trim(p, "[] ")
			q := splitTop(p)
			in.list = append(in.list, q[0], q[1])
		}
	case "select":
		ps := splitTop(rest)
		_, in.c = tv(ps[0])
		in.ty, in.a = tv(ps[1])
		_, in.b = tv(ps[2])
	case "ret":
		in.ty, in.a = tv(rest)
	case "unreachable":
	default:
		return in, fmt.Errorf("unsupported instruction: %s", in.text)
	}
	return in, nil
}

type cArgSym struct {
	ty    string
	val   *Term
	obj   string
	idx   int
	null  bool
	bytes []*Term
}

type cCallSym struct {
	fn, dir string
	args    []cArgSym
}

// CCall is a concrete call of a C function, replayed under AddressSanitizer.
type CCall struct {
	Fn   string `json:"function"`
	Dir  string `json:"dir"`
	Args []CArg `json:"args"`
}

type CArg struct {
	Type  string `json:"type"`
	Val   uint64 `json:"value,omitempty"`
	Buf   string `json:"buffer,omitempty"`
	Index int    `json:"index,omitempty"`
	Bytes []int  `json:"bytes,omitempty"`
}

func (p *Path) concCall() *CCall {
	if p.ccall == nil {
		return nil
	}
	r := &CCall{Fn: p.ccall.fn, Dir: p.ccall.dir}
	for _, a := range p.ccall.args {
		x := CArg{Type: a.ty, Buf: a.obj, Index: a.idx}
		if a.val != nil {
			x.Val = p.eval(a.val).k
		}
		for _, b := range a.bytes {
			x.Bytes = append(x.Bytes, int(p.eval(b).k))
		}
		r.Args = append(r.Args, x)
	}
	return r
}

// runCCall calls the C function with exactly sized buffers under AddressSanitizer.
func runCCall(tmp string, c *CCall) (string, bool) {
	files, _ := filepath.Glob(filepath.Join(c.Dir, "*.c"))
	var sb strings.Builder
	sb.WriteString("#include <stdlib.h>\n#include <stdio.h>\n#include <string.h>\n")
	var ps, as []string
	var body strings.Builder
	seen := map[string]bool{}
	for i, a := range c.Args {
		if a.Type == "ptr" {
			ps = append(ps, "void *")
			if a.Buf == "" {
				as = append(as, "0")
				continue
			}
			if !seen[a.Buf] {
				seen[a.Buf] = true
				fmt.Fprintf(&body, "\tunsigned char *%s = malloc(%d);\n", a.Buf, len(a.Bytes))
				for j, b := range a.Bytes {
					fmt.Fprintf(&body, "\t%s[%d] = %d;\n", a.Buf, j, b)
				}
			}
			as = append(as, fmt.Sprintf("%s+%d", a.Buf, a.Index))
			continue
		}
		t := map[string]string{"i8": "unsigned char", "i16": "unsigned short", "i32": "unsigned int", "i64": "unsigned long"}[a.Type]
		if t == "" {
			return "argument type " + a.Type, false
		}
		ps = append(ps, t)
		as = append(as, fmt.Sprintf("(%s)%dUL", t, a.Val))
		_ = i
	}
	fmt.Fprintf(&sb, "unsigned int %s(%s);\nint main(void) {\n%s\t%s(%s);\n\treturn 0;\n}\n", c.Fn, strings.Join(ps, ", "), body.String(), c.Fn, strings.Join(as, ", "))
	src := filepath.Join(tmp, "ccall.c")
	os.WriteFile(src, []byte(sb.String()), 0600)
	last := ""
	for _, ini := range []string{"uninitialized", "zero", "pattern"} {
		bin := filepath.Join(tmp, "ccall-"+ini)
		cargs := append([]string{"-w", "-g", "-O1", "-fsanitize=address", "-ftrivial-auto-var-init=" + ini, "-I", c.Dir, "-o", bin, src}, files...)
		if out, err := exec.Command("gcc", cargs...).CombinedOutput(); err != nil {
			return string(out), false
		}
		cmd := exec.Command(bin)
		cmd.Env = append(os.Environ(), "ASAN_OPTIONS=detect_leaks=0")
		out, err := cmd.CombinedOutput()
		last = string(out)
		if err != nil && strings.Contains(last, "AddressSanitizer") {
			return last, true
		}
	}
	return last, false
}

// ---- memory ----

type cObj struct {
	name string
	base uint64
	size uint64
	arr  *ArrayObj // bytes of a Go object
	idx  int
	// local memory of n cells of w bits: writes in order, and the arbitrary
	// initial contents as observed so far
	w       uint8
	cells   []cCell
	init    []cCell
	conc    map[uint64]int // last write at a constant offset
	iconc   map[uint64]*Term
	lastSym int // last write at a symbolic offset
	isym    bool
	scalar  bool
}

type cCell struct{ off, v *Term }

type cPtr struct {
	o   *cObj
	off *Term
}

type cState struct {
	p    *Path
	m    *cModule
	next uint64
	g    *G
	n    int
}

func (c *cState) newObj(name string, size uint64) *cObj {
	o := &cObj{name: name, base: c.next, size: size}
	c.next += (size + 1<<33) &^ 0xfff
	return o
}

func intWidth(ty string) uint8 {
	if strings.HasPrefix(ty, "i") {
		if n, err := strconv.Atoi(ty[1:]); err == nil {
			if n == 1 {
				return 0
			}
			if n == 8 || n == 16 || n == 32 || n == 64 {
				return uint8(n)
			}
		}
	}
	return 255
}

func sizeOf(ty string) uint64 {
	ty = strings.TrimSpace(ty)
	switch {
	case ty == "ptr":
		return 8
	case strings.HasPrefix(ty, "["):
		in := strings.Trim(ty, "[]")
		i := strings.Index(in, " x ")
		n, _ := strconv.ParseUint(in[:i], 10, 64)
		rest := ty[strings.Index(ty, " x ")+3 : len(ty)-1]
		return n * sizeOf(rest)
	case ty == "i1":
		return 1
	}
	if w := intWidth(ty); w != 255 {
		return uint64(w) / 8
	}
	return 0
}

func elemType(ty string) string {
	if strings.HasPrefix(ty, "[") {
		return ty[strings.Index(ty, " x ")+3 : len(ty)-1]
	}
	return ""
}

func (c *cState) addr(v interface{}) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case cPtr:
		if x.o == nil {
			return c.p.tc.Const(64, 0)
		}
		return c.p.tc.Bin(OAdd, c.p.tc.Const(64, x.o.base), x.off)
	}
	c.p.unsupported("C value")
	return nil
}

func (c *cState) memErr(o *cObj, write bool) {
	k := "reads"
	if write {
		k = "writes"
	}
	panic(outcome{kind: "cmem", msg: "C code " + k + " outside the " + o.name + " buffer"})
}

// at makes the offset of an access concrete after checking its bounds.
func (c *cState) at(x cPtr, n uint64, write bool) uint64 {
	p := c.p
	if x.o == nil {
		panic(outcome{kind: "cmem", msg: "C code uses a nil pointer"})
	}
	if n > x.o.size {
		c.memErr(x.o, write)
	}
	ok := p.tc.Ule(x.off, p.tc.Const(64, x.o.size-n))
	if !p.branch(ok) {
		c.memErr(x.o, write)
	}
	return p.concretize(x.off)
}

func (c *cState) load(x cPtr, ty string) interface{} {
	p := c.p
	w := intWidth(ty)
	if w == 255 || w == 0 {
		p.unsupported("C load of " + ty)
	}
	if x.o != nil && x.o.arr == nil {
		o := x.o
		if w != o.w {
			p.unsupported("C load of another width from local memory")
		}
		if !p.branch(p.tc.Ule(x.off, p.tc.Const(64, o.size-uint64(w/8)))) {
			c.memErr(o, false)
		}
		if x.off.IsConst() && o.conc != nil {
			if k, ok := o.conc[x.off.k]; ok && k > o.lastSym {
				return o.cells[k].v
			}
			if v, ok := o.iconc[x.off.k]; ok && o.lastSym < 0 {
				return v
			}
		}
		for i := len(o.cells) - 1; i >= 0; i-- {
			if i > o.lastSym && x.off.IsConst() {
				i = o.lastSym
				if i < 0 {
					break
				}
			}
			e := p.tc.Eq(o.cells[i].off, x.off)
			if e.IsTrue() {
				return o.cells[i].v
			}
			if !e.IsFalse() && p.branch(e) {
				return o.cells[i].v
			}
		}
		for _, k := range o.init {
			if x.off.IsConst() && !o.isym {
				break
			}
			e := p.tc.Eq(k.off, x.off)
			if e.IsTrue() || !e.IsFalse() && p.branch(e) {
				return k.v
			}
		}
		var v *Term
		if p.czero {
			v = p.tc.Const(w, 0)
			p.reduce("locals of C functions start zeroed")
		} else {
			v = p.input("uninit", w)
		}
		if x.off.IsConst() && !o.isym {
			// not yet seen, and no symbolic offset so far
			if o.iconc == nil {
				o.iconc = map[uint64]*Term{}
			}
			if old := o.iconc[x.off.k]; old != nil {
				return old
			}
			o.iconc[x.off.k] = v
		} else {
			o.isym = true
		}
		o.init = append(o.init, cCell{x.off, v})
		return v
	}
	n := uint64(w / 8)
	k := c.at(x, n, false)
	var r *Term
	for i := uint64(0); i < n; i++ {
		b := p.elem(x.o.arr, x.o.idx+int(k+i)).(*Term)
		if r == nil {
			r = b
		} else {
			r = p.tc.Concat(b, r)
		}
	}
	return r
}

func (c *cState) store(x cPtr, v interface{}, ty string) {
	p := c.p
	w := intWidth(ty)
	t, ok := v.(*Term)
	if w == 255 || w == 0 || !ok {
		p.unsupported("C store of " + ty)
	}
	if x.o != nil && x.o.arr == nil {
		o := x.o
		if w != o.w {
			p.unsupported("C store of another width into local memory")
		}
		if !p.branch(p.tc.Ule(x.off, p.tc.Const(64, o.size-uint64(w/8)))) {
			c.memErr(o, true)
		}
		if x.off.IsConst() {
			if o.conc == nil {
				o.conc = map[uint64]int{}
			}
			o.conc[x.off.k] = len(o.cells)
		} else {
			o.lastSym = len(o.cells)
		}
		o.cells = append(o.cells, cCell{x.off, t})
		return
	}
	n := uint64(w / 8)
	k := c.at(x, n, true)
	for i := uint64(0); i < n; i++ {
		x.o.arr.e[x.o.idx+int(k+i)] = p.tc.Extract(t, uint8(8*i+7), uint8(8*i))
	}
}

func (c *cState) call(f *cFunc, args []interface{}, depth int) interface{} {
	p := c.p
	if depth > 50 {
		p.unsupported("deep C recursion")
	}
	env := map[string]interface{}{}
	for i, n := range f.params {
		env[n] = args[i]
	}
	val := func(s, ty string) interface{} {
		if strings.HasPrefix(s, "%") {
			v, ok := env[s]
			if !ok {
				p.unsupported("C value " + s)
			}
			return v
		}
		if ty == "ptr" {
			if s == "null" {
				return cPtr{}
			}
			p.unsupported("C global " + s)
		}
		w := intWidth(ty)
		switch s {
		case "true":
			return p.tc.tTrue
		case "false":
			return p.tc.tFalse
		case "undef", "poison":
			return p.input("undef", w)
		}
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return p.tc.Const(w, uint64(n)&mask(w))
		}
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			return p.tc.Const(w, n&mask(w))
		}
		p.unsupported("C constant " + s)
		return nil
	}
	term := func(s, ty string) *Term {
		t, ok := val(s, ty).(*Term)
		if !ok {
			p.unsupported("C operand " + s)
		}
		return t
	}
	ptr := func(s string) cPtr {
		x, ok := val(s, "ptr").(cPtr)
		if !ok {
			p.unsupported("C pointer " + s)
		}
		return x
	}
	prev, cur := "", f.entry
	for {
		b := f.blocks[cur]
		if b == nil {
			p.unsupported("C block " + cur)
		}
		next := ""
		// phis read their operands simultaneously
		upd := map[string]interface{}{}
		i := 0
		for ; i < len(b.ins) && b.ins[i].op == "phi"; i++ {
			in := &b.ins[i]
			for j := 0; j+1 < len(in.list); j += 2 {
				if in.list[j+1] == prev {
					upd[in.dst] = val(in.list[j], in.ty)
				}
			}
		}
		for k, v := range upd {
			env[k] = v
		}
		for ; i < len(b.ins) && next == ""; i++ {
			in := &b.ins[i]
			c.n++
			p.steps++
			if p.steps%8192 == 0 {
				p.checkStop()
			}
			if p.steps > p.lim.steps {
				panic(abortPath{"hang: step limit in C code"})
			}
			switch in.op {
			case "add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem":
				x, y := term(in.a, in.ty), term(in.b, in.ty)
				if x.w == 0 {
					switch in.op {
					case "and":
						env[in.dst] = p.tc.And(x, y)
					case "or":
						env[in.dst] = p.tc.Or(x, y)
					case "xor":
						env[in.dst] = p.tc.Not(p.tc.Eq(x, y))
					default:
						p.unsupported("C " + in.text)
					}
					break
				}
				op := map[string]Op{"add": OAdd, "sub": OSub, "mul": OMul, "shl": OShl, "lshr": OLshr, "ashr": OAshr, "and": OBand, "or": OBor, "xor": OBxor,
					"udiv": OUdiv, "urem": OUrem, "sdiv": OSdiv, "srem": OSrem}[in.op]
				if op == OUdiv || op == OUrem || op == OSdiv || op == OSrem {
					if !p.branch(p.tc.Not(p.tc.Eq(y, p.tc.Const(y.w, 0)))) {
						panic(outcome{kind: "panic", msg: "C code divides by zero"})
					}
				}
				env[in.dst] = p.tc.Bin(op, x, y)
			case "icmp":
				var x, y *Term
				if in.ty == "ptr" {
					x, y = c.addr(val(in.a, "ptr")), c.addr(val(in.b, "ptr"))
				} else {
					x, y = term(in.a, in.ty), term(in.b, in.ty)
				}
				var r *Term
				switch in.pred {
				case "eq":
					r = p.tc.Eq(x, y)
				case "ne":
					r = p.tc.Not(p.tc.Eq(x, y))
				case "ult":
					r = p.tc.Ult(x, y)
				case "ule":
					r = p.tc.Ule(x, y)
				case "ugt":
					r = p.tc.Ult(y, x)
				case "uge":
					r = p.tc.Ule(y, x)
				case "slt":
					r = p.tc.Slt(x, y)
				case "sle":
					r = p.tc.Sle(x, y)
				case "sgt":
					r = p.tc.Slt(y, x)
				case "sge":
					r = p.tc.Sle(y, x)
				}
				env[in.dst] = r
			case "zext", "sext", "trunc":
				x := term(in.a, in.ty)
				w := intWidth(in.ty2)
				switch {
				case w == 0:
					env[in.dst] = p.tc.Eq(p.tc.Extract(x, 0, 0), p.tc.Const(1, 1))
				case x.w == 0:
					one := p.tc.Const(w, 1)
					if in.op == "sext" {
						one = p.tc.Const(w, mask(w))
					}
					env[in.dst] = p.tc.Ite(x, one, p.tc.Const(w, 0))
				default:
					env[in.dst] = p.tc.Resize(x, in.op == "sext", w)
				}
			case "ptrtoint":
				env[in.dst] = p.tc.Resize(c.addr(val(in.a, "ptr")), false, intWidth(in.ty2))
			case "bitcast":
				env[in.dst] = val(in.a, in.ty)
			case "load":
				env[in.dst] = c.load(ptr(in.a), in.ty)
			case "store":
				x := ptr(in.b)
				if x.o != nil && x.o.scalar && x.o.arr == nil && x.o.name == "errno" {
					break
				}
				c.store(x, val(in.a, in.ty), in.ty)
			case "getelementptr":
				x := ptr(in.a)
				if x.o == nil {
					p.unsupported("arithmetic on a nil C pointer")
				}
				ty := in.ty
				off := x.off
				for j, e := range in.list {
					ity, iv := tv(e)
					t := p.tc.Resize(term(iv, ity), true, 64)
					if j > 0 {
						ty = elemType(ty)
					}
					sz := sizeOf(ty)
					if sz == 0 {
						p.unsupported("C type " + ty)
					}
					off = p.tc.Bin(OAdd, off, p.tc.Bin(OMul, t, p.tc.Const(64, sz)))
				}
				env[in.dst] = cPtr{x.o, off}
			case "alloca":
				o := c.newObj("local", sizeOf(in.ty))
				et := in.ty
				for strings.HasPrefix(et, "[") {
					et = elemType(et)
				}
				o.lastSym = -1
				o.w = intWidth(et)
				if o.w == 255 || o.w == 0 {
					p.unsupported("C local of type " + in.ty)
				}
				env[in.dst] = cPtr{o, p.tc.Const(64, 0)}
			case "select":
				a, bb := val(in.a, in.ty), val(in.b, in.ty)
				ta, ok1 := a.(*Term)
				tb, ok2 := bb.(*Term)
				cond := term(in.c, "i1")
				if ok1 && ok2 && ta.w != 0 {
					env[in.dst] = p.tc.Ite(cond, ta, tb)
				} else if p.branch(cond) {
					env[in.dst] = a
				} else {
					env[in.dst] = bb
				}
			case "br":
				if in.label != "" {
					next = in.label
				} else if p.branch(term(in.a, "i1")) {
					next = in.b
				} else {
					next = in.c
				}
			case "switch":
				x := term(in.a, in.ty)
				next = in.label
				for j := 0; j+1 < len(in.list); j += 2 {
					if p.branch(p.tc.Eq(x, term(in.list[j], in.ty))) {
						next = in.list[j+1]
						break
					}
				}
			case "ret":
				if in.ty == "void" {
					return nil
				}
				return val(in.a, in.ty)
			case "unreachable":
				panic(outcome{kind: "panic", msg: "C code reaches an unreachable point"})
			case "call":
				var as []interface{}
				for _, e := range in.list {
					ty, v := tv(e)
					as = append(as, val(v, ty))
				}
				r := c.extern(in, as, depth)
				if in.dst != "" {
					env[in.dst] = r
				}
			default:
				p.unsupported("C " + in.text)
			}
		}
		if next == "" {
			p.unsupported("C block without a terminator")
		}
		prev, cur = cur, next
	}
}

func (c *cState) extern(in *cInstr, as []interface{}, depth int) interface{} {
	p := c.p
	n := in.a
	mem := func(what string) bool { return strings.HasPrefix(n, "llvm."+what+".") || n == what }
	switch {
	case n == "__errno_location":
		o := c.newObj("errno", 4)
		o.scalar = true
		return cPtr{o, p.tc.Const(64, 0)}
	case strings.HasPrefix(n, "llvm.lifetime."), strings.HasPrefix(n, "llvm.assume"), strings.HasPrefix(n, "llvm.dbg."):
		return nil
	case strings.HasPrefix(n, "llvm.expect."):
		return as[0]
	case mem("memcpy"), mem("memmove"):
		k := p.concretize(as[2].(*Term))
		d, s := as[0].(cPtr), as[1].(cPtr)
		if k == 0 {
			return d
		}
		if d.o != nil && s.o == d.o && (mem("memcpy")) {
			// overlapping memcpy is outside the contract; treated as memmove
			if df := p.tc.Bin(OSub, d.off, s.off); !df.IsConst() || int64(df.k) < int64(k) && int64(df.k) > -int64(k) {
				p.reduce(overlapNote)
			}
		}
		tmp := make([]interface{}, k)
		for i := range tmp {
			tmp[i] = c.load(cPtr{s.o, p.tc.Bin(OAdd, s.off, p.tc.Const(64, uint64(i)))}, "i8")
		}
		for i := range tmp {
			c.store(cPtr{d.o, p.tc.Bin(OAdd, d.off, p.tc.Const(64, uint64(i)))}, tmp[i], "i8")
		}
		return d
	case mem("memset"):
		d := as[0].(cPtr)
		k := as[2].(*Term)
		if d.o != nil && d.o.arr == nil {
			// clearing a whole local table
			v, ok := as[1].(*Term)
			if ok && v.IsConst() && v.k == 0 && k.IsConst() && k.k == d.o.size && d.off.IsConst() && d.off.k == 0 {
				d.o.cells, d.o.init = nil, nil
				d.o.cells = nil
				c.zeroed(d.o)
				return d
			}
			p.unsupported("C memset of local memory")
		}
		kk := p.concretize(k)
		for i := uint64(0); i < kk; i++ {
			c.store(cPtr{d.o, p.tc.Bin(OAdd, d.off, p.tc.Const(64, i))}, p.tc.Resize(as[1].(*Term), false, 8), "i8")
		}
		return d
	}
	if f := c.m.funcs[n]; f != nil {
		return c.call(f, as, depth+1)
	}
	p.unsupported("C function " + n)
	return nil
}

func (c *cState) zeroed(o *cObj) { c.p.unsupported("C memset of a local table") }

// callC runs the C function behind a cgo wrapper.
func (p *Path) callC(g *G, fn *ssa.Function, args []Value) Value {
	name := strings.TrimPrefix(fn.Name(), "_Cfunc_")
	m, err := p.w.prog.cModule(fn)
	if err != nil {
		p.unsupported("C code: " + err.Error())
	}
	f := m.funcs[name]
	if f == nil {
		p.unsupported("C function " + name)
	}
	c := &cState{p: p, m: m, next: 1 << 40, g: g}
	objs := map[*ArrayObj]*cObj{}
	var as []interface{}
	k := 0
	for i, a := range args {
		if k >= len(f.params) {
			break
		}
		switch x := a.(type) {
		case *Term:
			w := intWidth(f.ptypes[k])
			as = append(as, p.tc.Resize(x, false, w))
		case Ptr:
			if x.isNil() {
				as = append(as, cPtr{})
				break
			}
			if x.arr == nil || x.sym != nil {
				p.unsupported("pointer passed to C")
			}
			o := objs[x.arr]
			if o == nil {
				o = c.newObj([]string{"first", "second", "third", "fourth", "fifth", "sixth"}[k], uint64(len(x.arr.e)))
				o.arr = x.arr
				objs[x.arr] = o
			}
			as = append(as, cPtr{o, p.tc.Const(64, uint64(x.idx))})
		default:
			p.unsupported(fmt.Sprintf("argument %d of C function %s", i, name))
		}
		k++
	}
	// remembered for the replay of a memory error
	cc := &cCallSym{fn: name, dir: m.dir}
	for i, a := range as {
		switch x := a.(type) {
		case *Term:
			cc.args = append(cc.args, cArgSym{ty: f.ptypes[i], val: x})
		case cPtr:
			as := cArgSym{ty: "ptr"}
			if x.o != nil {
				as.obj = x.o.name
				as.idx = int(x.off.k)
				for j := range x.o.arr.e {
					as.bytes = append(as.bytes, p.elem(x.o.arr, j).(*Term))
				}
			} else {
				as.null = true
			}
			cc.args = append(cc.args, as)
		}
	}
	p.ccall = cc
	r := c.call(f, as, 0)
	p.ccall = nil
	p.w.run.cfuncs(name)
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return nil
	}
	t, _ := r.(*Term)
	if t == nil {
		if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return p.zero(res.At(0).Type())
		}
		return p.tc.Const(width(res.At(0).Type()), 0)
	}
	if res.Len() > 1 {
		p.unsupported("C call with errno")
	}
	return p.tc.Resize(t, false, width(res.At(0).Type()))
}

func (P *Program) cModule(fn *ssa.Function) (*cModule, error) {
	path := fn.Pkg.Pkg.Path()
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.cmods == nil {
		P.cmods = map[string]*cModule{}
		P.cerrs = map[string]error{}
	}
	if err := P.cerrs[path]; err != nil {
		return nil, err
	}
	if m := P.cmods[path]; m != nil {
		return m, nil
	}
	dir := filepath.Join(P.repo, strings.TrimPrefix(path, repoModule))
	m, err := loadC(dir)
	if err != nil {
		P.cerrs[path] = err
		return nil, err
	}
	P.cmods[path] = m
	return m, nil
}

const overlapNote = "overlapping memcpy treated as memmove"
