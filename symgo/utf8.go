package main

import (
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// UTF-8 over symbolic bytes and runes: one branch per encoded width.

func (p *Path) inRange(b *Term, lo, hi uint64) *Term {
	return p.tc.And(p.tc.Ule(p.tc.Const(b.w, lo), b), p.tc.Ule(b, p.tc.Const(b.w, hi)))
}

// decodeRuneSym decodes the first rune of b, which is not empty.
func (p *Path) decodeRuneSym(b []*Term) (*Term, int) {
	tc := p.tc
	bits := func(t *Term, mask uint64, sh uint64) *Term {
		return tc.Bin(OShl, tc.Bin(OBand, tc.Zext(t, 32), tc.Const(32, mask)), tc.Const(32, sh))
	}
	cont := func(i int) *Term { return p.inRange(b[i], 0x80, 0xBF) }
	eq := func(v uint64) *Term { return tc.Eq(b[0], tc.Const(8, v)) }
	if p.branch(tc.Ult(b[0], tc.Const(8, 0x80))) {
		return tc.Zext(b[0], 32), 1
	}
	if len(b) >= 2 && p.branch(tc.And(p.inRange(b[0], 0xC2, 0xDF), cont(1))) {
		return tc.Bin(OBor, bits(b[0], 0x1F, 6), bits(b[1], 0x3F, 0)), 2
	}
	if len(b) >= 3 {
		lo := tc.Or(tc.Not(eq(0xE0)), tc.Ule(tc.Const(8, 0xA0), b[1]))
		hi := tc.Or(tc.Not(eq(0xED)), tc.Ule(b[1], tc.Const(8, 0x9F)))
		c := tc.And(tc.And(p.inRange(b[0], 0xE0, 0xEF), tc.And(cont(1), cont(2))), tc.And(lo, hi))
		if p.branch(c) {
			return tc.Bin(OBor, bits(b[0], 0x0F, 12), tc.Bin(OBor, bits(b[1], 0x3F, 6), bits(b[2], 0x3F, 0))), 3
		}
	}
	if len(b) >= 4 {
		lo := tc.Or(tc.Not(eq(0xF0)), tc.Ule(tc.Const(8, 0x90), b[1]))
		hi := tc.Or(tc.Not(eq(0xF4)), tc.Ule(b[1], tc.Const(8, 0x8F)))
		c := tc.And(tc.And(p.inRange(b[0], 0xF0, 0xF4), tc.And(cont(1), tc.And(cont(2), cont(3)))), tc.And(lo, hi))
		if p.branch(c) {
			return tc.Bin(OBor, tc.Bin(OBor, bits(b[0], 0x07, 18), bits(b[1], 0x3F, 12)), tc.Bin(OBor, bits(b[2], 0x3F, 6), bits(b[3], 0x3F, 0))), 4
		}
	}
	return tc.Const(32, 0xFFFD), 1
}

// encodeRuneSym is the UTF-8 text of a rune.
func (p *Path) encodeRuneSym(r *Term) []*Term {
	tc := p.tc
	r = tc.Resize(r, false, 64)
	part := func(sh, mask, or uint64) *Term {
		t := tc.Bin(OBand, tc.Bin(OLshr, r, tc.Const(64, sh)), tc.Const(64, mask))
		return tc.Extract(tc.Bin(OBor, t, tc.Const(64, or)), 7, 0)
	}
	switch {
	case p.branch(tc.Ult(r, tc.Const(64, 0x80))):
		return []*Term{part(0, 0x7F, 0)}
	case p.branch(tc.Ult(r, tc.Const(64, 0x800))):
		return []*Term{part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80)}
	case p.branch(tc.Or(p.inRange(r, 0xD800, 0xDFFF), tc.Ult(tc.Const(64, 0x10FFFF), r))):
		return []*Term{tc.Const(8, 0xEF), tc.Const(8, 0xBF), tc.Const(8, 0xBD)}
	case p.branch(tc.Ult(r, tc.Const(64, 0x10000))):
		return []*Term{part(12, 0x0F, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
	}
	return []*Term{part(18, 0x07, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
}

// unicodeIntrinsics are the classes and case mappings of runes.
func unicodeIntrinsics(reg func(string, intrinsicFn)) {
	class := func(name string, f func(rune) bool) {
		reg("unicode."+name, func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			r := a[0].(*Term)
			if r.IsConst() {
				return p.tc.Bool(f(rune(int32(r.k))))
			}
			// up to U+00FF by value, above by table
			t := p.tc
			is := t.tFalse
			for i := rune(0); i < 0x100; {
				j := i
				for j < 0x100 && f(j) {
					j++
				}
				if j > i {
					is = t.Or(is, p.inRange(r, uint64(i), uint64(j-1)))
				}
				i = j + 1
			}
			if !p.branch(t.Ult(t.Const(r.w, 0xFF), r)) {
				return is
			}
			is = t.tFalse
			from := rune(-1)
			for i := rune(0x100); i <= unicode.MaxRune+1; i++ {
				in := i <= unicode.MaxRune && f(i)
				if in && from < 0 {
					from = i
				} else if !in && from >= 0 {
					is = t.Or(is, p.inRange(r, uint64(from), uint64(i-1)))
					from = -1
				}
			}
			return is
		})
	}
	class("IsSpace", unicode.IsSpace)
	class("IsDigit", unicode.IsDigit)
	class("IsNumber", unicode.IsNumber)
	class("IsLetter", unicode.IsLetter)
	class("IsUpper", unicode.IsUpper)
	class("IsLower", unicode.IsLower)
	class("IsTitle", unicode.IsTitle)
	class("IsPunct", unicode.IsPunct)
	class("IsSymbol", unicode.IsSymbol)
	class("IsControl", unicode.IsControl)
	class("IsPrint", unicode.IsPrint)
	class("IsGraphic", unicode.IsGraphic)
	class("IsMark", unicode.IsMark)
	mapping := func(name string, lo, hi rune, delta int32, f func(rune) rune) {
		reg("unicode."+name, func(p *Path, g *G, c *frame, fn *ssa.Function, a []Value) Value {
			r := a[0].(*Term)
			t := p.tc
			if r.IsConst() {
				return t.Const(32, uint64(uint32(f(rune(int32(r.k))))))
			}
			if p.branch(t.Ult(r, t.Const(r.w, 0x80))) {
				return t.Ite(p.inRange(r, uint64(lo), uint64(hi)), t.Bin(OAdd, r, t.Const(r.w, uint64(uint32(delta)))), r)
			}
			p.reduce("case mapping of a non-ASCII character: one representative per path")
			v := p.representative(r)
			return t.Const(32, uint64(uint32(f(rune(int32(v))))))
		})
	}
	mapping("ToLower", 'A', 'Z', 32, unicode.ToLower)
	mapping("ToUpper", 'a', 'z', -32, unicode.ToUpper)
	mapping("ToTitle", 'a', 'z', -32, unicode.ToTitle)
}

// representative picks one value of t on this path.
func (p *Path) representative(t *Term) uint64 {
	if t.IsConst() {
		return t.k
	}
	n := len(p.trail)
	if n < len(p.prefix) {
		d := p.prefix[n]
		p.trail = append(p.trail, d)
		p.addPC(p.tc.Eq(t, p.tc.Const(t.w, d.val)))
		return d.val
	}
	v := p.eval(t).k
	p.record(decision{kind: 'v', val: v, yes: true})
	p.addPC(p.tc.Eq(t, p.tc.Const(t.w, v)))
	return v
}
