package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Hash-consed Boolean and bit-vector terms (width 1..64).

type Op uint8

const (
	OConst Op = iota // bit-vector constant k
	OTrue
	OFalse
	OVar     // name
	OBVar    // Boolean variable
	OFZero   // poly == 0 in its field (opaque atom)
	OLin     // indicator polynomial == 0 over the integers
	ONot     // Boolean
	OAnd     // Boolean n-ary
	OOr      // Boolean n-ary
	OEq      // bit-vectors
	OUlt     //
	OSlt     //
	OExtract // k = hi<<8|lo
	OConcat  // high part first
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OIte  // bit-vector
	OSExt //
	OByte // byte i of an encoded object: name identifies the object, k the index
)

type Expr struct {
	op   Op
	w    uint8 // 0 for Bool
	k    uint64
	name string
	a    []*Expr
	poly *Poly
	obj  *EncObj
	id   int32
}

// EncObj is an encoded group element, scalar or hash digest whose bytes occur as OByte leaves.
type EncObj struct {
	kind string // scalar, point, g1, g1c, g2, gt, hash:<alg>, b64, hex
	n    int
	poly *Poly   // for algebraic kinds
	in   []*Expr // hash input / source bytes for textual codecs
	id   int32
	key  string
}

func (e *Expr) isConst() bool { return e.op == OConst }

type ExprCtx struct {
	tab   map[string]*Expr
	all   []*Expr
	True  *Expr
	False *Expr
	objs  map[string]*EncObj
	pc    *PolyCtx
}

func newExprCtx(pc *PolyCtx) *ExprCtx {
	c := &ExprCtx{tab: map[string]*Expr{}, objs: map[string]*EncObj{}, pc: pc}
	c.True = c.mk(&Expr{op: OTrue})
	c.False = c.mk(&Expr{op: OFalse})
	return c
}

func (c *ExprCtx) mk(e *Expr) *Expr {
	var sb [64]byte
	b := sb[:0]
	b = append(b, byte(e.op), e.w)
	b = append(b, byte(e.k), byte(e.k>>8), byte(e.k>>16), byte(e.k>>24), byte(e.k>>32), byte(e.k>>40), byte(e.k>>48), byte(e.k>>56))
	for _, x := range e.a {
		b = append(b, byte(x.id), byte(x.id>>8), byte(x.id>>16), byte(x.id>>24))
	}
	if e.poly != nil {
		b = append(b, 'P', byte(e.poly.id), byte(e.poly.id>>8), byte(e.poly.id>>16), byte(e.poly.id>>24))
	}
	if e.obj != nil {
		b = append(b, 'O', byte(e.obj.id), byte(e.obj.id>>8), byte(e.obj.id>>16), byte(e.obj.id>>24))
	}
	b = append(b, e.name...)
	if x, ok := c.tab[string(b)]; ok {
		return x
	}
	e.id = int32(len(c.all))
	c.all = append(c.all, e)
	c.tab[string(b)] = e
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (c *ExprCtx) K(w uint8, k uint64) *Expr { return c.mk(&Expr{op: OConst, w: w, k: k & mask(w)}) }
func (c *ExprCtx) B(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}
func (c *ExprCtx) Var(w uint8, name string) *Expr { return c.mk(&Expr{op: OVar, w: w, name: name}) }
func (c *ExprCtx) BVar(name string) *Expr         { return c.mk(&Expr{op: OBVar, name: name}) }

func (c *ExprCtx) Not(a *Expr) *Expr {
	switch a.op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.a[0]
	}
	return c.mk(&Expr{op: ONot, a: []*Expr{a}})
}

func (c *ExprCtx) nary(op Op, unit, zero *Expr, xs []*Expr) *Expr {
	var out []*Expr
	seen := map[int32]bool{}
	var add func(x *Expr) bool
	add = func(x *Expr) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if seen[c.Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// canonical order
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].id < out[j-1].id; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return c.mk(&Expr{op: op, a: out})
}

func (c *ExprCtx) And(xs ...*Expr) *Expr { return c.nary(OAnd, c.True, c.False, xs) }
func (c *ExprCtx) Or(xs ...*Expr) *Expr  { return c.nary(OOr, c.False, c.True, xs) }
func (c *ExprCtx) Implies(a, b *Expr) *Expr {
	return c.Or(c.Not(a), b)
}
func (c *ExprCtx) Iff(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a == c.True {
		return b
	}
	if b == c.True {
		return a
	}
	if a == c.False {
		return c.Not(b)
	}
	if b == c.False {
		return c.Not(a)
	}
	return c.And(c.Or(c.Not(a), b), c.Or(a, c.Not(b)))
}

func (c *ExprCtx) IteB(x, a, b *Expr) *Expr {
	if x == c.True || a == b {
		return a
	}
	if x == c.False {
		return b
	}
	return c.And(c.Or(c.Not(x), a), c.Or(x, b))
}

func (c *ExprCtx) Ite(x, a, b *Expr) *Expr {
	if a.w == 0 {
		return c.IteB(x, a, b)
	}
	if x == c.True || a == b {
		return a
	}
	if x == c.False {
		return b
	}
	if x.op == ONot {
		return c.Ite(x.a[0], b, a)
	}
	return c.mk(&Expr{op: OIte, w: a.w, a: []*Expr{x, a, b}})
}

func (c *ExprCtx) Extract(x *Expr, hi, lo uint8) *Expr {
	if lo == 0 && hi == x.w-1 {
		return x
	}
	w := hi - lo + 1
	switch x.op {
	case OConst:
		return c.K(w, x.k>>lo)
	case OExtract:
		l := uint8(x.k)
		return c.Extract(x.a[0], hi+l, lo+l)
	case OConcat:
		// parts from the low end
		var parts []*Expr
		off := uint8(0)
		for i := len(x.a) - 1; i >= 0; i-- {
			p := x.a[i]
			pl, ph := off, off+p.w-1
			off += p.w
			if ph < lo || pl > hi {
				continue
			}
			l, h := uint8(0), p.w-1
			if lo > pl {
				l = lo - pl
			}
			if hi < ph {
				h = hi - pl
			}
			parts = append([]*Expr{c.Extract(p, h, l)}, parts...)
		}
		return c.Concat(parts...)
	case OBAnd:
		return c.BAnd(c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
	case OBOr:
		return c.BOr(c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
	case OBXor:
		return c.BXor(c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
	case OBNot:
		return c.BNot(c.Extract(x.a[0], hi, lo))
	case OIte:
		return c.Ite(x.a[0], c.Extract(x.a[1], hi, lo), c.Extract(x.a[2], hi, lo))
	case OAdd:
		if lo == 0 {
			return c.Add(c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0))
		}
	case OSub:
		if lo == 0 {
			return c.Sub(c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0))
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0))
		}
	case OSExt:
		if hi < x.a[0].w {
			return c.Extract(x.a[0], hi, lo)
		}
	}
	return c.mk(&Expr{op: OExtract, w: w, k: uint64(hi)<<8 | uint64(lo), a: []*Expr{x}})
}

func (c *ExprCtx) Concat(ps ...*Expr) *Expr {
	var out []*Expr
	var push func(p *Expr)
	push = func(p *Expr) {
		if p.op == OConcat {
			for _, q := range p.a {
				push(q)
			}
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.op == OConst && p.op == OConst {
				out[n-1] = c.K(l.w+p.w, l.k<<p.w|p.k)
				return
			}
			lb, lhi, llo := c.slice(l)
			pb, phi, plo := c.slice(p)
			if lb == pb && llo == phi+1 && lb.op != OConst {
				out[n-1] = c.Extract(lb, lhi, plo)
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	var w uint8
	for _, p := range out {
		w += p.w
	}
	return c.mk(&Expr{op: OConcat, w: w, a: out})
}

func (c *ExprCtx) slice(e *Expr) (base *Expr, hi, lo uint8) {
	if e.op == OExtract {
		return e.a[0], uint8(e.k >> 8), uint8(e.k)
	}
	return e, e.w - 1, 0
}

// cuts returns the boundaries (from the low end) at which e is naturally split.
func (c *ExprCtx) cuts(e *Expr, m map[uint8]bool) {
	off := uint8(0)
	switch e.op {
	case OConcat:
		for i := len(e.a) - 1; i >= 0; i-- {
			p := e.a[i]
			if p.op == OConst {
				prev := p.k & 1
				for b := uint8(0); b < p.w; b++ {
					if x := p.k >> b & 1; x != prev {
						m[off+b] = true
						prev = x
					}
				}
			}
			off += p.w
			m[off] = true
		}
	case OConst:
		prev := e.k & 1
		for b := uint8(0); b < e.w; b++ {
			if x := e.k >> b & 1; x != prev {
				m[b] = true
				prev = x
			}
		}
	}
}

// pieces splits a and b at the union of their boundaries and combines them with f (low to high).
func (c *ExprCtx) piecewise(a, b *Expr, f func(x, y *Expr) *Expr) *Expr {
	m := map[uint8]bool{}
	c.cuts(a, m)
	c.cuts(b, m)
	m[a.w] = true
	var parts []*Expr
	lo := uint8(0)
	for i := uint8(1); i <= a.w; i++ {
		if m[i] {
			p := f(c.Extract(a, i-1, lo), c.Extract(b, i-1, lo))
			parts = append([]*Expr{p}, parts...)
			lo = i
		}
	}
	return c.Concat(parts...)
}

func splittable(a, b *Expr) bool {
	return a.op == OConcat || b.op == OConcat || a.op == OConst || b.op == OConst
}

func (c *ExprCtx) bin(op Op, a, b *Expr) *Expr {
	return c.mk(&Expr{op: op, w: a.w, a: []*Expr{a, b}})
}

func order(a, b *Expr) (*Expr, *Expr) {
	if b.id < a.id {
		return b, a
	}
	return a, b
}

func (c *ExprCtx) BAnd(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.K(a.w, a.k&b.k)
		}
		if b.k == 0 {
			return b
		}
		if b.k == mask(b.w) {
			return a
		}
	}
	if splittable(a, b) && a.w > 1 {
		m := map[uint8]bool{}
		c.cuts(a, m)
		c.cuts(b, m)
		delete(m, a.w)
		if len(m) > 0 {
			return c.piecewise(a, b, c.BAnd)
		}
	}
	a, b = order(a, b)
	return c.bin(OBAnd, a, b)
}

func (c *ExprCtx) BOr(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.K(a.w, a.k|b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(b.w) {
			return b
		}
	}
	if splittable(a, b) && a.w > 1 {
		m := map[uint8]bool{}
		c.cuts(a, m)
		c.cuts(b, m)
		delete(m, a.w)
		if len(m) > 0 {
			return c.piecewise(a, b, c.BOr)
		}
	}
	a, b = order(a, b)
	return c.bin(OBOr, a, b)
}

func (c *ExprCtx) BXor(a, b *Expr) *Expr {
	if a == b {
		return c.K(a.w, 0)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.K(a.w, a.k^b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(b.w) {
			return c.BNot(a)
		}
	}
	if splittable(a, b) && a.w > 1 {
		m := map[uint8]bool{}
		c.cuts(a, m)
		c.cuts(b, m)
		delete(m, a.w)
		if len(m) > 0 {
			return c.piecewise(a, b, c.BXor)
		}
	}
	a, b = order(a, b)
	return c.bin(OBXor, a, b)
}

func (c *ExprCtx) BNot(a *Expr) *Expr {
	if a.op == OConst {
		return c.K(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return c.mk(&Expr{op: OBNot, w: a.w, a: []*Expr{a}})
}

func (c *ExprCtx) Neg(a *Expr) *Expr {
	if a.op == OConst {
		return c.K(a.w, -a.k)
	}
	if a.op == ONeg {
		return a.a[0]
	}
	return c.mk(&Expr{op: ONeg, w: a.w, a: []*Expr{a}})
}

// zeroBits returns a mask of bits of e known to be zero.
func (c *ExprCtx) zeroBits(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return ^e.k & mask(e.w)
	case OConcat:
		var r uint64
		off := uint8(0)
		for i := len(e.a) - 1; i >= 0; i-- {
			r |= c.zeroBits(e.a[i]) << off
			off += e.a[i].w
		}
		return r
	case OIte:
		return c.zeroBits(e.a[1]) & c.zeroBits(e.a[2])
	case OBAnd:
		return c.zeroBits(e.a[0]) | c.zeroBits(e.a[1])
	case OBOr, OBXor:
		return c.zeroBits(e.a[0]) & c.zeroBits(e.a[1])
	}
	return 0
}

func (c *ExprCtx) umax(e *Expr) uint64 { return mask(e.w) &^ c.zeroBits(e) }

func (c *ExprCtx) Add(a, b *Expr) *Expr {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.K(a.w, a.k+b.k)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.a[1].op == OConst {
			return c.Add(a.a[0], c.K(a.w, a.a[1].k+b.k))
		}
		if a.op == OIte && a.a[1].op == OConst && a.a[2].op == OConst {
			return c.Ite(a.a[0], c.K(a.w, a.a[1].k+b.k), c.K(a.w, a.a[2].k+b.k))
		}
	}
	if c.umax(a)&c.umax(b) == 0 {
		return c.BOr(a, b)
	}
	if b.op != OConst {
		a, b = order(a, b)
	}
	return c.bin(OAdd, a, b)
}

func (c *ExprCtx) Sub(a, b *Expr) *Expr {
	if a == b {
		return c.K(a.w, 0)
	}
	if b.op == OConst {
		return c.Add(a, c.K(b.w, -b.k))
	}
	return c.bin(OSub, a, b)
}

func (c *ExprCtx) Mul(a, b *Expr) *Expr {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.K(a.w, a.k*b.k)
		}
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if bits.OnesCount64(b.k) == 1 {
			return c.ShlK(a, uint64(bits.TrailingZeros64(b.k)))
		}
	}
	return c.bin(OMul, a, b)
}

func (c *ExprCtx) ShlK(a *Expr, s uint64) *Expr {
	if s == 0 {
		return a
	}
	if s >= uint64(a.w) {
		return c.K(a.w, 0)
	}
	return c.Concat(c.Extract(a, a.w-1-uint8(s), 0), c.K(uint8(s), 0))
}

func (c *ExprCtx) LShrK(a *Expr, s uint64) *Expr {
	if s == 0 {
		return a
	}
	if s >= uint64(a.w) {
		return c.K(a.w, 0)
	}
	return c.Concat(c.K(uint8(s), 0), c.Extract(a, a.w-1, uint8(s)))
}

func (c *ExprCtx) ZExt(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	return c.Concat(c.K(w-a.w, 0), a)
}

func sext64(k uint64, w uint8) int64 { return int64(k<<(64-w)) >> (64 - w) }

func (c *ExprCtx) SExt(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return c.K(w, uint64(sext64(a.k, a.w)))
	}
	if c.zeroBits(a)>>(a.w-1)&1 == 1 {
		return c.ZExt(a, w)
	}
	return c.mk(&Expr{op: OSExt, w: w, a: []*Expr{a}})
}

func (c *ExprCtx) UDiv(a, b *Expr) *Expr {
	if b.op == OConst && b.k != 0 {
		if a.op == OConst {
			return c.K(a.w, a.k/b.k)
		}
		if bits.OnesCount64(b.k) == 1 {
			return c.LShrK(a, uint64(bits.TrailingZeros64(b.k)))
		}
	}
	return c.bin(OUDiv, a, b)
}

func (c *ExprCtx) URem(a, b *Expr) *Expr {
	if b.op == OConst && b.k != 0 {
		if a.op == OConst {
			return c.K(a.w, a.k%b.k)
		}
		if bits.OnesCount64(b.k) == 1 {
			return c.BAnd(a, c.K(a.w, b.k-1))
		}
	}
	return c.bin(OURem, a, b)
}

func (c *ExprCtx) nonneg(a *Expr) bool { return c.zeroBits(a)>>(a.w-1)&1 == 1 }

func (c *ExprCtx) SDiv(a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return c.K(a.w, uint64(-x))
		}
		return c.K(a.w, uint64(x/y))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.UDiv(a, b)
	}
	return c.bin(OSDiv, a, b)
}

func (c *ExprCtx) SRem(a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return c.K(a.w, 0)
		}
		return c.K(a.w, uint64(x%y))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.URem(a, b)
	}
	return c.bin(OSRem, a, b)
}

func (c *ExprCtx) Shl(a, b *Expr) *Expr {
	if b.op == OConst {
		return c.ShlK(a, b.k)
	}
	return c.bin(OShl, a, b)
}
func (c *ExprCtx) LShr(a, b *Expr) *Expr {
	if b.op == OConst {
		return c.LShrK(a, b.k)
	}
	return c.bin(OLShr, a, b)
}
func (c *ExprCtx) AShr(a, b *Expr) *Expr {
	if b.op == OConst {
		if a.op == OConst {
			s := b.k
			if s > 63 {
				s = 63
			}
			return c.K(a.w, uint64(sext64(a.k, a.w)>>s))
		}
		if c.nonneg(a) {
			return c.LShrK(a, b.k)
		}
	}
	return c.bin(OAShr, a, b)
}

func (c *ExprCtx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.w == 0 {
		return c.Iff(a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.B(a.k == b.k)
		}
		if c.zeroBits(a)&b.k != 0 {
			return c.False
		}
		if a.op == OIte {
			return c.IteB(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
		}
		if a.w == 1 && b.k == 0 {
			return c.Not(c.Eq(a, c.K(1, 1)))
		}
		if a.op == OBNot {
			return c.Eq(a.a[0], c.K(a.w, ^b.k))
		}
		if a.op == OAdd && a.a[1].op == OConst {
			return c.Eq(a.a[0], c.K(a.w, b.k-a.a[1].k))
		}
	}
	if a.op == OConcat || b.op == OConcat {
		m := map[uint8]bool{}
		if a.op == OConcat {
			c.partCuts(a, m)
		}
		if b.op == OConcat {
			c.partCuts(b, m)
		}
		m[a.w] = true
		if len(m) > 1 {
			var cs []*Expr
			lo := uint8(0)
			for i := uint8(1); i <= a.w; i++ {
				if m[i] {
					cs = append(cs, c.Eq(c.Extract(a, i-1, lo), c.Extract(b, i-1, lo)))
					lo = i
				}
			}
			return c.And(cs...)
		}
	}
	if b.op != OConst {
		a, b = order(a, b)
	}
	return c.mk(&Expr{op: OEq, a: []*Expr{a, b}})
}

func (c *ExprCtx) partCuts(e *Expr, m map[uint8]bool) {
	off := uint8(0)
	for i := len(e.a) - 1; i >= 0; i-- {
		off += e.a[i].w
		m[off] = true
	}
}

func (c *ExprCtx) Ult(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.B(a.k < b.k)
	}
	if b.op == OConst {
		if b.k == 0 {
			return c.False
		}
		if c.umax(a) < b.k {
			return c.True
		}
		if a.op == OIte {
			return c.IteB(a.a[0], c.Ult(a.a[1], b), c.Ult(a.a[2], b))
		}
	}
	if a.op == OConst {
		if c.umax(b) <= a.k {
			return c.False
		}
		if a.k == 0 {
			return c.Not(c.Eq(b, c.K(b.w, 0)))
		}
		if b.op == OIte {
			return c.IteB(b.a[0], c.Ult(a, b.a[1]), c.Ult(a, b.a[2]))
		}
	}
	return c.mk(&Expr{op: OUlt, a: []*Expr{a, b}})
}

func (c *ExprCtx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.B(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if a.op == OConst && sext64(a.k, a.w) < 0 && c.nonneg(b) {
		return c.True
	}
	if b.op == OConst && sext64(b.k, b.w) <= 0 && c.nonneg(a) {
		return c.False
	}
	if b.op == OConst && a.op == OIte {
		return c.IteB(a.a[0], c.Slt(a.a[1], b), c.Slt(a.a[2], b))
	}
	if a.op == OConst && b.op == OIte {
		return c.IteB(b.a[0], c.Slt(a, b.a[1]), c.Slt(a, b.a[2]))
	}
	return c.mk(&Expr{op: OSlt, a: []*Expr{a, b}})
}

// Obj interns an encoded object.
func (c *ExprCtx) Obj(kind string, n int, poly *Poly, in []*Expr, extra string) *EncObj {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s/%d/", kind, n)
	if poly != nil {
		poly = c.pc.intern(poly)
		fmt.Fprintf(&sb, "p%d/", poly.id)
	}
	for _, x := range in {
		fmt.Fprintf(&sb, "%d,", x.id)
	}
	sb.WriteString(extra)
	k := sb.String()
	if o, ok := c.objs[k]; ok {
		return o
	}
	o := &EncObj{kind: kind, n: n, poly: poly, in: in, id: int32(len(c.objs) + 1), key: k}
	c.objs[k] = o
	return o
}

func (c *ExprCtx) ObjBytes(o *EncObj) []*Expr {
	out := make([]*Expr, o.n)
	for i := range out {
		out[i] = c.mk(&Expr{op: OByte, w: 8, k: uint64(i), obj: o})
	}
	return out
}

// FZ makes the opaque atom poly==0 (poly already normalised and interned).
func (c *ExprCtx) FZ(p *Poly) *Expr { return c.mk(&Expr{op: OFZero, poly: c.pc.intern(p)}) }

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv",
	OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OUlt: "bvult", OSlt: "bvslt", OEq: "=", ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OConcat: "concat"}
