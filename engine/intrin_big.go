package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Models of math/big.

func (x *Exec) bigOf(v value) *BIG {
	b, ok := (*x.ptr(v)).(*BIG)
	if !ok {
		panic(unsupported("big.Int expected, got %T", *x.ptr(v)))
	}
	if b.be != nil {
		if k, ok := asConcrete(b.be); ok {
			return &BIG{k: new(big.Int).SetBytes(k)}
		}
	}
	if b.fe != nil && !b.nc {
		p := x.norm(b.fe)
		if k, ok := p.isConst(); ok {
			return &BIG{k: p.f.canon(k)}
		}
		return &BIG{fe: p}
	}
	return b
}

// bigPoly is the residue of b in f.
func (x *Exec) bigPoly(b *BIG, f *Field) *Poly {
	switch {
	case b.k != nil:
		return x.pc.konst(f, new(big.Int).Mod(b.k, f.p))
	case b.fe != nil && b.fe.f == f:
		return x.norm(b.fe)
	case b.fe != nil:
		panic(unsupported("integer of field %s used modulo %s", b.fe.f.name, f.name))
	}
	be := b.be
	for len(be) > 0 && be[0].op == OConst && be[0].k == 0 {
		be = be[1:]
	}
	if k, ok := asConcrete(be); ok {
		return x.pc.konst(f, new(big.Int).SetBytes(k))
	}
	if o := objAt(be, 0); o != nil && o.n == len(be) {
		if len(o.kind) > 5 && o.kind[:5] == "hash:" {
			return x.pc.pvar(x.oracle("digest:"+o.kind+":"+f.name, o.in, f))
		}
	}
	v := x.pc.newVar(fmt.Sprintf("be%s#%x", f.name, x.exprKey(be)), f)
	v.dec = be
	v.decKind = "be"
	x.decUsed = append(x.decUsed, v)
	return x.norm(x.pc.pvar(v))
}

// bitsOf gives the low 64 bits of a polynomial known to be a small integer, and its high part if it has one.
func (x *Exec) bitsOf(p *Poly) (low *Expr, wide, ok bool) {
	max := new(big.Int)
	low = x.ec.K(64, 0)
	var mixed []term // products of indicators, and what is subtracted
	for _, t := range p.ts {
		c := t.c.big()
		ind := true
		for _, v := range t.m.vs {
			if v.e != 1 || x.pc.vars[v.v].cond == nil {
				ind = false
			}
		}
		switch {
		case len(t.m.vs) == 1 && t.m.vs[0].e == 1 && x.pc.vars[t.m.vs[0].v].wideHi && c.Sign() > 0 && c.BitLen() == 65 && c.TrailingZeroBits() == 64:
			wide = true
		case !ind || c.BitLen() > 64:
			return nil, false, false
		case c.Sign() < 0 || len(t.m.vs) > 1:
			mixed = append(mixed, t)
		}
	}
	used := make([]bool, len(p.ts))
	if len(mixed) > 0 {
		if wide || !x.nonNegative(p, mixed, used, max) {
			return nil, false, false
		}
	}
	for i, t := range p.ts {
		c := t.c.big()
		switch {
		case len(t.m.vs) == 0:
			low = x.ec.Add(low, x.ec.K(64, c.Uint64()))
		case wide && x.pc.vars[t.m.vs[0].v].wideHi:
			continue
		default:
			cond := x.ec.True
			for _, v := range t.m.vs {
				cond = x.ec.And(cond, x.pc.vars[v.v].cond)
			}
			k := new(big.Int).Abs(c).Uint64()
			if c.Sign() < 0 {
				low = x.ec.Sub(low, x.bitAt(cond, k))
			} else {
				low = x.ec.Add(low, x.bitAt(cond, k))
			}
		}
		if !used[i] {
			max.Add(max, c)
		}
	}
	if max.BitLen() > 64 {
		return nil, false, false
	}
	return low, wide, true
}

// nonNegative reports that the terms that share indicators with the given ones (use) never add up to less than zero,
// and gives the most they add up to.
func (x *Exec) nonNegative(p *Poly, mixed []term, use []bool, max *big.Int) bool {
	in := map[int]uint{}
	add := func(t term) {
		for _, v := range t.m.vs {
			if _, ok := in[int(v.v)]; !ok {
				in[int(v.v)] = uint(len(in))
			}
		}
	}
	for _, t := range mixed {
		if len(t.m.vs) == 0 {
			return false
		}
		add(t)
	}
	for again := true; again; {
		again = false
		for i, t := range p.ts {
			if use[i] {
				continue
			}
			for _, v := range t.m.vs {
				if _, ok := in[int(v.v)]; ok {
					use[i], again = true, true
				}
			}
			if use[i] {
				add(t)
			}
		}
	}
	if len(in) > 10 {
		return false
	}
	for a := uint(0); a < 1<<uint(len(in)); a++ {
		sum := new(big.Int)
		for i, t := range p.ts {
			if !use[i] {
				continue
			}
			on := true
			for _, v := range t.m.vs {
				on = on && a>>in[int(v.v)]&1 == 1
			}
			if on {
				sum.Add(sum, t.c.big())
			}
		}
		if sum.Sign() < 0 {
			return false
		}
		if sum.Cmp(max) > 0 {
			max.Set(sum)
		}
	}
	return true
}

// bitAt is k when c holds, else 0, written as a shifted bit when that is what it is.
func (x *Exec) bitAt(c *Expr, k uint64) *Expr {
	if k != 0 && k&(k-1) == 0 && c.op == OEq && c.a[0].w == 1 && c.a[1].op == OConst && c.a[1].k == 1 {
		s := uint8(0)
		for k>>s != 1 {
			s++
		}
		var parts []*Expr
		if s < 63 {
			parts = append(parts, x.ec.K(63-s, 0))
		}
		parts = append(parts, c.a[0])
		if s > 0 {
			parts = append(parts, x.ec.K(s, 0))
		}
		return x.ec.Concat(parts...)
	}
	return x.ec.Ite(c, x.ec.K(64, k), x.ec.K(64, 0))
}

func (x *Exec) bigLow(b *BIG) *Expr {
	switch {
	case b.k != nil:
		return x.ec.K(64, new(big.Int).And(new(big.Int).Abs(b.k), new(big.Int).SetUint64(^uint64(0))).Uint64())
	case b.be != nil:
		var ps []*Expr
		for i := len(b.be) - 8; i < len(b.be); i++ {
			if i < 0 {
				ps = append(ps, x.ec.K(8, 0))
			} else {
				ps = append(ps, b.be[i])
			}
		}
		return x.ec.Concat(ps...)
	}
	if b.nc {
		panic(unsupported("bits of an unreduced integer"))
	}
	p := x.pc.intern(x.norm(b.fe))
	if low, _, ok := x.bitsOf(p); ok {
		return low
	}
	return x.ec.Var(64, fmt.Sprintf("low64#%d", p.id))
}

// small reports that p is an integer below the modulus for every assignment of its indicators.
func (x *Exec) small(b *BIG) bool {
	if b.k != nil {
		return b.k.Sign() >= 0
	}
	if b.fe == nil || b.nc {
		return false
	}
	_, _, ok := x.bitsOf(x.norm(b.fe))
	return ok
}

// signMag is b as sign and magnitude, if its bits are known.
func (x *Exec) signMag(b *BIG) *signMag {
	if b.sm != nil {
		return b.sm
	}
	if b.k != nil {
		m := new(big.Int).Abs(b.k)
		if m.BitLen() > 128 {
			return nil
		}
		return &signMag{x.ec.B(b.k.Sign() < 0), x.ec.K(64, new(big.Int).Rsh(m, 64).Uint64()), x.ec.K(64, new(big.Int).And(m, new(big.Int).SetUint64(^uint64(0))).Uint64())}
	}
	if b.fe == nil || b.nc {
		return nil
	}
	if low, w, ok := x.bitsOf(x.norm(b.fe)); ok && !w {
		return &signMag{x.ec.False, x.ec.K(64, 0), low}
	}
	return nil
}

func (x *Exec) bigCmp(a, b *BIG) *Expr {
	if a.k != nil && b.k != nil {
		return x.ec.K(64, uint64(int64(a.k.Cmp(b.k))))
	}
	if a.nc || b.nc {
		if p, q := x.signMag(a), x.signMag(b); p != nil && q != nil {
			same := x.ec.And(x.ec.Eq(p.hi, q.hi), x.ec.Eq(p.lo, q.lo))
			less := x.ec.Or(x.ec.Ult(p.hi, q.hi), x.ec.And(x.ec.Eq(p.hi, q.hi), x.ec.Ult(p.lo, q.lo)))
			neg, pos := x.ec.K(64, ^uint64(0)), x.ec.K(64, 1)
			up := x.ec.Ite(same, x.ec.K(64, 0), x.ec.Ite(less, neg, pos))
			down := x.ec.Ite(same, x.ec.K(64, 0), x.ec.Ite(less, pos, neg))
			return x.ec.Ite(p.neg, x.ec.Ite(q.neg, down, neg), x.ec.Ite(q.neg, pos, up))
		}
	}
	if a.nc || b.nc {
		panic(unsupported("comparison of unreduced integers"))
	}
	var eq, lt *Expr
	if a.be != nil || b.be != nil {
		ab, bb := x.bigBE(a, 32), x.bigBE(b, 32)
		n := max(len(ab), len(bb))
		pad := func(s []*Expr) []*Expr {
			for len(s) < n {
				s = append([]*Expr{x.ec.K(8, 0)}, s...)
			}
			return s
		}
		ab, bb = pad(ab), pad(bb)
		eq = x.eqExprs(ab, bb)
		lt = x.lexLess(ab, bb)
	} else {
		f := fieldL
		if a.fe != nil {
			f = a.fe.f
		} else {
			f = b.fe.f
		}
		bigk := func(k *big.Int) bool { return k != nil && (k.Sign() < 0 || k.Cmp(f.p) >= 0) }
		switch {
		case bigk(a.k):
			return x.ec.K(64, uint64(int64(a.k.Sign())))
		case bigk(b.k):
			return x.ec.K(64, uint64(int64(-b.k.Sign())))
		}
		pa, pb := x.bigPoly(a, f), x.bigPoly(b, f)
		eq = x.fzero(x.pc.sub(pa, pb))
		la, wa, oka := x.bitsOf(pa)
		lb, wb, okb := x.bitsOf(pb)
		two64 := new(big.Int).Lsh(big.NewInt(1), 64)
		switch {
		case oka && okb && !wa && !wb:
			lt = x.ec.Ult(la, lb)
		case oka && okb && wa && !wb:
			lt = x.ec.False
		case oka && okb && !wa && wb:
			lt = x.ec.True
		case oka && !wa && b.k != nil && b.k.Cmp(two64) >= 0:
			lt = x.ec.True
		case okb && !wb && a.k != nil && a.k.Cmp(two64) >= 0:
			lt = x.ec.False
		default:
			ia, ib := x.pc.intern(pa), x.pc.intern(pb)
			lt = x.ec.BVar(fmt.Sprintf("bigless#%d#%d", ia.id, ib.id))
		}
	}
	return x.ec.Ite(eq, x.ec.K(64, 0), x.ec.Ite(lt, x.ec.K(64, ^uint64(0)), x.ec.K(64, 1)))
}

// bigBE is b as at least n big-endian bytes.
func (x *Exec) bigBE(b *BIG, n int) []*Expr {
	if b.be != nil {
		return b.be
	}
	if b.k != nil {
		if b.k.Sign() < 0 {
			panic(unsupported("bytes of a negative integer"))
		}
		k := b.k.Bytes()
		for len(k) < n {
			k = append([]byte{0}, k...)
		}
		return x.bytesToExprs(concreteBytes(k))
	}
	if b.fe.f == fieldL {
		le := x.scalarBytes(b.fe)
		out := make([]*Expr, 32)
		for i := range le {
			out[31-i] = le[i]
		}
		return out
	}
	return x.ec.ObjBytes(x.ec.Obj("bigq", 32, x.norm(b.fe), nil, ""))
}

func (x *Exec) lexLess(a, b []*Expr) *Expr {
	lt := x.ec.False
	for i := len(a) - 1; i >= 0; i-- {
		lt = x.ec.Or(x.ec.Ult(a[i], b[i]), x.ec.And(x.ec.Eq(a[i], b[i]), lt))
	}
	return lt
}

func (x *Exec) newBig(b *BIG) value {
	p := new(value)
	*p = b
	return p
}

func (x *Exec) setBig(recv value, b *BIG) value {
	x.store(x.ptr(recv), b)
	return recv
}

func init() {
	B := "(*math/big.Int)."
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.newBig(x.bigFromInt(a[0], true))
	}, "math/big.NewInt")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.setBig(a[0], x.bigFromInt(a[1], true)) }, B+"SetInt64")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.setBig(a[0], x.bigFromInt(a[1], false)) }, B+"SetUint64")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.setBig(a[0], x.bigOf(a[1])) }, B+"Set")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		bs := x.byteSlice(a[1])
		if k, ok := asConcrete(bs); ok {
			return x.setBig(a[0], &BIG{k: new(big.Int).SetBytes(k)})
		}
		if o := objAt(bs, 0); o != nil && o.n == len(bs) && o.kind == "bigq" {
			return x.setBig(a[0], &BIG{fe: o.poly})
		}
		return x.setBig(a[0], &BIG{be: append([]*Expr(nil), bs...)})
	}, B+"SetBytes")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := x.bigOf(a[0])
		if b.k != nil {
			return concreteBytes(b.k.Bytes())
		}
		panic(unsupported("Bytes of a symbolic big.Int"))
	}, B+"Bytes")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := x.bigOf(a[0])
		d := a[1].([]value)
		be := x.bigBE(b, len(d))
		if len(be) > len(d) {
			panic(unsupported("FillBytes into a short buffer"))
		}
		for i := range d {
			j := i - (len(d) - len(be))
			if j < 0 {
				x.store(&d[i], uint64(0))
			} else {
				x.store(&d[i], conc(be[j]))
			}
		}
		return a[1]
	}, B+"FillBytes")
	arith := func(op string) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			p, q := x.bigOf(a[1]), x.bigOf(a[2])
			if p.k != nil && q.k != nil {
				r := new(big.Int)
				switch op {
				case "add":
					r.Add(p.k, q.k)
				case "sub":
					r.Sub(p.k, q.k)
				case "mul":
					r.Mul(p.k, q.k)
				}
				return x.setBig(a[0], &BIG{k: r})
			}
			f := x.bigField(p, q)
			pp, qq := x.bigPoly(p, f), x.bigPoly(q, f)
			var r *Poly
			switch op {
			case "add":
				r = x.pc.add(pp, qq)
			case "sub":
				r = x.pc.sub(pp, qq)
			case "mul":
				r = x.pc.mul(pp, qq)
			}
			res := &BIG{fe: r, nc: true}
			if op != "sub" && x.small(p) && x.small(q) {
				if _, w, ok := x.bitsOf(r); ok && !w {
					res.nc = false
				}
			}
			if res.nc && op != "mul" {
				u, v := x.signMag(p), x.signMag(q)
				if u != nil && v != nil && u.neg == x.ec.False && v.neg == x.ec.False && u.hi == x.ec.K(64, 0) && v.hi == x.ec.K(64, 0) {
					if op == "add" {
						lo := x.ec.Add(u.lo, v.lo)
						res.sm = &signMag{x.ec.False, x.ec.Ite(x.ec.Ult(lo, u.lo), x.ec.K(64, 1), x.ec.K(64, 0)), lo}
					} else {
						neg := x.ec.Ult(u.lo, v.lo)
						res.sm = &signMag{neg, x.ec.K(64, 0), x.ec.Ite(neg, x.ec.Sub(v.lo, u.lo), x.ec.Sub(u.lo, v.lo))}
					}
				}
			}
			return x.setBig(a[0], res)
		}
	}
	reg(arith("add"), B+"Add")
	reg(arith("sub"), B+"Sub")
	reg(arith("mul"), B+"Mul")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p, m := x.bigOf(a[1]), x.bigOf(a[2])
		if p.k != nil && m.k != nil {
			if m.k.Sign() == 0 {
				x.tpanic("division by zero")
			}
			return x.setBig(a[0], &BIG{k: new(big.Int).Mod(p.k, m.k)})
		}
		if m.k != nil && p.fe != nil && m.k.Cmp(p.fe.f.p) == 0 {
			return x.setBig(a[0], &BIG{fe: p.fe})
		}
		if m.k != nil && p.be != nil {
			for _, f := range []*Field{fieldL, fieldQ} {
				if m.k.Cmp(f.p) == 0 {
					return x.setBig(a[0], &BIG{fe: x.bigPoly(p, f)})
				}
			}
		}
		panic(unsupported("Mod of symbolic integers"))
	}, B+"Mod")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p, e := x.bigOf(a[1]), x.bigOf(a[2])
		var m *BIG
		if mp, ok := a[3].(*value); ok && mp != nil {
			m = x.bigOf(a[3])
		}
		if e.k == nil || e.k.Sign() < 0 {
			panic(unsupported("Exp with symbolic exponent"))
		}
		if p.k != nil && (m == nil || m.k != nil) {
			if m == nil && e.k.BitLen() > 24 {
				panic(unsupported("huge Exp"))
			}
			var mk *big.Int
			if m != nil {
				mk = m.k
			}
			return x.setBig(a[0], &BIG{k: new(big.Int).Exp(p.k, e.k, mk)})
		}
		f := x.bigField(p, p)
		if e.k.BitLen() > 24 {
			panic(unsupported("huge Exp"))
		}
		base := x.bigPoly(p, f)
		r := x.pc.kint(f, 1)
		for n := e.k.Int64(); n > 0; n-- {
			r = x.pc.mul(r, base)
		}
		nc := !(m != nil && m.k != nil && m.k.Cmp(f.p) == 0)
		if nc && m != nil && m.k != nil && m.k.Sign() != 0 {
			panic(unsupported("Exp modulo another number"))
		}
		return x.setBig(a[0], &BIG{fe: r, nc: nc})
	}, B+"Exp")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p, m := x.bigOf(a[1]), x.bigOf(a[2])
		if p.k != nil && m.k != nil {
			r := new(big.Int).ModInverse(p.k, m.k)
			if r == nil {
				return (*value)(nil)
			}
			return x.setBig(a[0], &BIG{k: r})
		}
		for _, f := range []*Field{fieldL, fieldQ} {
			if m.k == nil || m.k.Cmp(f.p) != 0 {
				continue
			}
			q := x.bigPoly(p, f)
			if x.branch(x.fzero(q)) {
				return (*value)(nil)
			}
			return x.setBig(a[0], &BIG{fe: x.inverse(x.norm(q))})
		}
		panic(unsupported("ModInverse of symbolic integers"))
	}, B+"ModInverse")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p := x.bigOf(a[1])
		if p.k != nil {
			return x.setBig(a[0], &BIG{k: new(big.Int).Neg(p.k)})
		}
		f := x.bigField(p, p)
		return x.setBig(a[0], &BIG{fe: x.pc.neg(x.bigPoly(p, f)), nc: true})
	}, B+"Neg")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return conc(x.bigCmp(x.bigOf(a[0]), x.bigOf(a[1])))
	}, B+"Cmp", B+"CmpAbs")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := x.bigOf(a[0])
		if b.k != nil {
			return uint64(int64(b.k.Sign()))
		}
		return conc(x.bigCmp(b, &BIG{k: new(big.Int)}))
	}, B+"Sign")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return conc(x.bigLow(x.bigOf(a[0]))) }, B+"Uint64", B+"Int64")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := x.bigOf(a[0])
		if b.k != nil {
			return b.k.IsUint64()
		}
		if b.fe != nil && !b.nc {
			if _, w, ok := x.bitsOf(x.norm(b.fe)); ok {
				return !w
			}
		}
		if m := x.signMag(b); m != nil {
			return conc(x.ec.And(x.ec.Not(m.neg), x.ec.Eq(m.hi, x.ec.K(64, 0))))
		}
		panic(unsupported("IsUint64 of a symbolic integer"))
	}, B+"IsUint64")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := x.bigOf(a[0])
		if b.k != nil {
			return uint64(b.k.BitLen())
		}
		if b.fe != nil && !b.nc {
			low, w, ok := x.bitsOf(x.norm(b.fe))
			if ok && !w {
				r := x.ec.K(64, 0)
				for i := uint8(0); i < 64; i++ {
					r = x.ec.Ite(x.ec.Eq(x.ec.Extract(low, i, i), x.ec.K(1, 1)), x.ec.K(64, uint64(i)+1), r)
				}
				return conc(r)
			}
			if ok && w {
				// at least 65 bits, at most 253
				n := x.ec.Var(64, fmt.Sprintf("bitlen#%d", x.pc.intern(x.norm(b.fe)).id))
				x.assume(x.ec.And(x.ec.Ult(x.ec.K(64, 64), n), x.ec.Ult(n, x.ec.K(64, 254))))
				return n
			}
		}
		if m := x.signMag(b); m != nil {
			r := x.ec.K(64, 0)
			for i := 0; i < 128; i++ {
				e, j := m.lo, uint8(i)
				if i > 63 {
					e, j = m.hi, uint8(i-64)
				}
				r = x.ec.Ite(x.ec.Eq(x.ec.Extract(e, j, j), x.ec.K(1, 1)), x.ec.K(64, uint64(i)+1), r)
			}
			return conc(r)
		}
		panic(unsupported("BitLen of a symbolic integer"))
	}, B+"BitLen")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := x.bigOf(a[0])
		i, ok := a[1].(uint64)
		if !ok {
			panic(unsupported("Bit at a symbolic position"))
		}
		if b.k != nil {
			return uint64(b.k.Bit(int(i)))
		}
		if b.fe != nil && !b.nc {
			if low, w, ok := x.bitsOf(x.norm(b.fe)); ok {
				if i < 64 {
					return conc(x.ec.ZExt(x.ec.Extract(low, uint8(i), uint8(i)), 64))
				}
				if !w {
					return uint64(0)
				}
			}
		}
		panic(unsupported("Bit of a symbolic integer"))
	}, B+"Bit")
	shift := func(left bool) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			b := x.bigOf(a[1])
			n, ok := a[2].(uint64)
			if !ok {
				panic(unsupported("shift by a symbolic amount"))
			}
			if b.k != nil {
				if left {
					if n > 1<<20 {
						panic(unsupported("huge shift"))
					}
					return x.setBig(a[0], &BIG{k: new(big.Int).Lsh(b.k, uint(n))})
				}
				return x.setBig(a[0], &BIG{k: new(big.Int).Rsh(b.k, uint(n))})
			}
			if b.fe != nil && !b.nc {
				if low, w, ok := x.bitsOf(x.norm(b.fe)); ok && !w && !left {
					return x.setBig(a[0], &BIG{fe: x.polyOfBits(b.fe.f, x.ec.LShrK(low, n))})
				}
			}
			panic(unsupported("shift of a symbolic integer"))
		}
	}
	reg(shift(true), B+"Lsh")
	reg(shift(false), B+"Rsh")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		s, ok := a[1].(string)
		base, ok2 := a[2].(uint64)
		if !ok || !ok2 {
			panic(unsupported("SetString of symbolic text"))
		}
		k, good := new(big.Int).SetString(s, int(base))
		if !good {
			return tuple{(*value)(nil), false}
		}
		return tuple{x.setBig(a[0], &BIG{k: k}), true}
	}, B+"SetString")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		if b := x.bigOf(a[0]); b != nil && b.k != nil && len(a) == 1 {
			return b.k.String()
		} else if b != nil && b.fe != nil && b.fe.f == fieldL {
			return mkString(exprsToBytes(x.b64text(x.scalarBytes(b.fe))))
		}
		return "<int>"
	}, B+"String", B+"Text")
}

func (x *Exec) bigField(a, b *BIG) *Field {
	if a.fe != nil {
		return a.fe.f
	}
	if b.fe != nil {
		return b.fe.f
	}
	panic(unsupported("arithmetic on an integer given by symbolic bytes"))
}

func (x *Exec) bigFromInt(v value, signed bool) *BIG {
	switch k := v.(type) {
	case uint64:
		if signed {
			return &BIG{k: big.NewInt(int64(k))}
		}
		return &BIG{k: new(big.Int).SetUint64(k)}
	case *Expr:
		if signed && !x.ec.nonneg(k) {
			if x.branch(x.ec.Slt(k, x.ec.K(64, 0))) {
				return &BIG{fe: x.pc.neg(x.polyOfBits(fieldL, x.ec.Neg(k))), nc: true}
			}
		}
		return &BIG{fe: x.polyOfBits(fieldL, k)}
	}
	panic(unsupported("integer expected, got %T", v))
}

// polyOfBits is the unsigned value of e as a sum of its bits.
func (x *Exec) polyOfBits(f *Field, e *Expr) *Poly {
	var ts []term
	p := x.pc.kint(f, 0)
	for i := uint8(0); i < e.w; i++ {
		b := x.ec.Extract(e, i, i)
		c := x.ec.Eq(b, x.ec.K(1, 1))
		if c == x.ec.False {
			continue
		}
		k := f.norm(new(big.Int).Lsh(big.NewInt(1), uint(i)))
		if c == x.ec.True {
			p = x.pc.add(p, x.pc.konst(f, k.big()))
			continue
		}
		q := x.ind(f, c)
		for _, t := range q.ts {
			ts = append(ts, term{t.m, f.mul(t.c, k)})
		}
	}
	return x.norm(x.pc.add(p, x.pc.fromTerms(f, ts)))
}

var _ types.Type
