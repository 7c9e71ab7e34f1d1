package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"
	"golang.org/x/tools/go/ssa"
)

// Models of go-ristretto: scalars are exact field polynomials, points are their discrete logarithms.

type intrinsic func(x *Exec, fn *ssa.Function, args []value) value

var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

const rst = "github.com/bwesterb/go-ristretto"

func (x *Exec) ptr(v value) *value {
	p, ok := v.(*value)
	if !ok {
		panic(unsupported("pointer expected, got %T", v))
	}
	if p == nil {
		x.tpanic("invalid memory address or nil pointer dereference")
	}
	x.raceRead(p)
	return p
}

func (x *Exec) fe(v value) *Poly {
	f, ok := (*x.ptr(v)).(*FE)
	if !ok {
		panic(unsupported("scalar expected, got %T", *x.ptr(v)))
	}
	return x.norm(f.p)
}

func (x *Exec) pt(v value) *PT {
	f, ok := (*x.ptr(v)).(*PT)
	if !ok {
		panic(unsupported("point expected, got %T", *x.ptr(v)))
	}
	if len(x.subst) > 0 && !f.poison {
		return &PT{p: x.norm(f.p)}
	}
	return f
}

func (x *Exec) setFE(recv value, p *Poly) value {
	x.store(x.ptr(recv), &FE{x.norm(p)})
	return recv
}

func (x *Exec) setPT(recv value, p *PT) value {
	x.store(x.ptr(recv), p)
	return recv
}

func scalarFromBig(k *big.Int) *ristretto.Scalar {
	var s ristretto.Scalar
	s.SetBigInt(new(big.Int).Mod(k, fieldL.p))
	return &s
}

func leBytes(k *big.Int) []byte {
	var b [32]byte
	k.FillBytes(b[:])
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b[:]
}

func fromLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// scalarBytes is the canonical encoding of p.
func (x *Exec) scalarBytes(p *Poly) []*Expr {
	p = x.norm(p)
	if k, ok := p.isConst(); ok {
		return x.bytesToExprs(concreteBytes(leBytes(fieldL.canon(k))))
	}
	return x.ec.ObjBytes(x.ec.Obj("scalar", 32, p, nil, ""))
}

func (x *Exec) pointBytes(p *PT) []*Expr {
	q := x.pc.kint(fieldL, 0)
	if !p.poison {
		q = x.norm(p.p)
	}
	if k, ok := q.isConst(); ok {
		var pt ristretto.Point
		pt.ScalarMultBase(scalarFromBig(k.big()))
		if k.isZero() {
			pt.SetZero()
		}
		return x.bytesToExprs(concreteBytes(pt.Bytes()))
	}
	return x.ec.ObjBytes(x.ec.Obj("point", 32, q, nil, ""))
}

func (x *Exec) exprKey(es []*Expr) string {
	b := make([]byte, 0, len(es)*4)
	for _, e := range es {
		b = append(b, byte(e.id), byte(e.id>>8), byte(e.id>>16), byte(e.id>>24))
	}
	return string(b)
}

// renorm rewrites encoded objects with what the path has learned, so that equal inputs look equal.
func (x *Exec) renorm(es []*Expr) []*Expr {
	if len(x.subst) == 0 {
		return es
	}
	var out []*Expr
	for i := 0; i < len(es); {
		o := objAt(es, i)
		if o == nil {
			if out != nil {
				out = append(out, es[i])
			}
			i++
			continue
		}
		var nb []*Expr
		switch o.kind {
		case "scalar":
			nb = x.scalarBytes(o.poly)
		case "point":
			nb = x.pointBytes(&PT{p: o.poly})
		}
		if nb != nil && nb[0] != es[i] {
			if out == nil {
				out = append(out, es[:i]...)
			}
			out = append(out, nb...)
		} else if out != nil {
			out = append(out, es[i:i+o.n]...)
		}
		i += o.n
	}
	if out == nil {
		return es
	}
	return out
}

// oracle models a hash into a field (or a group, through the discrete logarithm): one fresh value per distinct input.
func (x *Exec) oracle(domain string, in []*Expr, f *Field) *PVar {
	in = x.renorm(in)
	key := domain + "\x00" + x.exprKey(in)
	if i, ok := x.hashKey[key]; ok {
		return i
	}
	var open []*hashEnt
	for _, e := range x.hashes[domain] {
		if len(e.in) != len(in) {
			continue
		}
		eq := x.eqExprs(in, x.renorm(e.in))
		if eq == x.ec.False {
			continue
		}
		if x.lazyH && !x.genericH && eq != x.ec.True {
			// left open: the outputs are equal exactly when the inputs are (see fzero)
			if v, ok := x.lookup(eq); !ok || !v {
				if !ok {
					open = append(open, e)
				}
				continue
			}
		}
		if x.branch(eq) {
			if x.spec == 0 {
				x.hashKey[key] = e.v
			}
			return e.v
		}
	}
	if x.spec > 0 {
		panic(specAbort{})
	}
	mode := "g"
	if !x.genericH {
		mode = "o"
	}
	name := x.fresh("H" + mode + "." + domain)
	v := x.pc.newVar(name, f)
	v.nonzero = true
	v.generic = x.genericH
	if x.fixH < 0 || domain == "scalar" && x.fixH > 0 && len(x.hashes[domain]) >= x.fixH {
		v.fix = fixedValue(name, f)
	}
	x.hashes[domain] = append(x.hashes[domain], &hashEnt{in: in, v: v})
	x.hashKey[key] = v
	for _, e := range open {
		x.openH[[2]int32{e.v.id, v.id}] = true
	}
	x.hashIn[v.id] = &hashEnt{in: in, v: v, dom: domain}
	return v
}

// hashPoly is the value of a hash output: a variable, or a constant where the harness fixed the later challenges.
func (x *Exec) hashPoly(v *PVar) *Poly {
	if v.fix != nil {
		return x.pc.konst(v.f, v.fix)
	}
	return x.pc.pvar(v)
}

func (x *Exec) byteSlice(v value) []*Expr {
	s, ok := v.([]value)
	if !ok {
		panic(unsupported("byte slice expected, got %T", v))
	}
	return x.bytesToExprs(s)
}

func (x *Exec) byteArrayPtr(v value) []value {
	a, ok := (*x.ptr(v)).(array)
	if !ok {
		panic(unsupported("byte array expected"))
	}
	return []value(a)
}

// decodeScalar is Scalar.SetBytes on 32 bytes.
func (x *Exec) decodeScalar(b []*Expr) *Poly {
	if o := objAt(b, 0); o != nil && o.kind == "scalar" && o.n == 32 {
		return x.norm(o.poly)
	}
	if k, ok := asConcrete(b); ok {
		k[31] &= 31
		return x.pc.konst(fieldL, new(big.Int).Mod(fromLE(k), fieldL.p))
	}
	name := "decS#" + fmt.Sprintf("%x", x.exprKey(b))
	v := x.pc.newVar(name, fieldL)
	v.dec = b
	v.decKind = "scalar"
	x.decUsed = append(x.decUsed, v)
	return x.norm(x.pc.pvar(v))
}

// decodePoint is Point.SetBytes: ok reports whether the bytes are valid.
func (x *Exec) decodePoint(b []*Expr) (*PT, bool) {
	if o := objAt(b, 0); o != nil && o.kind == "point" && o.n == 32 {
		return &PT{p: x.norm(o.poly)}, true
	}
	if k, ok := asConcrete(b); ok {
		var buf [32]byte
		copy(buf[:], k)
		var p ristretto.Point
		if !p.SetBytes(&buf) {
			return &PT{p: x.pc.kint(fieldL, 0), poison: true}, false
		}
		return &PT{p: x.constPoint(&p)}, true
	}
	key := fmt.Sprintf("%x", x.exprKey(b))
	valid := x.ec.BVar("ptvalid#" + key)
	x.validity = append(x.validity, validEnt{valid, "point", b})
	if !x.branch(valid) {
		return &PT{p: x.pc.kint(fieldL, 0), poison: true}, false
	}
	v := x.pc.newVar("decP#"+key, fieldL)
	v.dec = b
	v.decKind = "point"
	x.decUsed = append(x.decUsed, v)
	return &PT{p: x.norm(x.pc.pvar(v))}, true
}

// constPoint gives the discrete logarithm of a concrete point: known for small multiples of the base, else a symbol.
func (x *Exec) constPoint(p *ristretto.Point) *Poly {
	var z, b ristretto.Point
	z.SetZero()
	b.SetBase()
	if z.Equals(p) {
		return x.pc.kint(fieldL, 0)
	}
	if b.Equals(p) {
		return x.pc.kint(fieldL, 1)
	}
	v := x.pc.newVar(fmt.Sprintf("ptconst#%x", p.Bytes()), fieldL)
	v.nonzero = true
	v.constPt = p.Bytes()
	return x.pc.pvar(v)
}

// inverse of a scalar; zero maps to zero.
func (x *Exec) inverse(p *Poly) *Poly {
	p = x.norm(p)
	if k, ok := p.isConst(); ok {
		if k.isZero() {
			return p
		}
		return x.pc.konst(p.f, p.f.inv(k).big())
	}
	if len(p.ts) == 1 {
		nz := true
		for _, y := range p.ts[0].m.vs {
			if !x.pc.vars[y.v].nonzero {
				nz = false
			}
		}
		if nz {
			if q, ok := x.pc.invMono(p); ok {
				return q
			}
		}
	}
	if x.branch(x.fzero(p)) {
		return x.pc.kint(p.f, 0)
	}
	p = x.norm(p)
	if len(p.ts) == 1 {
		if q, ok := x.pc.invMono(p); ok {
			return q
		}
	}
	// a fresh symbol for p, replaced everywhere from now on where possible: p = name
	ip := x.pc.intern(p)
	v := x.pc.newVar(fmt.Sprintf("invof#%d", ip.id), p.f)
	v.nonzero = true
	v.invOf = p
	// v*p = 1
	x.assume(x.ec.fz(x.pc.sub(x.pc.mul(x.pc.pvar(v), p), x.pc.kint(p.f, 1))))
	return x.pc.pvar(v)
}

func fixedValue(name string, f *Field) *big.Int {
	d := sha256.Sum256([]byte(name))
	k := new(big.Int).SetBytes(d[:])
	return k.Mod(k, f.p)
}

func (x *Exec) randVar(base string, f *Field) *Poly {
	name := x.fresh(base)
	if x.fixH < 0 {
		return x.pc.konst(f, fixedValue(name, f))
	}
	v := x.pc.newVar(name, f)
	v.generic = true
	v.nonzero = true
	v.rnd = true
	return x.pc.pvar(v)
}

func (x *Exec) bool32(c *Expr, yes, no uint64) value {
	return conc(x.ec.Ite(c, x.ec.K(32, yes), x.ec.K(32, no)))
}

func init() {
	S := "(*" + rst + ".Scalar)."
	P := "(*" + rst + ".Point)."
	bin := func(f func(x *Exec, a, b *Poly) *Poly) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			return x.setFE(a[0], f(x, x.fe(a[1]), x.fe(a[2])))
		}
	}
	reg(bin(func(x *Exec, a, b *Poly) *Poly { return x.pc.add(a, b) }), S+"Add")
	reg(bin(func(x *Exec, a, b *Poly) *Poly { return x.pc.sub(a, b) }), S+"Sub")
	reg(bin(func(x *Exec, a, b *Poly) *Poly { return x.pc.mul(a, b) }), S+"Mul")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setFE(a[0], x.pc.add(x.pc.mul(x.fe(a[1]), x.fe(a[2])), x.fe(a[3])))
	}, S+"MulAdd")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setFE(a[0], x.pc.sub(x.pc.mul(x.fe(a[1]), x.fe(a[2])), x.fe(a[3])))
	}, S+"MulSub")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.setFE(a[0], x.pc.neg(x.fe(a[1]))) }, S+"Neg")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.setFE(a[0], x.fe(a[1])) }, S+"Set")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p := x.fe(a[1])
		return x.setFE(a[0], x.pc.mul(p, p))
	}, S+"Square")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.setFE(a[0], x.pc.kint(fieldL, 0)) }, S+"SetZero")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.setFE(a[0], x.pc.kint(fieldL, 1)) }, S+"SetOne")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.setFE(a[0], x.inverse(x.fe(a[1]))) }, S+"Inverse")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		if x.spec > 0 {
			panic(specAbort{})
		}
		var p *Poly
		if len(x.script) > 0 {
			p, x.script = x.script[0], x.script[1:]
		} else {
			p = x.randVar("rnd", fieldL)
		}
		x.draws = append(x.draws, p)
		return x.setFE(a[0], p)
	}, S+"Rand")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setFE(a[0], x.hashPoly(x.oracle("scalar", x.byteSlice(a[1]), fieldL)))
	}, S+"Derive")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setFE(a[0], x.pc.pvar(x.oracle("scalarShort", x.byteSlice(a[1]), fieldL)))
	}, S+"DeriveShort")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setFE(a[0], x.pc.pvar(x.oracle("reduce64", x.bytesToExprs(x.byteArrayPtr(a[1])), fieldL)))
	}, S+"SetReduced")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return exprsToBytes(x.scalarBytes(x.fe(a[0])))
	}, S+"Bytes")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return tuple{exprsToBytes(x.scalarBytes(x.fe(a[0]))), iface{}}
	}, S+"MarshalBinary")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := exprsToBytes(x.scalarBytes(x.fe(a[0])))
		d := x.byteArrayPtr(a[1])
		for i := range b {
			x.store(&d[i], b[i])
		}
		return a[0]
	}, S+"BytesInto")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setFE(a[0], x.decodeScalar(x.bytesToExprs(x.byteArrayPtr(a[1]))))
	}, S+"SetBytes")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := x.byteSlice(a[1])
		if len(b) != 32 {
			return x.mkErr("ristretto.Scalar should be 32 bytes")
		}
		x.setFE(a[0], x.decodeScalar(b))
		return iface{}
	}, S+"UnmarshalBinary")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.bool32(x.fzero(x.fe(a[0])), 0, 1)
	}, S+"IsNonZeroI")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.bool32(x.fzero(x.pc.sub(x.fe(a[0]), x.fe(a[1]))), 1, 0)
	}, S+"EqualsI")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return conc(x.fzero(x.pc.sub(x.fe(a[0]), x.fe(a[1]))))
	}, S+"Equals")
	ref := func(v value) value {
		if p, ok := v.(*value); ok {
			return p
		}
		p := new(value)
		*p = v
		return p
	}
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return mkString(exprsToBytes(x.b64text(x.scalarBytes(x.fe(ref(a[0]))))))
	}, "("+rst+".Scalar).String", S+"String")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return mkString(exprsToBytes(x.b64text(x.pointBytes(x.pt(ref(a[0]))))))
	}, "("+rst+".Point).String", P+"String")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return tuple{exprsToBytes(x.b64text(x.scalarBytes(x.fe(a[0])))), iface{}}
	}, S+"MarshalText")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return tuple{exprsToBytes(x.b64text(x.pointBytes(x.pt(a[0])))), iface{}}
	}, P+"MarshalText")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p := x.fe(a[0])
		r := new(value)
		if k, ok := p.isConst(); ok {
			*r = &BIG{k: fieldL.canon(k)}
		} else {
			*r = &BIG{fe: p}
		}
		return r
	}, S+"BigInt")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := x.bigOf(a[1])
		return x.setFE(a[0], x.bigPoly(b, fieldL))
	}, S+"SetBigInt")

	// points
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setPT(a[0], &PT{p: x.pc.kint(fieldL, 0)})
	}, P+"SetZero")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setPT(a[0], &PT{p: x.pc.kint(fieldL, 1)})
	}, P+"SetBase")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.setPT(a[0], x.pt(a[1])) }, P+"Set")
	addsub := func(sub bool) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			p, q := x.pt(a[1]), x.pt(a[2])
			if p.poison || q.poison {
				return x.setPT(a[0], &PT{p: x.pc.kint(fieldL, 0), poison: true})
			}
			if sub {
				return x.setPT(a[0], &PT{p: x.pc.sub(p.p, q.p)})
			}
			return x.setPT(a[0], &PT{p: x.pc.add(p.p, q.p)})
		}
	}
	reg(addsub(false), P+"Add")
	reg(addsub(true), P+"Sub")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p := x.pt(a[1])
		if p.poison {
			return x.setPT(a[0], p)
		}
		return x.setPT(a[0], &PT{p: x.pc.neg(p.p)})
	}, P+"Neg")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p, s := x.pt(a[1]), x.fe(a[2])
		if p.poison {
			if x.branch(x.fzero(s)) {
				return x.setPT(a[0], &PT{p: x.pc.kint(fieldL, 0)})
			}
			return x.setPT(a[0], p)
		}
		return x.setPT(a[0], &PT{p: x.pc.mul(p.p, s)})
	}, P+"ScalarMult", P+"PublicScalarMult")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setPT(a[0], &PT{p: x.fe(a[1])})
	}, P+"ScalarMultBase", P+"PublicScalarMultBase")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setPT(a[0], &PT{p: x.hashPoly(x.oracle("point", x.byteSlice(a[1]), fieldL))})
	}, P+"Derive")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setPT(a[0], &PT{p: x.pc.pvar(x.oracle("pointDalek", x.byteSlice(a[1]), fieldL))})
	}, P+"DeriveDalek")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setPT(a[0], &PT{p: x.pc.pvar(x.oracle("pointElligator", x.bytesToExprs(x.byteArrayPtr(a[1])), fieldL))})
	}, P+"SetElligator")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.setPT(a[0], &PT{p: x.randVar("rndP", fieldL)})
	}, P+"Rand")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return exprsToBytes(x.pointBytes(x.pt(a[0])))
	}, P+"Bytes")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return tuple{exprsToBytes(x.pointBytes(x.pt(a[0]))), iface{}}
	}, P+"MarshalBinary")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := exprsToBytes(x.pointBytes(x.pt(a[0])))
		d := x.byteArrayPtr(a[1])
		for i := range b {
			x.store(&d[i], b[i])
		}
		return a[0]
	}, P+"BytesInto")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p, ok := x.decodePoint(x.bytesToExprs(x.byteArrayPtr(a[1])))
		x.setPT(a[0], p)
		return ok
	}, P+"SetBytes")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := x.byteSlice(a[1])
		if len(b) != 32 {
			return x.mkErr("ristretto.Point should be 32 bytes")
		}
		p, ok := x.decodePoint(b)
		x.setPT(a[0], p)
		if !ok {
			return x.mkErr("Buffer does not encode a ristretto.Point")
		}
		return iface{}
	}, P+"UnmarshalBinary")
	peq := func(x *Exec, a []value) *Expr {
		p, q := x.pt(a[0]), x.pt(a[1])
		if p.poison || q.poison {
			return x.ec.True
		}
		return x.fzero(x.pc.sub(p.p, q.p))
	}
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return conc(peq(x, a)) }, P+"Equals")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.bool32(peq(x, a), 1, 0) }, P+"EqualsI")
}
