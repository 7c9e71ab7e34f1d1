package main

import (
	"fmt"
	"go/types"
	"math/big"

	"github.com/dusk-network/bn256"
	"golang.org/x/tools/go/ssa"
)

// Models of bn256: elements of the three groups are discrete logarithms with respect to the library's generators, so the
// pairing is multiplication. Elements are taken from the prime-order subgroups.

const bnp = "github.com/dusk-network/bn256"

func (x *Exec) geCell(v value) *value {
	st, ok := (*x.ptr(v)).(structure)
	if !ok || len(st) < 1 {
		panic(unsupported("bn256 element expected"))
	}
	return &st[0]
}

// ge reads a group element; an element never assigned has a nil pointer inside.
func (x *Exec) ge(v value) *Poly {
	c := x.geCell(v)
	p, ok := (*c).(*value)
	if !ok || p == nil {
		x.tpanic("invalid memory address or nil pointer dereference")
	}
	x.raceRead(p)
	return x.norm((*p).(*GE).p)
}

// affine: the library's encoders normalise the coordinates in place.
func (x *Exec) affine(v value, g string) {
	if !x.tracked() || g == "gt" {
		return
	}
	if p, ok := (*x.geCell(v)).(*value); ok && p != nil {
		x.touchKey(p, true)
	}
}

func (x *Exec) geNil(v value) bool {
	p, ok := (*x.geCell(v)).(*value)
	return !ok || p == nil
}

func (x *Exec) setGE(recv value, g string, p *Poly) value {
	c := x.geCell(recv)
	in, _ := (*c).(*value)
	if in == nil {
		in = new(value)
		*in = &GE{g: g, p: x.norm(p)}
		x.store(c, in)
		return recv
	}
	x.store(in, &GE{g: g, p: x.norm(p)})
	return recv
}

func (x *Exec) newGE(g string, p *Poly) value {
	in := new(value)
	*in = &GE{g: g, p: x.norm(p)}
	out := new(value)
	*out = structure{in}
	return out
}

func geBytesNative(g string, k *big.Int) []byte {
	switch g {
	case "g1":
		return new(bn256.G1).ScalarBaseMult(k).Marshal()
	case "g1c":
		return new(bn256.G1).ScalarBaseMult(k).Compress()
	case "g2":
		return new(bn256.G2).ScalarBaseMult(k).Marshal()
	}
	e := bn256.Pair(new(bn256.G1).ScalarBaseMult(k), new(bn256.G2).ScalarBaseMult(big.NewInt(1)))
	return e.Marshal()
}

var geSize = map[string]int{"g1": 64, "g1c": 33, "g2": 129, "gt": 384}

func (x *Exec) geBytes(g string, p *Poly) []*Expr {
	p = x.norm(p)
	if g == "g2" {
		if x.branch(x.fzero(p)) {
			return []*Expr{x.ec.K(8, 0)}
		}
		p = x.norm(p)
	}
	if k, ok := p.isConst(); ok {
		return x.bytesToExprs(concreteBytes(geBytesNative(g, fieldQ.canon(k))))
	}
	return x.ec.ObjBytes(x.ec.Obj(g, geSize[g], p, nil, ""))
}

func (x *Exec) geConst(g string, enc []byte) *Poly {
	for k := int64(0); k < 3; k++ {
		if string(geBytesNative(g, big.NewInt(k))) == string(enc) {
			return x.pc.kint(fieldQ, k)
		}
	}
	v := x.pc.newVar(fmt.Sprintf("ptconst%s#%x", g, enc), fieldQ)
	v.nonzero = true
	v.constPt = enc
	return x.pc.pvar(v)
}

// decodeGE models Unmarshal/Decompress of exactly sized bytes.
func (x *Exec) decodeGE(kind string, b []*Expr) (*Poly, bool) {
	if o := objAt(b, 0); o != nil && o.kind == kind && o.n == len(b) {
		p := x.norm(o.poly)
		if kind == "g1c" && x.branch(x.fzero(p)) {
			return nil, false
		}
		return x.norm(p), true
	}
	if k, ok := asConcrete(b); ok {
		switch kind {
		case "g1":
			g := new(bn256.G1)
			if _, err := g.Unmarshal(k); err != nil {
				return nil, false
			}
			return x.geConst("g1", g.Marshal()), true
		case "g1c":
			g, err := bn256.Decompress(k)
			if err != nil {
				return nil, false
			}
			return x.geConst("g1", g.Marshal()), true
		case "g2":
			g := new(bn256.G2)
			if _, err := g.Unmarshal(k); err != nil {
				return nil, false
			}
			return x.geConst("g2", g.Marshal()), true
		}
		panic(unsupported("decoding a concrete %s", kind))
	}
	key := fmt.Sprintf("%x", x.exprKey(b))
	valid := x.ec.BVar("gevalid" + kind + "#" + key)
	x.validity = append(x.validity, validEnt{valid, kind, b})
	if !x.branch(valid) {
		return nil, false
	}
	v := x.pc.newVar("decG"+kind+"#"+key, fieldQ)
	v.dec = b
	v.decKind = kind
	x.decUsed = append(x.decUsed, v)
	return x.norm(x.pc.pvar(v)), true
}

func init() {
	for _, G := range []struct{ T, g string }{{"G1", "g1"}, {"G2", "g2"}, {"GT", "gt"}} {
		g := G.g
		pre := "(*" + bnp + "." + G.T + ")."
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			return x.setGE(a[0], g, x.bigPoly(x.bigOf(a[1]), fieldQ))
		}, pre+"ScalarBaseMult")
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			return x.setGE(a[0], g, x.pc.mul(x.ge(a[1]), x.bigPoly(x.bigOf(a[2]), fieldQ)))
		}, pre+"ScalarMult")
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			u, v := x.ge(a[1]), x.ge(a[2])
			if r, ok := (*x.geCell(a[0])).(*value); ok && g != "gt" && r != nil && r == (*x.geCell(a[1])).(*value) {
				// the library's doubling reads its argument after having overwritten it
				if x.branch(x.fzero(x.pc.sub(u, v))) && !x.branch(x.fzero(u)) {
					return x.setGE(a[0], g, x.pc.pvar(x.pc.newVar(x.fresh(g+"garbage"), fieldQ)))
				}
				u, v = x.norm(u), x.norm(v)
			}
			return x.setGE(a[0], g, x.pc.add(u, v))
		}, pre+"Add")
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			return x.setGE(a[0], g, x.pc.neg(x.ge(a[1])))
		}, pre+"Neg")
		reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.setGE(a[0], g, x.ge(a[1])) }, pre+"Set")
		reg(func(x *Exec, _ *ssa.Function, a []value) value { return a[0] }, pre+"Finalize")
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			if g != "g1" && x.geNil(a[0]) {
				x.setGE(a[0], g, x.pc.kint(fieldQ, 0))
			}
			x.affine(a[0], g)
			return exprsToBytes(x.geBytes(g, x.ge(a[0])))
		}, pre+"Marshal")
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			// the text shows the normalised coordinates
			if x.geNil(a[0]) {
				return "<" + g + ">"
			}
			x.affine(a[0], g)
			return mkString(exprsToBytes(x.geBytes(g, x.ge(a[0]))))
		}, pre+"String")
	}
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.affine(a[0], "g1")
		return exprsToBytes(x.geBytes("g1c", x.ge(a[0])))
	}, "(*"+bnp+".G1).Compress")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		s := a[1].([]value)
		if len(s) < 64 {
			return tuple{[]value(nil), x.mkErr("bn256: not enough data")}
		}
		p, ok := x.decodeGE("g1", x.bytesToExprs(s[:64]))
		if !ok {
			// the receiver holds the rejected coordinates
			x.setGE(a[0], "g1", x.pc.pvar(x.pc.newVar(x.fresh("g1garbage"), fieldQ)))
			return tuple{[]value(nil), x.mkErr("bn256: malformed point")}
		}
		x.setGE(a[0], "g1", p)
		return tuple{s[64:], iface{}}
	}, "(*"+bnp+".G1).Unmarshal")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		s := a[1].([]value)
		fresh := x.geNil(a[0])
		if fresh {
			x.setGE(a[0], "g2", x.pc.kint(fieldQ, 0))
		}
		if len(s) == 0 {
			return tuple{[]value(nil), x.mkErr("bn256: not enough data")}
		}
		t := x.sym(s[0], 8)
		if t.obj != nil && t.obj.kind == "g2" && t.k == 0 {
			t = x.ec.K(8, 1)
		}
		if x.branch(x.ec.Eq(t, x.ec.K(8, 0))) {
			x.setGE(a[0], "g2", x.pc.kint(fieldQ, 0))
			return tuple{s[1:], iface{}}
		}
		if !x.branch(x.ec.Eq(t, x.ec.K(8, 1))) {
			return tuple{[]value(nil), x.mkErr("bn256: malformed point")}
		}
		if len(s) < 129 {
			return tuple{[]value(nil), x.mkErr("bn256: not enough data")}
		}
		p, ok := x.decodeGE("g2", x.bytesToExprs(s[:129]))
		if !ok || !fresh {
			// the library adds the coordinates to those of the receiver, so that only a new one takes a point
			// the receiver holds the rejected coordinates
			x.setGE(a[0], "g2", x.pc.pvar(x.pc.newVar(x.fresh("g2garbage"), fieldQ)))
			return tuple{[]value(nil), x.mkErr("bn256: malformed point")}
		}
		x.setGE(a[0], "g2", p)
		return tuple{s[129:], iface{}}
	}, "(*"+bnp+".G2).Unmarshal")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		b := x.byteSlice(a[0])
		if len(b) != 33 {
			return tuple{(*value)(nil), x.mkErr("bn256: not enough data")}
		}
		p, ok := x.decodeGE("g1c", b)
		if !ok {
			return tuple{(*value)(nil), x.mkErr("bn256: malformed point")}
		}
		return tuple{x.newGE("g1", p), iface{}}
	}, bnp+".Decompress")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.newGE("gt", x.pc.mul(x.ge(a[0]), x.ge(a[1])))
	}, bnp+".Pair", bnp+".Miller")
	random := func(g string) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			if itf, ok := a[0].(iface); ok && itf.t != nil {
				if _, ok := itf.v.(*opaque); !ok {
					b, err := x.readerBig(a[0], fieldQ.p)
					if b == nil {
						return tuple{(*value)(nil), (*value)(nil), err}
					}
					return tuple{x.newBig(b), x.newGE(g, x.bigPoly(b, fieldQ)), iface{}}
				}
			}
			k := x.readerField(a[0], fieldQ)
			return tuple{x.newBig(&BIG{fe: k}), x.newGE(g, k), iface{}}
		}
	}
	reg(random("g1"), bnp+".RandomG1")
	reg(random("g2"), bnp+".RandomG2")
	reg(random("gt"), bnp+".RandomGT")
}

// readerBig draws a number in (0, m) from a source written in Go, as crypto/rand.Int does.
func (x *Exec) readerBig(r value, m *big.Int) (*BIG, value) {
	n := (m.BitLen() + 7) / 8
	top := m.BitLen() % 8
	for try := 0; try < 3; try++ {
		d := make([]value, n)
		for i := range d {
			d[i] = uint64(0)
		}
		for off := 0; off < n; {
			t := x.invoke(r, "Read", d[off:]).(tuple)
			k, ok := t[0].(uint64)
			if !ok {
				k = x.concretize(t[0].(*Expr), "bytes read")
			}
			off += int(int64(k))
			if e, ok := t[1].(iface); (!ok || e.t != nil) && off < n {
				return nil, t[1]
			}
			x.steps += 10
			if x.steps > x.stepLim {
				x.overBudget()
			}
		}
		b := append([]*Expr(nil), x.bytesToExprs(d)...)
		if top != 0 {
			b[0] = x.ec.BAnd(b[0], x.ec.K(8, uint64(1)<<uint(top)-1))
		}
		lt, zero := x.ec.False, x.ec.True
		mb := m.FillBytes(make([]byte, n))
		for i := n - 1; i >= 0; i-- {
			k := x.ec.K(8, uint64(mb[i]))
			lt = x.ec.Or(x.ec.Ult(b[i], k), x.ec.And(x.ec.Eq(b[i], k), lt))
			zero = x.ec.And(zero, x.ec.Eq(b[i], x.ec.K(8, 0)))
		}
		if x.branch(x.ec.And(lt, x.ec.Not(zero))) {
			return &BIG{be: b}, iface{}
		}
	}
	panic(pathEnd{"random source rejected three times"})
}

// readerField draws a nonzero field element from a random source.
func (x *Exec) readerField(r value, f *Field) *Poly {
	itf, ok := r.(iface)
	if !ok || itf.t == nil {
		x.tpanic("invalid memory address or nil pointer dereference")
	}
	o, ok := itf.v.(*opaque)
	if !ok {
		panic(unsupported("random source %s", itf.t))
	}
	if o.kind == "randreader" {
		return x.randVar("rnd"+f.name, f)
	}
	// a source whose output the harness chooses: each draw is one arbitrary nonzero value
	name := x.fresh("nd:" + o.kind[len("ndreader:"):])
	v := x.pc.newVar(name, f)
	v.nonzero = true
	x.nd = append(x.nd, &ndVal{Name: o.kind[len("ndreader:"):], Kind: "big", poly: x.pc.pvar(v)})
	return x.norm(x.pc.pvar(v))
}

var _ types.Type
