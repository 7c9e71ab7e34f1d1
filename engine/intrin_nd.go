package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// The harness interface.

func (x *Exec) ndName(v value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic name"))
	}
	return s
}

func (x *Exec) addND(v *ndVal) {
	if x.spec > 0 {
		panic(specAbort{})
	}
	x.nd = append(x.nd, v)
}

func init() {
	p := ndPath + "."
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n := x.ndName(a[0])
		v, ok := x.opts.Params[n]
		if !ok {
			panic(unsupported("no parameter %s", n))
		}
		return uint64(int64(v))
	}, p+"Param")
	scalar := func(nonzero bool) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			n := x.ndName(a[0])
			v := x.pc.newVar(x.fresh("nd:"+n), fieldL)
			v.nonzero = nonzero
			q := x.pc.pvar(v)
			x.addND(&ndVal{Name: n, Kind: "scalar", poly: q})
			return &FE{q}
		}
	}
	reg(scalar(false), p+"Scalar")
	reg(scalar(true), p+"NonZero")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n := x.ndName(a[0])
		e := x.ec.Var(64, x.fresh("nd:"+n))
		q := x.polyOfBits(fieldL, e)
		x.addND(&ndVal{Name: n, Kind: "scalar", poly: q, es: []*Expr{e}})
		return &FE{q}
	}, p+"U64Scalar")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n := x.ndName(a[0])
		nm := x.fresh("nd:" + n)
		e := x.ec.Var(64, nm)
		q := x.polyOfBits(fieldL, e)
		h := x.pc.newVar(nm+".hi", fieldL)
		h.nonzero = true
		h.wideHi = true
		q = x.pc.add(q, x.pc.scale(x.pc.pvar(h), fieldL.norm(new(big.Int).Lsh(big.NewInt(1), 64))))
		x.addND(&ndVal{Name: n, Kind: "scalar", poly: q, es: []*Expr{e}})
		return &FE{q}
	}, p+"WideScalar")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n := x.ndName(a[0])
		v := x.pc.newVar(x.fresh("nd:"+n), fieldL)
		q := x.pc.pvar(v)
		x.addND(&ndVal{Name: n, Kind: "point", poly: q})
		return &PT{p: q}
	}, p+"Point")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n := x.ndName(a[0])
		k, ok := a[1].(uint64)
		if !ok {
			k = x.concretize(a[1].(*Expr), "length")
		}
		nm := x.fresh("nd:" + n)
		es := make([]*Expr, k)
		for i := range es {
			es[i] = x.ec.Var(8, fmt.Sprintf("%s[%d]", nm, i))
		}
		x.addND(&ndVal{Name: n, Kind: "bytes", es: es})
		return exprsToBytes(es)
	}, p+"Bytes")
	ivar := func(w uint8, kind string) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			n := x.ndName(a[0])
			var e *Expr
			if w == 0 {
				e = x.ec.BVar(x.fresh("nd:" + n))
			} else {
				e = x.ec.Var(w, x.fresh("nd:"+n))
			}
			x.addND(&ndVal{Name: n, Kind: kind, es: []*Expr{e}})
			return e
		}
	}
	reg(ivar(8, "bytes"), p+"Byte")
	reg(ivar(0, "int"), p+"Bool")
	reg(ivar(32, "int"), p+"U32")
	reg(ivar(64, "int"), p+"U64")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n := x.ndName(a[0])
		e := x.ec.Var(64, x.fresh("nd:"+n))
		x.addND(&ndVal{Name: n, Kind: "int", es: []*Expr{e}})
		x.assumeChecked(x.ec.And(x.ec.Not(x.ec.Slt(e, x.sym(a[1], 64))), x.ec.Not(x.ec.Slt(x.sym(a[2], 64), e))))
		return e
	}, p+"Int")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n := x.ndName(a[0])
		k := int(a[1].(uint64))
		v := x.choose(k)
		x.addND(&ndVal{Name: n, Kind: "choose", k: v})
		return uint64(v)
	}, p+"Choose")
	ge := func(g string) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			n := x.ndName(a[0])
			v := x.pc.newVar(x.fresh("nd:"+n), fieldQ)
			v.nonzero = g == "g2"
			q := x.pc.pvar(v)
			x.addND(&ndVal{Name: n, Kind: g, poly: q})
			return exprsToBytes(x.ec.ObjBytes(x.ec.Obj(g, geSize[g], q, nil, "")))
		}
	}
	reg(ge("g1"), p+"G1Bytes")
	reg(ge("g2"), p+"G2Bytes")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return iface{t: opaqueT, v: &opaque{kind: "ndreader:" + x.ndName(a[0])}}
	}, p+"Reader")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		c := x.symBool(a[0])
		if x.spec > 0 && c != x.ec.True {
			panic(specAbort{})
		}
		x.assumeChecked(c)
		return nil
	}, p+"Assume")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.assert(x.symBool(a[0]), "assert", x.ndName(a[1]))
		return nil
	}, p+"Assert")
	reach := func(must bool) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			if x.spec > 0 {
				panic(specAbort{})
			}
			n := x.ndName(a[0])
			x.reached = append(x.reached, n)
			if must {
				x.st.Reached["must:"+n]++
			}
			return nil
		}
	}
	reg(reach(false), p+"Reach")
	reg(reach(true), p+"MustReach")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return true }, p+"Symbolic")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { x.allocLim = int64(a[0].(uint64)); return nil }, p+"AllocLimit")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.workLim = x.steps + int64(a[0].(uint64))
		if x.workLim < x.stepLim {
			x.stepLim = x.workLim
		}
		return nil
	}, p+"StepLimit")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.draws, x.script = nil, nil
		return nil
	}, p+"RecordEntropy")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		out := make([]value, len(x.draws))
		for i, d := range x.draws {
			out[i] = &FE{x.norm(d)}
		}
		return out
	}, p+"Draws")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.draws, x.script = nil, nil
		for _, v := range a[0].([]value) {
			x.script = append(x.script, v.(*FE).p)
		}
		return nil
	}, p+"ScriptEntropy")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.clock = x.ec.Var(64, "frozenclock")
		return nil
	}, p+"FreezeClock")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.randMode = int(int64(a[0].(uint64)))
		x.picks = 0
		return nil
	}, p+"RandChoices")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.genericH = a[0].(bool)
		return nil
	}, p+"GenericHashes")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.genericH, x.lazyH = false, true
		return nil
	}, p+"LazyHashes")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.fixH = int(int64(a[0].(uint64)))
		return nil
	}, p+"FixHashes")
}
