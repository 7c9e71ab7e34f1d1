package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Run-time values. Concrete integers are uint64 (masked to the type's width), Booleans bool, strings string;
// symbolic integers and Booleans are *Expr. Pointers are *value so that aliasing is that of Go itself.
type value interface{}

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// boundIntrinsic is a method value of a modelled object.
type nativeFunc struct {
	name string
	f    func(x *Exec, args []value) value
}

type symString struct{ b []value }

type omap struct {
	keys []value
	vals []value
}

// FE is a scalar of the ristretto group order.
type FE struct{ p *Poly }

// PT is a ristretto point: its discrete logarithm, or the invalid all-zero representation.
type PT struct {
	p      *Poly
	poison bool
}

// GE is the pointee of a bn256 group element.
type GE struct {
	g string // g1 g2 gt
	p *Poly
}

// BIG is a big.Int: a concrete integer, the canonical representative of a field element, or an unsigned value given
// by big-endian bytes.
// signMag is an integer of up to 128 bits.
type signMag struct{ neg, hi, lo *Expr }

type BIG struct {
	k  *big.Int
	fe *Poly
	be []*Expr
	nc bool // fe is congruent to the value but the value may exceed the modulus
	sm *signMag
}

// hashObj is a running hash; the bytes written live in a cell so that stores are journaled.
type hashObj struct {
	alg string
	buf *value // []value
}

// opaque is any other modelled object (random sources, times, ...).
type opaque struct {
	kind string
	id   int
	e    *Expr
	cell *value
}

type chanv struct {
	q *value // []value
}

// control-flow panics of the engine
type unsupportedErr struct{ msg string }

func unsupported(format string, a ...interface{}) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(format, a...)}
}

type pathEnd struct{ reason string } // infeasible or cut path
type specAbort struct{}
type targetPanic struct {
	v   value
	msg string
}
type exitHarness struct{}

func isScalarT(t types.Type) bool { return namedIs(t, "github.com/bwesterb/go-ristretto", "Scalar") }
func isPointT(t types.Type) bool  { return namedIs(t, "github.com/bwesterb/go-ristretto", "Point") }

func namedIs(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

// atomicKind tells whether values of t are modelled as a unit.
func atomicKind(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return ""
	}
	switch o.Pkg().Path() {
	case "github.com/bwesterb/go-ristretto":
		switch o.Name() {
		case "Scalar":
			return "scalar"
		case "Point":
			return "point"
		}
	case "math/big":
		if o.Name() == "Int" {
			return "big"
		}
	case "github.com/dusk-network/bn256":
		switch o.Name() {
		case "curvePoint":
			return "g1"
		case "twistPoint":
			return "g2"
		case "gfP12":
			return "gt"
		}
	case "time":
		if o.Name() == "Time" {
			return "time"
		}
	case "math/rand":
		if o.Name() == "Rand" {
			return "rand"
		}
	case "sync":
		switch o.Name() {
		case "Mutex", "RWMutex", "WaitGroup", "Once", "Map":
			return "sync." + o.Name()
		}
	}
	return ""
}

func (x *Exec) zero(t types.Type) value {
	switch atomicKind(t) {
	case "scalar":
		return &FE{x.pc.kint(fieldL, 0)}
	case "point":
		return &PT{p: x.pc.kint(fieldL, 0), poison: true}
	case "big":
		return &BIG{k: new(big.Int)}
	case "g1", "g2", "gt":
		return &GE{g: atomicKind(t), p: x.pc.kint(fieldQ, 0)}
	case "time":
		return &opaque{kind: "time", e: x.ec.K(64, 0)}
	case "rand":
		return &opaque{kind: "rand"}
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Map":
		return &opaque{kind: "sync"}
	case "sync.Once":
		return uint64(0)
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = x.zero(t.Elem())
		}
		return a
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = x.zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return x.zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = x.zero(t.At(i).Type())
		}
		return s
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*omap)(nil)
	case *types.Chan:
		return (*chanv)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	}
	panic(unsupported("zero value of %s", t))
}

// copyVal copies aggregates so that the result shares no cells with v.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		s := make(structure, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	case array:
		s := make(array, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	}
	return v
}

type undo struct {
	p   *value
	old value
}

// store writes v into *p in place (aggregates elementwise, so that interior pointers stay valid).
func (x *Exec) store(p *value, v value) {
	switch nv := v.(type) {
	case structure:
		if o, ok := (*p).(structure); ok && len(o) == len(nv) {
			if len(o) > 0 && &o[0] == &nv[0] {
				return
			}
			for i := range nv {
				x.store(&o[i], nv[i])
			}
			return
		}
	case array:
		if o, ok := (*p).(array); ok && len(o) == len(nv) {
			if len(o) > 0 && &o[0] == &nv[0] {
				return
			}
			for i := range nv {
				x.store(&o[i], nv[i])
			}
			return
		}
	}
	if x.tracked() {
		x.touchKey(p, true)
	}
	if x.spec > 0 {
		x.journal = append(x.journal, undo{p, *p})
	}
	*p = v
}

func width(t types.Type) (w uint8, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	}
	return 64, false
}

// sym lifts an integer value to an expression.
func (x *Exec) sym(v value, w uint8) *Expr {
	switch v := v.(type) {
	case uint64:
		return x.ec.K(w, v)
	case *Expr:
		if v.w != w {
			panic(unsupported("width mismatch %d vs %d", v.w, w))
		}
		return v
	}
	panic(unsupported("integer expected, got %T", v))
}

func (x *Exec) symBool(v value) *Expr {
	switch v := v.(type) {
	case bool:
		return x.ec.B(v)
	case *Expr:
		return v
	}
	panic(unsupported("bool expected, got %T", v))
}

// conc turns constant expressions back into concrete values.
func conc(e *Expr) value {
	switch e.op {
	case OConst:
		return e.k
	case OTrue:
		return true
	case OFalse:
		return false
	}
	return e
}

func (x *Exec) bytesToExprs(b []value) []*Expr {
	x.touchCells(b)
	out := make([]*Expr, len(b))
	for i, v := range b {
		out[i] = x.sym(v, 8)
	}
	return out
}

func exprsToBytes(es []*Expr) []value {
	out := make([]value, len(es))
	for i, e := range es {
		out[i] = conc(e)
	}
	return out
}

func concreteBytes(b []byte) []value {
	out := make([]value, len(b))
	for i := range b {
		out[i] = uint64(b[i])
	}
	return out
}

func asConcrete(es []*Expr) ([]byte, bool) {
	out := make([]byte, len(es))
	for i, e := range es {
		if e.op != OConst {
			return nil, false
		}
		out[i] = byte(e.k)
	}
	return out, true
}
