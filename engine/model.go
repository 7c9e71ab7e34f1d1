package main

import (
	"crypto/rand"
	"encoding/hex"
	"errors"
	"math/big"
	"strings"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/bn256"
)

// Concrete values for a satisfiable query: the solver's model gives the bit-vectors and the truth of the field atoms;
// the field variables follow by solving the equations that hold, hashing what is hashed for real, and drawing the rest.

type linDef struct{ a, b *Poly } // a*v + b = 0

type mdl struct {
	x        *Exec
	bv       map[int32]uint64
	def      map[int32]linDef
	val      map[int32]*big.Int
	busy     map[int32]bool
	override map[int32]byte // byte variables fixed by what they decode to
	err      error
}

var errCycle = errors.New("cyclic definition")
var errDlog = errors.New("unknown discrete logarithm")

// model produces values for the current path condition.
func (x *Exec) model() ([]NDRecord, bool) {
	if x.sol.check(x.ec.True, true) != sat {
		return nil, false
	}
	rec, ok := x.modelOpen()
	x.sol.endCheck()
	return rec, ok
}

func (x *Exec) modelOpen() (rec []NDRecord, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if x.opts.Verbose {
				println("model: ", strings.TrimSpace(sprint(r)))
			}
			ok = false
		}
	}()
	m := &mdl{x: x, bv: map[int32]uint64{}, def: map[int32]linDef{}, val: map[int32]*big.Int{}, busy: map[int32]bool{}, override: map[int32]byte{}}
	var pre []*Expr
	for _, n := range x.nd {
		pre = append(pre, n.es...)
	}
	atoms := x.sol.activeAtoms()
	pre = append(pre, atoms...)
	for _, v := range x.validity {
		pre = append(pre, v.cond)
	}
	if vals, err := x.sol.getValues(pre); err == nil {
		for i, e := range pre {
			m.bv[e.id] = parseBV(vals[i])
		}
	}
	m.solve(atoms)
	// bytes that are decoded: let the decoded value decide them
	for _, v := range x.decUsed {
		m.fixDecoded(v)
	}
	for _, v := range x.validity {
		if m.bv[v.cond.id] == 0 {
			m.fixInvalid(v)
		}
	}
	ok = true
	for _, n := range x.nd {
		r := NDRecord{Name: n.Name, Kind: n.Kind}
		var err error
		switch n.Kind {
		case "scalar":
			var k *big.Int
			if k, err = m.poly(n.poly); err == nil {
				r.Hex = hex.EncodeToString(leBytes(k))
			} else {
				r.Hex = hex.EncodeToString(leBytes(randIn(fieldL)))
			}
		case "point":
			var p ristretto.Point
			if p, err = m.point(n.poly); err == nil {
				r.Hex = hex.EncodeToString(p.Bytes())
			} else {
				p.Rand()
				r.Hex = hex.EncodeToString(p.Bytes())
			}
		case "g1", "g2":
			var k *big.Int
			if k, err = m.poly(n.poly); err != nil {
				k = randIn(fieldQ)
			}
			r.Hex = hex.EncodeToString(geBytesNative(n.Kind, k))
		case "big":
			var k *big.Int
			if k, err = m.poly(n.poly); err != nil {
				k = randIn(fieldQ)
			}
			var b [32]byte
			k.FillBytes(b[:])
			r.Hex = hex.EncodeToString(b[:])
		case "bytes":
			var b []byte
			if b, err = m.bytes(n.es); err != nil {
				b = make([]byte, len(n.es))
			}
			r.Hex = hex.EncodeToString(b)
		case "int":
			var k uint64
			if k, err = m.expr(n.es[0]); err == nil {
				r.Int = int64(k)
			}
		case "choose":
			r.Int = int64(n.k)
		}
		if err != nil {
			ok = false
		}
		rec = append(rec, r)
	}
	return rec, ok
}

func randIn(f *Field) *big.Int {
	for {
		k, err := rand.Int(rand.Reader, f.p)
		if err != nil {
			panic(err)
		}
		if k.Sign() != 0 {
			return k
		}
	}
}

// solve turns the equations that hold in the model into definitions of variables the harness controls.
func (m *mdl) solve(atoms []*Expr) {
	x := m.x
	var eqs []*Poly
	for _, a := range atoms {
		if m.bv[a.id] == 1 {
			eqs = append(eqs, a.poly)
		}
	}
	free := map[int32]int{}
	for i, n := range x.nd {
		if n.poly == nil || n.Kind == "scalar" && len(n.es) > 0 {
			continue
		}
		for _, t := range n.poly.ts {
			for _, y := range t.m.vs {
				free[y.v] = i + 1
			}
		}
	}
	for i, v := range x.decUsed {
		if _, ok := free[v.id]; !ok {
			free[v.id] = len(x.nd) + i + 1
		}
	}
	for round := 0; round < len(eqs)+1; round++ {
		progress := false
		for i, p := range eqs {
			if p == nil {
				continue
			}
			// candidate: occurs only with exponent one, and not under a hash that is in the same equation
			cand := map[int32]int{}
			for _, t := range p.ts {
				for _, y := range t.m.vs {
					if _, ok := free[y.v]; !ok {
						continue
					}
					if _, done := m.def[y.v]; done {
						continue
					}
					if y.e != 1 {
						cand[y.v] = -1
					} else if cand[y.v] != -1 {
						cand[y.v] = 1
					}
				}
			}
			best := int32(-1)
			for v, s := range cand {
				if s == 1 && (best < 0 || free[v] > free[best]) && !m.hashDepends(p, v) {
					best = v
				}
			}
			if best < 0 {
				continue
			}
			var at, bt []term
			for _, t := range p.ts {
				has := false
				var rest []vp
				for _, y := range t.m.vs {
					if y.v == best {
						has = true
					} else {
						rest = append(rest, y)
					}
				}
				if has {
					at = append(at, term{x.pc.monoOf(rest), t.c})
				} else {
					bt = append(bt, t)
				}
			}
			d := linDef{x.pc.fromTerms(p.f, at), x.pc.fromTerms(p.f, append([]term(nil), bt...))}
			m.def[best] = d
			eqs[i] = nil
			progress = true
			if k, ok := d.a.isConst(); ok {
				r := x.pc.scale(d.b, p.f.neg(p.f.inv(k)))
				s := map[int32]*Poly{best: r}
				for j := range eqs {
					if eqs[j] != nil {
						eqs[j] = x.pc.subst(eqs[j], s)
						if eqs[j].isZero() {
							eqs[j] = nil
						}
					}
				}
				for v, o := range m.def {
					if v != best {
						m.def[v] = linDef{x.pc.subst(o.a, s), x.pc.subst(o.b, s)}
					}
				}
			}
		}
		if !progress {
			break
		}
	}
}

// hashDepends: does some hash variable of p take v as input?
func (m *mdl) hashDepends(p *Poly, v int32) bool {
	seen := map[int32]bool{}
	var inExprs func(es []*Expr) bool
	var inPoly func(q *Poly) bool
	inPoly = func(q *Poly) bool {
		for _, t := range q.ts {
			for _, y := range t.m.vs {
				if y.v == v {
					return true
				}
				if h := m.x.hashIn[y.v]; h != nil && !seen[y.v] {
					seen[y.v] = true
					if inExprs(h.in) {
						return true
					}
				}
			}
		}
		return false
	}
	vis := map[int32]bool{}
	inExprs = func(es []*Expr) bool {
		for _, e := range es {
			if e.obj != nil && !vis[e.obj.id] {
				vis[e.obj.id] = true
				if e.obj.poly != nil && inPoly(e.obj.poly) {
					return true
				}
				if inExprs(e.obj.in) {
					return true
				}
			}
		}
		return false
	}
	for _, t := range p.ts {
		for _, y := range t.m.vs {
			if h := m.x.hashIn[y.v]; h != nil && !seen[y.v] {
				seen[y.v] = true
				if inExprs(h.in) {
					return true
				}
			}
		}
	}
	return false
}

func (m *mdl) freeBytes(b []*Expr) bool {
	for _, e := range b {
		if e.op != OVar {
			return false
		}
		if _, ok := m.override[e.id]; ok {
			return false
		}
	}
	return true
}

func (m *mdl) setBytes(b []*Expr, v []byte) {
	for i, e := range b {
		m.override[e.id] = v[i]
	}
}

func (m *mdl) fixDecoded(v *PVar) {
	if !m.freeBytes(v.dec) {
		return
	}
	k, err := m.varVal(v)
	switch v.decKind {
	case "scalar":
		if err == nil {
			m.setBytes(v.dec, leBytes(k))
		}
	case "point":
		if p, err := m.point(m.x.pc.pvar(v)); err == nil {
			m.setBytes(v.dec, p.Bytes())
		}
	case "g1", "g2", "g1c":
		if err == nil {
			m.setBytes(v.dec, geBytesNative(v.decKind, k))
		}
	}
}

func (m *mdl) fixInvalid(v validEnt) {
	if !m.freeBytes(v.b) {
		return
	}
	cur, err := m.bytes(v.b)
	if err != nil {
		return
	}
	bad := func(b []byte) bool {
		switch v.kind {
		case "point":
			var p ristretto.Point
			var buf [32]byte
			copy(buf[:], b)
			return !p.SetBytes(&buf)
		case "g1":
			_, err := new(bn256.G1).Unmarshal(b)
			return err != nil
		case "g1c":
			_, err := bn256.Decompress(b)
			return err != nil
		case "g2":
			_, err := new(bn256.G2).Unmarshal(b)
			return err != nil
		}
		return true
	}
	for i := 0; i < 64; i++ {
		if bad(cur) {
			m.setBytes(v.b, cur)
			return
		}
		cur = append([]byte(nil), cur...)
		rand.Read(cur[len(cur)/2:])
	}
}

func (m *mdl) poly(p *Poly) (*big.Int, error) {
	sum := new(big.Int)
	for _, t := range p.ts {
		c := new(big.Int).Mod(t.c.big(), p.f.p)
		for _, y := range t.m.vs {
			b, err := m.varVal(m.x.pc.vars[y.v])
			if err != nil {
				return nil, err
			}
			e := int64(y.e)
			if e < 0 {
				b = new(big.Int).ModInverse(b, p.f.p)
				if b == nil {
					return nil, errors.New("inverse of zero")
				}
				e = -e
			}
			c.Mul(c, new(big.Int).Exp(b, big.NewInt(e), p.f.p))
			c.Mod(c, p.f.p)
		}
		sum.Add(sum, c)
	}
	return sum.Mod(sum, p.f.p), nil
}

func (m *mdl) isPointHash(v *PVar) bool {
	h := m.x.hashIn[v.id]
	return h != nil && strings.HasPrefix(h.dom, "point")
}

func (m *mdl) varVal(v *PVar) (*big.Int, error) {
	if k, ok := m.val[v.id]; ok {
		return k, nil
	}
	if v.constPt != nil || m.isPointHash(v) {
		return nil, errDlog
	}
	if m.busy[v.id] {
		return nil, errCycle
	}
	m.busy[v.id] = true
	defer delete(m.busy, v.id)
	k, err := m.compute(v)
	if err != nil {
		return nil, err
	}
	m.val[v.id] = k
	return k, nil
}

func (m *mdl) compute(v *PVar) (*big.Int, error) {
	if d, ok := m.def[v.id]; ok {
		a, err := m.poly(d.a)
		if err != nil {
			return nil, err
		}
		b, err := m.poly(d.b)
		if err != nil {
			return nil, err
		}
		a = new(big.Int).ModInverse(a, v.f.p)
		if a == nil {
			return nil, errors.New("division by zero")
		}
		a.Mul(a, b)
		a.Neg(a)
		return a.Mod(a, v.f.p), nil
	}
	if v.cond != nil {
		k, err := m.expr(v.cond)
		return new(big.Int).SetUint64(k), err
	}
	if r, ok := m.x.subst[v.id]; ok {
		return m.poly(r)
	}
	if v.invOf != nil {
		k, err := m.poly(v.invOf)
		if err != nil {
			return nil, err
		}
		if k.Sign() == 0 {
			return k, nil
		}
		return new(big.Int).ModInverse(k, v.f.p), nil
	}
	if h := m.x.hashIn[v.id]; h != nil {
		in, err := m.bytes(h.in)
		if err != nil {
			return nil, err
		}
		switch {
		case h.dom == "scalar":
			var s ristretto.Scalar
			s.Derive(in)
			return s.BigInt(), nil
		case h.dom == "scalarShort":
			var s ristretto.Scalar
			s.DeriveShort(in)
			return s.BigInt(), nil
		case h.dom == "reduce64":
			return new(big.Int).Mod(fromLE(in), v.f.p), nil
		case strings.HasPrefix(h.dom, "digest:hash:"):
			alg := strings.TrimPrefix(h.dom, "digest:hash:")
			alg = alg[:strings.LastIndexByte(alg, ':')]
			return new(big.Int).Mod(new(big.Int).SetBytes(hashAlgs[alg].sum(in)), v.f.p), nil
		}
		return nil, errDlog
	}
	if v.dec != nil && !m.freeBytes(v.dec) {
		b, err := m.bytes(v.dec)
		if err != nil {
			return nil, err
		}
		switch v.decKind {
		case "scalar":
			b[31] &= 31
			return new(big.Int).Mod(fromLE(b), v.f.p), nil
		case "be":
			return new(big.Int).Mod(new(big.Int).SetBytes(b), v.f.p), nil
		}
		return nil, errDlog
	}
	if v.wideHi {
		k, _ := rand.Int(rand.Reader, new(big.Int).Lsh(big.NewInt(1), 100))
		return k.Add(k, big.NewInt(1)), nil
	}
	return randIn(v.f), nil
}

// point evaluates a discrete logarithm to a group element; variables of unknown logarithm may occur linearly.
func (m *mdl) point(p *Poly) (ristretto.Point, error) {
	var sum ristretto.Point
	sum.SetZero()
	for _, t := range p.ts {
		c := new(big.Int).Mod(t.c.big(), fieldL.p)
		var base ristretto.Point
		base.SetBase()
		unknownSeen := false
		for _, y := range t.m.vs {
			v := m.x.pc.vars[y.v]
			k, err := m.varVal(v)
			if err == errDlog && y.e == 1 && !unknownSeen {
				unknownSeen = true
				base, err = m.pointVar(v)
				if err != nil {
					return sum, err
				}
				continue
			}
			if err != nil {
				return sum, err
			}
			e := int64(y.e)
			if e < 0 {
				k = new(big.Int).ModInverse(k, fieldL.p)
				if k == nil {
					return sum, errors.New("inverse of zero")
				}
				e = -e
			}
			c.Mul(c, new(big.Int).Exp(k, big.NewInt(e), fieldL.p))
			c.Mod(c, fieldL.p)
		}
		var q ristretto.Point
		q.ScalarMult(&base, scalarFromBig(c))
		sum.Add(&sum, &q)
	}
	return sum, nil
}

func (m *mdl) pointVar(v *PVar) (p ristretto.Point, err error) {
	if v.constPt != nil {
		var b [32]byte
		copy(b[:], v.constPt)
		p.SetBytes(&b)
		return p, nil
	}
	if h := m.x.hashIn[v.id]; h != nil && m.isPointHash(v) {
		in, err := m.bytes(h.in)
		if err != nil {
			return p, err
		}
		switch h.dom {
		case "point":
			p.Derive(in)
		case "pointDalek":
			p.DeriveDalek(in)
		default:
			return p, errDlog
		}
		return p, nil
	}
	if m.busy[v.id] {
		return p, errCycle
	}
	m.busy[v.id] = true
	defer delete(m.busy, v.id)
	if d, ok := m.def[v.id]; ok {
		a, err := m.poly(d.a)
		if err != nil {
			return p, err
		}
		b, err := m.point(d.b)
		if err != nil {
			return p, err
		}
		a = new(big.Int).ModInverse(a, fieldL.p)
		if a == nil {
			return p, errors.New("division by zero")
		}
		a.Neg(a)
		p.ScalarMult(&b, scalarFromBig(a))
		return p, nil
	}
	if r, ok := m.x.subst[v.id]; ok {
		return m.point(r)
	}
	return p, errDlog
}

func (m *mdl) bytes(es []*Expr) ([]byte, error) {
	out := make([]byte, len(es))
	for i := 0; i < len(es); {
		if o := objAt(es, i); o != nil {
			b, err := m.obj(o)
			if err != nil {
				return nil, err
			}
			copy(out[i:], b)
			i += o.n
			continue
		}
		k, err := m.expr(es[i])
		if err != nil {
			return nil, err
		}
		out[i] = byte(k)
		i++
	}
	return out, nil
}

func (m *mdl) obj(o *EncObj) ([]byte, error) {
	switch o.kind {
	case "scalar":
		k, err := m.poly(o.poly)
		if err != nil {
			return nil, err
		}
		return leBytes(k), nil
	case "point":
		p, err := m.point(o.poly)
		if err != nil {
			return nil, err
		}
		return p.Bytes(), nil
	case "g1", "g1c", "g2", "gt":
		k, err := m.poly(o.poly)
		if err != nil {
			return nil, err
		}
		return geBytesNative(o.kind, k), nil
	case "bigq":
		k, err := m.poly(o.poly)
		if err != nil {
			return nil, err
		}
		var b [32]byte
		k.FillBytes(b[:])
		return b[:], nil
	}
	in, err := m.bytes(o.in)
	if err != nil {
		return nil, err
	}
	if o.kind == "hex" {
		return []byte(hex.EncodeToString(in)), nil
	}
	if o.kind == "b64" {
		return []byte(b64Enc(o.key[strings.LastIndexByte(o.key, '/')+1:]).EncodeToString(in)), nil
	}
	if strings.HasPrefix(o.kind, "hash:") {
		return hashAlgs[o.kind[5:]].sum(in), nil
	}
	return nil, errors.New("object " + o.kind)
}

// expr evaluates a term in the solver's model, except where bytes were overridden.
func (m *mdl) expr(e *Expr) (uint64, error) {
	switch e.op {
	case OConst:
		return e.k, nil
	case OTrue:
		return 1, nil
	case OFalse:
		return 0, nil
	case OVar:
		if b, ok := m.override[e.id]; ok {
			return uint64(b), nil
		}
	case OByte:
		b, err := m.obj(e.obj)
		if err != nil {
			return 0, err
		}
		return uint64(b[e.k]), nil
	}
	if k, ok := m.bv[e.id]; ok {
		return k, nil
	}
	vals, err := m.x.sol.getValues([]*Expr{e})
	if err != nil {
		return 0, err
	}
	k := parseBV(vals[0])
	m.bv[e.id] = k
	return k, nil
}
