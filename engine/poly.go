package main

import (
	"encoding/binary"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Exact multivariate Laurent polynomials over a prime field. They represent scalars and, via the discrete logarithm
// with respect to the group's fixed generator, group elements.

// Field is one prime field together with the symmetric-representation bounds of its coefficients.
type Field struct {
	name string
	p    *big.Int
	half *big.Int
}

func newField(name, dec string) *Field {
	p, ok := new(big.Int).SetString(dec, 10)
	if !ok {
		panic("bad modulus")
	}
	return &Field{name: name, p: p, half: new(big.Int).Rsh(p, 1)}
}

var fieldL = newField("l", "7237005577332262213973186563042994240857116359379907606001950938285454250989")
var fieldQ = newField("q", "65000549695646603732796438742359905742570406053903786389881062969044166799969")

// coef is a field coefficient in symmetric representation; b is nil when it fits in an int64.
type coef struct {
	s int64
	b *big.Int
}

func (c coef) isZero() bool { return c.b == nil && c.s == 0 }
func (c coef) isOne() bool  { return c.b == nil && c.s == 1 }
func (c coef) big() *big.Int {
	if c.b != nil {
		return c.b
	}
	return big.NewInt(c.s)
}

func (f *Field) norm(x *big.Int) coef {
	if x.CmpAbs(f.half) > 0 {
		x = new(big.Int).Mod(x, f.p)
		if x.Cmp(f.half) > 0 {
			x.Sub(x, f.p)
		}
	}
	if x.IsInt64() {
		return coef{s: x.Int64()}
	}
	return coef{b: x}
}

func (f *Field) add(a, b coef) coef {
	if a.b == nil && b.b == nil {
		s := a.s + b.s
		if (s > a.s) == (b.s > 0) {
			return coef{s: s}
		}
	}
	return f.norm(new(big.Int).Add(a.big(), b.big()))
}

func (f *Field) neg(a coef) coef {
	if a.b == nil && a.s != -1<<63 {
		return coef{s: -a.s}
	}
	return f.norm(new(big.Int).Neg(a.big()))
}

func abs64(x int64) uint64 {
	if x < 0 {
		return uint64(-x)
	}
	return uint64(x)
}

func (f *Field) mul(a, b coef) coef {
	if a.b == nil && b.b == nil {
		if a.s == 1 {
			return b
		}
		if b.s == 1 {
			return a
		}
		hi, lo := bits.Mul64(abs64(a.s), abs64(b.s))
		if hi == 0 && lo < 1<<63 {
			r := int64(lo)
			if (a.s < 0) != (b.s < 0) {
				r = -r
			}
			return coef{s: r}
		}
	}
	return f.norm(new(big.Int).Mul(a.big(), b.big()))
}

func (f *Field) inv(a coef) coef {
	x := new(big.Int).Mod(a.big(), f.p)
	return f.norm(x.ModInverse(x, f.p))
}

// canon returns the representative in [0,p).
func (f *Field) canon(a coef) *big.Int { return new(big.Int).Mod(a.big(), f.p) }

func (c coef) eq(d coef) bool {
	if c.b == nil || d.b == nil {
		return c.b == nil && d.b == nil && c.s == d.s
	}
	return c.b.Cmp(d.b) == 0
}

// PVar is a field variable.
type PVar struct {
	id      int32
	name    string
	f       *Field
	generic bool // drawn uniformly at random after the non-generic values were fixed
	nonzero bool
	cond    *Expr // indicator variable: 1 if cond else 0
	h       uint64
	dec     []*Expr // the 32 bytes this value was decoded from (scalar) or nil
	decKind string
	constPt []byte // encoding of a concrete point whose discrete logarithm this is
	wideHi  bool   // value is low + 2^64*this, this >= 1, without wrapping around
	invOf   *Poly
	rnd     bool
	fix     *big.Int // the value of a hash output the harness fixed
}

type vp struct {
	v int32
	e int32
}

// Mono is an interned monomial.
type Mono struct {
	id   int32
	vs   []vp
	h    uint64
	gen  *Mono // generic part
	rest *Mono // non-generic part
}

type term struct {
	m *Mono
	c coef
}

// Poly is a polynomial with terms sorted by monomial id. It is immutable.
type Poly struct {
	f  *Field
	ts []term
	id int32 // 0 when not interned
}

// PolyCtx holds the interning tables of one exploration.
type PolyCtx struct {
	vars   []*PVar
	byName map[string]*PVar
	monos  map[uint64][]*Mono
	nmono  int32
	one    *Mono
	polys  map[uint64][]*Poly
	npoly  int32
	allP   []*Poly
	allM   []*Mono
}

func newPolyCtx() *PolyCtx {
	c := &PolyCtx{byName: map[string]*PVar{}, monos: map[uint64][]*Mono{}, polys: map[uint64][]*Poly{}}
	c.allP = append(c.allP, nil)
	c.one = c.internMono(nil, 0)
	return c
}

func mix64(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func (c *PolyCtx) newVar(name string, f *Field) *PVar {
	if v := c.byName[name]; v != nil {
		return v
	}
	v := &PVar{id: int32(len(c.vars)), name: name, f: f, h: mix64(uint64(len(c.vars))*0x9e3779b97f4a7c15 + 12345)}
	c.vars = append(c.vars, v)
	c.byName[name] = v
	return v
}

func (c *PolyCtx) internMono(vs []vp, h uint64) *Mono {
	for _, m := range c.monos[h] {
		if len(m.vs) == len(vs) {
			ok := true
			for i := range vs {
				if m.vs[i] != vs[i] {
					ok = false
					break
				}
			}
			if ok {
				return m
			}
		}
	}
	m := &Mono{id: c.nmono, vs: append([]vp(nil), vs...), h: h}
	c.nmono++
	c.allM = append(c.allM, m)
	c.monos[h] = append(c.monos[h], m)
	return m
}

func (c *PolyCtx) monoOf(vs []vp) *Mono {
	var h uint64
	for _, x := range vs {
		h += uint64(int64(x.e)) * c.vars[x.v].h
	}
	return c.internMono(vs, h)
}

func (c *PolyCtx) monoMul(a, b *Mono) *Mono {
	if len(a.vs) == 0 {
		return b
	}
	if len(b.vs) == 0 {
		return a
	}
	var buf [32]vp
	out := buf[:0]
	i, j := 0, 0
	capped := false
	for i < len(a.vs) || j < len(b.vs) {
		switch {
		case j == len(b.vs) || (i < len(a.vs) && a.vs[i].v < b.vs[j].v):
			out = append(out, a.vs[i])
			i++
		case i == len(a.vs) || b.vs[j].v < a.vs[i].v:
			out = append(out, b.vs[j])
			j++
		default:
			e := a.vs[i].e + b.vs[j].e
			v := a.vs[i].v
			if c.vars[v].cond != nil {
				e = 1
				capped = true
			}
			if e != 0 {
				out = append(out, vp{v, e})
			}
			i++
			j++
		}
	}
	if capped {
		return c.monoOf(out)
	}
	return c.internMono(out, a.h+b.h)
}

func (c *PolyCtx) split(m *Mono) (gen, rest *Mono) {
	if m.gen == nil {
		var g, r []vp
		for _, x := range m.vs {
			if c.vars[x.v].generic {
				g = append(g, x)
			} else {
				r = append(r, x)
			}
		}
		m.gen, m.rest = c.monoOf(g), c.monoOf(r)
	}
	return m.gen, m.rest
}

func (c *PolyCtx) konst(f *Field, k *big.Int) *Poly {
	cc := f.norm(new(big.Int).Set(k))
	if cc.isZero() {
		return &Poly{f: f}
	}
	return &Poly{f: f, ts: []term{{c.one, cc}}}
}

func (c *PolyCtx) kint(f *Field, k int64) *Poly { return c.konst(f, big.NewInt(k)) }

func (c *PolyCtx) pvar(v *PVar) *Poly {
	return &Poly{f: v.f, ts: []term{{c.monoOf([]vp{{v.id, 1}}), coef{s: 1}}}}
}

func (p *Poly) isZero() bool { return len(p.ts) == 0 }

func (p *Poly) isConst() (coef, bool) {
	if len(p.ts) == 0 {
		return coef{}, true
	}
	if len(p.ts) == 1 && len(p.ts[0].m.vs) == 0 {
		return p.ts[0].c, true
	}
	return coef{}, false
}

func (c *PolyCtx) add(a, b *Poly) *Poly {
	if len(a.ts) == 0 {
		return b
	}
	if len(b.ts) == 0 {
		return a
	}
	if len(a.ts)+len(b.ts) > 4096 && memory.isShort() {
		panic(unsupported("memory limit"))
	}
	f := a.f
	out := make([]term, 0, len(a.ts)+len(b.ts))
	i, j := 0, 0
	for i < len(a.ts) && j < len(b.ts) {
		x, y := a.ts[i], b.ts[j]
		switch {
		case x.m.id < y.m.id:
			out = append(out, x)
			i++
		case y.m.id < x.m.id:
			out = append(out, y)
			j++
		default:
			s := f.add(x.c, y.c)
			if !s.isZero() {
				out = append(out, term{x.m, s})
			}
			i++
			j++
		}
	}
	out = append(out, a.ts[i:]...)
	out = append(out, b.ts[j:]...)
	return &Poly{f: f, ts: out}
}

func (c *PolyCtx) neg(a *Poly) *Poly {
	out := make([]term, len(a.ts))
	for i, t := range a.ts {
		out[i] = term{t.m, a.f.neg(t.c)}
	}
	return &Poly{f: a.f, ts: out}
}

func (c *PolyCtx) sub(a, b *Poly) *Poly {
	if len(b.ts) == 0 {
		return a
	}
	return c.add(a, c.neg(b))
}

func (c *PolyCtx) scale(a *Poly, k coef) *Poly {
	if k.isZero() {
		return &Poly{f: a.f}
	}
	if k.isOne() {
		return a
	}
	out := make([]term, 0, len(a.ts))
	for _, t := range a.ts {
		out = append(out, term{t.m, a.f.mul(t.c, k)})
	}
	return &Poly{f: a.f, ts: out}
}

const maxTerms = 40_000_000

func (c *PolyCtx) mul(a, b *Poly) *Poly {
	if len(a.ts) == 0 || len(b.ts) == 0 {
		return &Poly{f: a.f}
	}
	if k, ok := a.isConst(); ok {
		return c.scale(b, k)
	}
	if k, ok := b.isConst(); ok {
		return c.scale(a, k)
	}
	if len(a.ts)*len(b.ts) > 4096 && memory.isShort() {
		panic(unsupported("memory limit"))
	}
	if len(a.ts)*len(b.ts) > maxTerms {
		panic(unsupported("polynomial product too large"))
	}
	f := a.f
	if len(a.ts) > len(b.ts) {
		a, b = b, a
	}
	acc := make(map[int32]coef, len(a.ts)*len(b.ts))
	for _, x := range a.ts {
		for _, y := range b.ts {
			m := c.monoMul(x.m, y.m)
			v := f.mul(x.c, y.c)
			if o, ok := acc[m.id]; ok {
				v = f.add(o, v)
			}
			acc[m.id] = v
		}
	}
	out := make([]term, 0, len(acc))
	for id, v := range acc {
		if !v.isZero() {
			out = append(out, term{c.allM[id], v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].m.id < out[j].m.id })
	return &Poly{f: f, ts: out}
}

func (c *PolyCtx) fromTerms(f *Field, ts []term) *Poly {
	sort.Slice(ts, func(i, j int) bool { return ts[i].m.id < ts[j].m.id })
	out := ts[:0]
	for _, t := range ts {
		if n := len(out); n > 0 && out[n-1].m == t.m {
			out[n-1].c = f.add(out[n-1].c, t.c)
			if out[n-1].c.isZero() {
				out = out[:n-1]
			}
			continue
		}
		if !t.c.isZero() {
			out = append(out, t)
		}
	}
	return &Poly{f: f, ts: out}
}

func (c coef) hash() uint64 {
	if c.b == nil {
		return mix64(uint64(c.s) + 0x51ed270b)
	}
	var b [40]byte
	n := c.b.FillBytes(b[:])
	h := uint64(1469598103934665603)
	for i := 0; i < 40; i += 8 {
		h = mix64(h ^ binary.LittleEndian.Uint64(n[i:]))
	}
	if c.b.Sign() < 0 {
		h = ^h
	}
	return h
}

// intern returns the canonical copy of p, whose id identifies its content.
func (c *PolyCtx) intern(p *Poly) *Poly {
	if p.id != 0 {
		return p
	}
	var h uint64
	if p.f == fieldQ {
		h = 77
	}
	for _, t := range p.ts {
		h += mix64(uint64(t.m.id)*0x9e3779b97f4a7c15 ^ t.c.hash())
	}
next:
	for _, q := range c.polys[h] {
		if q.f != p.f || len(q.ts) != len(p.ts) {
			continue
		}
		for i := range q.ts {
			if q.ts[i].m != p.ts[i].m || !q.ts[i].c.eq(p.ts[i].c) {
				continue next
			}
		}
		p.id = q.id
		return q
	}
	c.npoly++
	p.id = c.npoly
	c.allP = append(c.allP, p)
	c.polys[h] = append(c.polys[h], p)
	return p
}

// monic scales p so that its leading coefficient is 1.
func (c *PolyCtx) monic(p *Poly) *Poly {
	if len(p.ts) == 0 {
		return p
	}
	l := p.ts[0].c
	if l.isOne() {
		return p
	}
	if l.b == nil && l.s == -1 {
		return c.neg(p)
	}
	return c.scale(p, p.f.inv(l))
}

// subst replaces variables by polynomials. Negative powers of a substituted variable are allowed only when the
// replacement is a single monomial; otherwise the polynomial is returned unchanged.
func (c *PolyCtx) subst(p *Poly, s map[int32]*Poly) *Poly {
	if len(s) == 0 {
		return p
	}
	hit := false
	for _, t := range p.ts {
		for _, x := range t.m.vs {
			if _, ok := s[x.v]; ok {
				hit = true
			}
		}
	}
	if !hit {
		return p
	}
	var keep []term
	acc := &Poly{f: p.f}
	for _, t := range p.ts {
		var rest []vp
		var fac []vp
		for _, x := range t.m.vs {
			if _, ok := s[x.v]; ok {
				fac = append(fac, x)
			} else {
				rest = append(rest, x)
			}
		}
		if fac == nil {
			keep = append(keep, t)
			continue
		}
		q := &Poly{f: p.f, ts: []term{{c.monoOf(rest), t.c}}}
		for _, x := range fac {
			r := s[x.v]
			e := x.e
			if e < 0 {
				ri, ok := c.invMono(r)
				if !ok {
					return p
				}
				r, e = ri, -e
			}
			for ; e > 0; e-- {
				q = c.mul(q, r)
			}
		}
		acc = c.add(acc, q)
	}
	return c.add(acc, &Poly{f: p.f, ts: keep})
}

// invMono inverts a polynomial that is a single monomial (the caller vouches for its variables being nonzero).
func (c *PolyCtx) invMono(p *Poly) (*Poly, bool) {
	if len(p.ts) != 1 {
		return nil, false
	}
	t := p.ts[0]
	vs := make([]vp, len(t.m.vs))
	for i, x := range t.m.vs {
		if c.vars[x.v].cond != nil {
			return nil, false
		}
		vs[i] = vp{x.v, -x.e}
	}
	return &Poly{f: p.f, ts: []term{{c.monoOf(vs), p.f.inv(t.c)}}}, true
}

func (c *PolyCtx) monoString(m *Mono) string {
	if len(m.vs) == 0 {
		return "1"
	}
	var sb strings.Builder
	for i, x := range m.vs {
		if i > 0 {
			sb.WriteByte('*')
		}
		sb.WriteString(c.vars[x.v].name)
		if x.e != 1 {
			sb.WriteString("^" + strconv.Itoa(int(x.e)))
		}
	}
	return sb.String()
}

func (c *PolyCtx) String(p *Poly) string {
	if len(p.ts) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, t := range p.ts {
		if i > 0 {
			sb.WriteString(" + ")
		}
		if i > 12 {
			sb.WriteString("... (" + strconv.Itoa(len(p.ts)) + " terms)")
			break
		}
		sb.WriteString(t.c.big().String() + "*" + c.monoString(t.m))
	}
	return sb.String()
}

// eval evaluates p under a full assignment.
func (c *PolyCtx) eval(p *Poly, val func(v *PVar) *big.Int) *big.Int {
	sum := new(big.Int)
	pw := new(big.Int)
	for _, t := range p.ts {
		x := new(big.Int).Mod(t.c.big(), p.f.p)
		for _, y := range t.m.vs {
			b := val(c.vars[y.v])
			e := int64(y.e)
			if e < 0 {
				b = new(big.Int).ModInverse(b, p.f.p)
				if b == nil {
					b = new(big.Int)
				}
				e = -e
			}
			pw.Exp(b, big.NewInt(e), p.f.p)
			x.Mul(x, pw)
			x.Mod(x, p.f.p)
		}
		sum.Add(sum, x)
	}
	return sum.Mod(sum, p.f.p)
}
