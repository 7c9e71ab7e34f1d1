package main

import "math/big"

// Field reasoning: what a polynomial equation means given which variables are generic (drawn at random after the
// rest was fixed), nonzero or 0/1 indicators, and exact linear algebra for conflicts between atoms.

// fz returns a formula equivalent to p == 0.
func (c *ExprCtx) fz(p *Poly) *Expr {
	if k, ok := p.isConst(); ok {
		return c.B(k.isZero())
	}
	pc := c.pc
	// 1. coefficients of the generic monomials must vanish separately
	single := true
	var g0 *Mono
	for i, t := range p.ts {
		g, _ := pc.split(t.m)
		if i == 0 {
			g0 = g
		} else if g != g0 {
			single = false
			break
		}
	}
	if !single || len(g0.vs) > 0 {
		groups := map[int32][]term{}
		var order []int32
		for _, t := range p.ts {
			g, r := pc.split(t.m)
			if _, ok := groups[g.id]; !ok {
				order = append(order, g.id)
			}
			groups[g.id] = append(groups[g.id], term{r, t.c})
		}
		// constants first: one nonzero constant coefficient settles it
		for _, id := range order {
			if ts := groups[id]; len(ts) == 1 && len(ts[0].m.vs) == 0 {
				return c.False
			}
		}
		var cs []*Expr
		for _, id := range order {
			e := c.fz(pc.fromTerms(p.f, groups[id]))
			if e == c.False {
				return c.False
			}
			cs = append(cs, e)
		}
		return c.And(cs...)
	}
	// 2. common monomial factor
	min := map[int32]int32{}
	for i, t := range p.ts {
		here := map[int32]int32{}
		for _, x := range t.m.vs {
			here[x.v] = x.e
		}
		if i == 0 {
			for v, e := range here {
				min[v] = e
			}
			continue
		}
		for v, e := range min {
			h := here[v]
			if h < e {
				min[v] = h
				_ = e
			}
		}
		for v, h := range here {
			if _, ok := min[v]; !ok && h < 0 {
				min[v] = h
			}
		}
	}
	var ors []*Expr
	var fac []vp
	for v, e := range min {
		if e == 0 {
			continue
		}
		pv := pc.vars[v]
		fac = append(fac, vp{v, -e})
		if e > 0 && !pv.nonzero {
			if pv.cond != nil {
				ors = append(ors, c.Not(pv.cond))
			} else {
				ors = append(ors, c.FZ(pc.pvar(pv)))
			}
		}
	}
	if fac != nil {
		sortVP(fac)
		m := pc.monoOf(fac)
		ts := make([]term, len(p.ts))
		for i, t := range p.ts {
			ts[i] = term{pc.monoMulRaw(t.m, m), t.c}
		}
		q := pc.fromTerms(p.f, ts)
		ors = append(ors, c.fz(q))
		return c.Or(ors...)
	}
	// 3. indicators only
	onlyInd := true
	vars := map[int32]bool{}
	for _, t := range p.ts {
		for _, x := range t.m.vs {
			vars[x.v] = true
			if pc.vars[x.v].cond == nil {
				onlyInd = false
			}
		}
	}
	if onlyInd {
		if len(vars) == 1 {
			var a, b coef
			var v int32
			for _, t := range p.ts {
				if len(t.m.vs) == 0 {
					a = t.c
				} else {
					b = t.c
					v = t.m.vs[0].v
				}
			}
			cond := pc.vars[v].cond
			if a.isZero() {
				return c.Not(cond)
			}
			if p.f.add(a, b).isZero() {
				return cond
			}
			return c.False
		}
		sum := new(big.Int)
		for _, t := range p.ts {
			sum.Add(sum, new(big.Int).Abs(t.c.big()))
		}
		if sum.Cmp(p.f.p) < 0 {
			return c.mk(&Expr{op: OLin, poly: pc.intern(p)})
		}
	}
	return c.FZ(pc.monic(p))
}

func sortVP(a []vp) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j].v < a[j-1].v; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// monoMulRaw multiplies without the indicator cap (used to cancel common factors exactly).
func (c *PolyCtx) monoMulRaw(a, b *Mono) *Mono {
	e := map[int32]int32{}
	for _, x := range a.vs {
		e[x.v] += x.e
	}
	for _, x := range b.vs {
		e[x.v] += x.e
	}
	var out []vp
	for v, k := range e {
		if k != 0 {
			out = append(out, vp{v, k})
		}
	}
	sortVP(out)
	return c.monoOf(out)
}

// solvable finds a variable that p == 0 determines: it occurs in exactly one term, alone, with exponent 1.
func (c *PolyCtx) solvable(p *Poly, okVar func(*PVar) bool) (v int32, repl *Poly, ok bool) {
	if len(p.ts) > 2000 {
		return 0, nil, false
	}
	cnt := map[int32]int{}
	for _, t := range p.ts {
		for _, x := range t.m.vs {
			cnt[x.v]++
		}
	}
	best := -1
	for i, t := range p.ts {
		if len(t.m.vs) == 1 && t.m.vs[0].e == 1 && cnt[t.m.vs[0].v] == 1 {
			pv := c.vars[t.m.vs[0].v]
			if pv.cond == nil && okVar(pv) {
				best = i // the most recently created variable wins: later values are defined by earlier ones
			}
		}
	}
	if best < 0 {
		return 0, nil, false
	}
	t := p.ts[best]
	rest := make([]term, 0, len(p.ts)-1)
	rest = append(rest, p.ts[:best]...)
	rest = append(rest, p.ts[best+1:]...)
	r := c.scale(&Poly{f: p.f, ts: rest}, p.f.neg(p.f.inv(t.c)))
	return t.m.vs[0].v, r, true
}

type depPoly struct {
	p   *Poly
	dep map[int]bool
}

func union(a, b map[int]bool) map[int]bool {
	r := make(map[int]bool, len(a)+len(b))
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

// theoryConflict checks an assignment of field atoms; it returns a valid lemma refuting it, or nil.
func theoryConflict(c *ExprCtx, pos, neg []*Expr) *Expr {
	pc := c.pc
	if len(pos) == 0 {
		return nil
	}
	lemma := func(dep map[int]bool, extra *Expr) *Expr {
		var xs []*Expr
		for i := range dep {
			xs = append(xs, c.Not(pos[i]))
		}
		if extra != nil {
			xs = append(xs, extra)
		}
		l := c.Or(xs...)
		if l == c.True {
			return nil
		}
		return l
	}
	es := make([]depPoly, len(pos))
	for i, e := range pos {
		es[i] = depPoly{e.poly, map[int]bool{i: true}}
	}
	ds := make([]depPoly, len(neg))
	for i, e := range neg {
		ds[i] = depPoly{e.poly, map[int]bool{}}
	}
	work := 0
	for round := 0; round < 200; round++ {
		progressed := false
		for i := range es {
			if es[i].p == nil {
				continue
			}
			f := c.fz(es[i].p)
			if f == c.False {
				if l := lemma(es[i].dep, nil); l != nil {
					return l
				}
				return nil
			}
			if f == c.True {
				es[i].p = nil
				continue
			}
			v, r, ok := pc.solvable(es[i].p, func(*PVar) bool { return true })
			if !ok {
				continue
			}
			s := map[int32]*Poly{v: r}
			dep := es[i].dep
			es[i].p = nil
			progressed = true
			for j := range es {
				if es[j].p == nil {
					continue
				}
				q := pc.subst(es[j].p, s)
				work += len(q.ts)
				if q != es[j].p {
					es[j] = depPoly{q, union(es[j].dep, dep)}
				}
			}
			for j := range ds {
				q := pc.subst(ds[j].p, s)
				work += len(q.ts)
				if q != ds[j].p {
					ds[j] = depPoly{q, union(ds[j].dep, dep)}
				}
			}
			if work > 3_000_000 {
				return nil
			}
		}
		if !progressed {
			break
		}
	}
	for j := range ds {
		if c.fz(ds[j].p) == c.True {
			if l := lemma(ds[j].dep, neg[j]); l != nil {
				return l
			}
		}
	}
	// Gaussian elimination on the remaining equations with monomials as unknowns
	var rows []depPoly
	reduce := func(d depPoly) depPoly {
		for _, r := range rows {
			lead := r.p.ts[0].m
			for _, t := range d.p.ts {
				if t.m == lead {
					k := d.p.f.mul(t.c, d.p.f.inv(r.p.ts[0].c))
					d = depPoly{pc.sub(d.p, pc.scale(r.p, k)), union(d.dep, r.dep)}
					break
				}
			}
		}
		return d
	}
	for _, e := range es {
		if e.p == nil || len(e.p.ts) > 5000 {
			continue
		}
		d := reduce(e)
		if k, ok := d.p.isConst(); ok {
			if !k.isZero() {
				return lemma(d.dep, nil)
			}
			continue
		}
		rows = append(rows, d)
	}
	if len(rows) == 0 {
		return nil
	}
	for j := range ds {
		if len(ds[j].p.ts) > 5000 {
			continue
		}
		d := reduce(ds[j])
		if d.p.isZero() {
			if l := lemma(d.dep, neg[j]); l != nil {
				return l
			}
		}
	}
	return nil
}
