package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Two calls at the same time. Every memory cell and map that either of them reads or writes is recorded together with
// the locks held. If no cell written by one is accessed by the other, every interleaving gives what running one after
// the other gives. Otherwise accesses without a common lock are a candidate data race, and the second call is also run
// in the middle of the first, at each of the first one's conflicting accesses.

type access struct {
	locks string // "key" of the locks held
	write bool
}

type lockset map[*value]int // 1: shared, 2: exclusive

// lockPoint is where a lock is taken.
type lockPoint struct{ p *value }

type raceState struct {
	locked  [2]map[*value]bool
	cur     int // which of the two is running
	off     int
	cells   [2]map[interface{}]map[access]lockset
	first   map[interface{}][]int // ordinals of the first call's accesses
	held    [2]lockset
	n       int // accesses of the first call so far
	preempt int // ordinal at which the second call runs; -1: after the first
	second  value
	done    bool
	names   map[*value]int
}

func (x *Exec) raceRead(p *value) {
	if x.tracked() {
		x.touch(p, false)
	}
}

// touch records an access to the cell and to everything stored in it.
func (x *Exec) touch(p *value, write bool) {
	switch v := (*p).(type) {
	case structure:
		for i := range v {
			x.touch(&v[i], write)
		}
		return
	case array:
		for i := range v {
			x.touch(&v[i], write)
		}
		return
	}
	x.touchKey(p, write)
}

func (x *Exec) touchCells(b []value) {
	if x.tracked() {
		for i := range b {
			x.touch(&b[i], false)
		}
	}
}

func (x *Exec) touchMap(m *omap, write bool) {
	if x.tracked() && m != nil {
		x.touchKey(m, write)
	}
}

// point is a place in the first call at which the second may run.
func (x *Exec) point(k interface{}) {
	r := x.race
	if r.cur != 0 || x.spec > 0 {
		return
	}
	n := r.n
	r.n++
	if n == r.preempt && !r.done {
		r.done = true
		r.cur = 1
		x.call(nil, r.second, nil)
		r.cur = 0
	}
	if !r.done && r.preempt < 0 {
		r.first[k] = append(r.first[k], n)
	}
}

func (x *Exec) touchKey(k interface{}, write bool) {
	r := x.race
	if r == nil {
		x.parTouch(k, write)
		return
	}
	x.point(k)
	held := r.held[r.cur]
	a := access{write: write}
	if len(held) > 0 {
		var ks []string
		for l, mode := range held {
			id, ok := r.names[l]
			if !ok {
				id = len(r.names)
				r.names[l] = id
			}
			ks = append(ks, fmt.Sprintf("%d:%d", id, mode))
		}
		sort.Strings(ks)
		a.locks = strings.Join(ks, ",")
	}
	m := r.cells[r.cur][k]
	if m == nil {
		m = map[access]lockset{}
		r.cells[r.cur][k] = m
	}
	if _, ok := m[a]; !ok {
		c := lockset{}
		for l, mode := range held {
			c[l] = mode
		}
		m[a] = c
	}
}

func (x *Exec) lock(p *value, mode int) {
	r := x.race
	if r == nil {
		if q := x.par; q != nil {
			q.held[q.cur][p] = mode
		}
		return
	}
	if r.off == 0 {
		x.point(lockPoint{p})
		r.locked[r.cur][p] = true
	}
	if o := r.held[1-r.cur][p]; o != 0 && (o == 2 || mode == 2) {
		panic(pathEnd{"infeasible"}) // this schedule does not exist
	}
	r.held[r.cur][p] = mode
}

func (x *Exec) unlock(p *value) {
	if r := x.race; r != nil {
		delete(r.held[r.cur], p)
	} else if q := x.par; q != nil {
		delete(q.held[q.cur], p)
	}
}

// quietly runs f without recording accesses.
func (x *Exec) quietly(f func()) {
	if r := x.race; r != nil {
		r.off++
		defer func() { r.off-- }()
	}
	if q := x.par; q != nil {
		q.off++
		defer func() { q.off-- }()
	}
	f()
}

func exclusive(a, b lockset) bool {
	for l, m := range a {
		if o := b[l]; o != 0 && (o == 2 || m == 2) {
			return true
		}
	}
	return false
}

func (x *Exec) concurrently(a, b value) {
	if x.spec > 0 {
		panic(specAbort{})
	}
	if x.race != nil {
		panic(unsupported("nested concurrency"))
	}
	at := -1
	i := len(x.decs)
	if i < len(x.prefix) {
		at = x.prefix[i] - 1
		x.decs = append(x.decs, x.prefix[i])
	} else {
		x.decs = append(x.decs, 0)
	}
	r := &raceState{preempt: at, second: b, first: map[interface{}][]int{}, names: map[*value]int{}}
	for k := range r.cells {
		r.cells[k] = map[interface{}]map[access]lockset{}
		r.held[k] = lockset{}
		r.locked[k] = map[*value]bool{}
	}
	x.race = r
	x.preempted = at >= 0
	defer func() { x.race = nil }()
	x.call(nil, a, nil)
	if !r.done {
		r.done = true
		r.cur = 1
		x.call(nil, b, nil)
	}
	x.race = nil
	if at >= 0 {
		return
	}
	racy := false
	points := map[int]bool{}
	for k, as := range r.cells[0] {
		bs := r.cells[1][k]
		if bs == nil {
			continue
		}
		conflict := false
		for p, lp := range as {
			for q, lq := range bs {
				if p.write || q.write {
					if !exclusive(lp, lq) {
						conflict, racy = true, true
					}
				}
			}
		}
		if conflict {
			for _, n := range r.first[k] {
				points[n] = true
			}
		}
	}
	for p := range r.locked[0] {
		if r.locked[1][p] {
			for _, n := range r.first[lockPoint{p}] {
				points[n] = true
			}
		}
	}
	if i >= len(x.prefix)-1 {
		var ns []int
		for n := range points {
			ns = append(ns, n)
		}
		sort.Ints(ns)
		most := 40
		if racy {
			most = 4 // the race itself is the finding
		}
		if len(ns) > most {
			if !racy {
				x.st.Truncated["too many points to interrupt a call at"]++
			}
			var some []int
			for k := 0; k < most; k++ {
				some = append(some, ns[k*(len(ns)-1)/(most-1)])
			}
			ns = some
		}
		for k := len(ns) - 1; k >= 0; k-- {
			x.work = append(x.work, append(append([]int(nil), x.decs[:i]...), ns[k]+1))
		}
	}
	x.st.Asserts++
	if racy {
		if x.sol.check(x.ec.True, true) != unsat {
			rec, ok := x.modelOpen()
			x.sol.endCheck()
			v := &Violation{Harness: x.opts.Harness, Kind: "race", Msg: "two calls access the same memory without a common lock", Where: x.where(), Values: rec}
			if !ok {
				v.Detail = "partial model"
			}
			x.addViolation(v)
		}
	}
}

// Goroutines that the code itself starts. They run at their go statement; two accesses to the same memory, one of them a
// write, that neither a go statement, a WaitGroup nor a channel orders and no common lock separates, are a candidate
// data race, which the race detector has to reproduce.
type parState struct {
	cur   int
	off   int
	clock []map[int]int
	held  []lockset
	rel   map[interface{}]map[int]int
	acc   map[interface{}][]parAccess
	racy  bool
}

type parAccess struct {
	by, at int
	write  bool
	locks  lockset
}

func (x *Exec) tracked() bool {
	if r := x.race; r != nil {
		return r.off == 0
	}
	return x.par != nil && x.par.off == 0
}

// spawn runs f as a goroutine.
func (x *Exec) spawn(f func()) {
	if x.race != nil {
		f()
		return
	}
	q := x.par
	if q == nil {
		q = &parState{clock: []map[int]int{{0: 1}}, held: []lockset{{}}, rel: map[interface{}]map[int]int{}, acc: map[interface{}][]parAccess{}}
		x.par = q
	}
	parent, child := q.cur, len(q.clock)
	c := map[int]int{child: 1}
	join(c, q.clock[parent])
	q.clock = append(q.clock, c)
	q.held = append(q.held, lockset{})
	q.clock[parent][parent]++
	q.cur = child
	f()
	q.cur = parent
}

func join(a, b map[int]int) {
	for k, n := range b {
		if a[k] < n {
			a[k] = n
		}
	}
}

// release and acquire order what comes before the one and after the other.
func (x *Exec) release(k interface{}) {
	if q := x.par; q != nil {
		if q.rel[k] == nil {
			q.rel[k] = map[int]int{}
		}
		join(q.rel[k], q.clock[q.cur])
		q.clock[q.cur][q.cur]++
	}
}

func (x *Exec) acquire(k interface{}) {
	if q := x.par; q != nil {
		join(q.clock[q.cur], q.rel[k])
	}
}

func (x *Exec) parTouch(k interface{}, write bool) {
	q := x.par
	if q.racy {
		return
	}
	me := parAccess{by: q.cur, at: q.clock[q.cur][q.cur], write: write, locks: lockset{}}
	for l, m := range q.held[q.cur] {
		me.locks[l] = m
	}
	known := false
	for _, a := range q.acc[k] {
		if a.by == me.by {
			if a.at == me.at && (a.write || !write) && len(a.locks) == len(me.locks) {
				known = true
			}
			continue
		}
		if (a.write || write) && a.at > q.clock[q.cur][a.by] && !exclusive(a.locks, me.locks) {
			q.racy = true
		}
	}
	if !known {
		q.acc[k] = append(q.acc[k], me)
	}
	if q.racy && x.spec == 0 {
		if x.sol.check(x.ec.True, true) != unsat {
			rec, ok := x.modelOpen()
			x.sol.endCheck()
			v := &Violation{Harness: x.opts.Harness, Kind: "race", Msg: "two goroutines access the same memory unordered", Where: x.where(), Values: rec}
			if !ok {
				v.Detail = "partial model"
			}
			x.addViolation(v)
		}
	}
}

func init() {
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.concurrently(a[0], a[1])
		return nil
	}, ndPath+".Concurrently")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { x.lock(x.ptrQ(a[0]), 2); return nil }, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { x.lock(x.ptrQ(a[0]), 1); return nil }, "(*sync.RWMutex).RLock")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { x.unlock(x.ptrQ(a[0])); return nil }, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p := x.ptrQ(a[0])
		if (*p).(uint64) == 0 {
			if x.spec > 0 {
				panic(specAbort{})
			}
			x.lock(p, 2)
			x.quietly(func() {
				x.call(nil, a[1], nil)
				x.store(p, uint64(1))
			})
			x.unlock(p)
		}
		return nil
	}, "(*sync.Once).Do")
	// a pool gives back what was put there last
	reg(func(x *Exec, _ *ssa.Function, a []value) (res value) {
		if x.spec > 0 {
			panic(specAbort{})
		}
		x.quietly(func() {
			s := (*x.ptr(a[0])).(structure)
			q := x.pools[x.ptr(a[0])]
			if len(q) > 0 {
				res = q[len(q)-1]
				x.pools[x.ptr(a[0])] = q[:len(q)-1]
				return
			}
			f := s[len(s)-1]
			if c, ok := f.(*closure); ok && c == nil || f == nil {
				res = iface{}
				return
			}
			res = x.call(nil, f, nil)
		})
		return
	}, "(*sync.Pool).Get")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		if x.spec > 0 {
			panic(specAbort{})
		}
		p := x.ptrQ(a[0])
		x.pools[p] = append(append([]value(nil), x.pools[p]...), a[1])
		return nil
	}, "(*sync.Pool).Put")
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(f func(x *Exec, m *omap, a []value) value) func(x *Exec, _ *ssa.Function, a []value) value {
		return func(x *Exec, _ *ssa.Function, a []value) (res value) {
			if x.spec > 0 {
				panic(specAbort{})
			}
			p := x.ptrQ(a[0])
			x.lock(p, 2)
			defer x.unlock(p)
			x.quietly(func() {
				m := x.syncMaps[p]
				if m == nil {
					m = &omap{}
					x.syncMaps[p] = m
				}
				res = f(x, m, a)
			})
			return
		}
	}
	del := func(m *omap, i int) {
		m.keys = append(append([]value(nil), m.keys[:i]...), m.keys[i+1:]...)
		m.vals = append(append([]value(nil), m.vals[:i]...), m.vals[i+1:]...)
	}
	put := func(m *omap, k, v value) {
		m.keys = append(m.keys, copyVal(k))
		m.vals = append(m.vals, copyVal(v))
	}
	reg(smap(func(x *Exec, m *omap, a []value) value {
		if i := x.findKey(m, anyT, a[1]); i >= 0 {
			return tuple{copyVal(m.vals[i]), true}
		}
		return tuple{iface{}, false}
	}), "(*sync.Map).Load")
	reg(smap(func(x *Exec, m *omap, a []value) value {
		if i := x.findKey(m, anyT, a[1]); i >= 0 {
			m.vals[i] = copyVal(a[2])
		} else {
			put(m, a[1], a[2])
		}
		return nil
	}), "(*sync.Map).Store")
	reg(smap(func(x *Exec, m *omap, a []value) value {
		if i := x.findKey(m, anyT, a[1]); i >= 0 {
			return tuple{copyVal(m.vals[i]), true}
		}
		put(m, a[1], a[2])
		return tuple{a[2], false}
	}), "(*sync.Map).LoadOrStore")
	reg(smap(func(x *Exec, m *omap, a []value) value {
		if i := x.findKey(m, anyT, a[1]); i >= 0 {
			old := m.vals[i]
			m.vals[i] = copyVal(a[2])
			return tuple{old, true}
		}
		put(m, a[1], a[2])
		return tuple{iface{}, false}
	}), "(*sync.Map).Swap")
	reg(smap(func(x *Exec, m *omap, a []value) value {
		if i := x.findKey(m, anyT, a[1]); i >= 0 {
			old := m.vals[i]
			del(m, i)
			return tuple{old, true}
		}
		return tuple{iface{}, false}
	}), "(*sync.Map).LoadAndDelete")
	reg(smap(func(x *Exec, m *omap, a []value) value {
		if i := x.findKey(m, anyT, a[1]); i >= 0 {
			del(m, i)
		}
		return nil
	}), "(*sync.Map).Delete")
	reg(smap(func(x *Exec, m *omap, a []value) value {
		m.keys, m.vals = nil, nil
		return nil
	}), "(*sync.Map).Clear")
	reg(smap(func(x *Exec, m *omap, a []value) value {
		if i := x.findKey(m, anyT, a[1]); i >= 0 && x.branch(x.equals(anyT, m.vals[i], a[2])) {
			m.vals[i] = copyVal(a[3])
			return true
		}
		return false
	}), "(*sync.Map).CompareAndSwap")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		if x.spec > 0 {
			panic(specAbort{})
		}
		m := x.syncMaps[x.ptrQ(a[0])]
		if m == nil {
			return nil
		}
		ks, vs := append([]value(nil), m.keys...), append([]value(nil), m.vals...)
		for i := range ks {
			r := x.call(nil, a[1], []value{ks[i], vs[i]})
			if !x.branch(x.symBool(r)) {
				break
			}
		}
		return nil
	}, "(*sync.Map).Range")
}

// ptrQ is ptr without recording an access.
func (x *Exec) ptrQ(v value) (p *value) {
	x.quietly(func() { p = x.ptr(v) })
	return
}
