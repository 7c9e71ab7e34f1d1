package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec explores one harness: every path is executed from the start along a prefix of recorded decisions; new
// decisions are made where the path condition leaves more than one outcome possible.
type Exec struct {
	prog  *Program
	entry *ssa.Function
	pc    *PolyCtx
	ec    *ExprCtx
	sol   *Solver
	st    *Stats
	opts  Options

	// per path
	prefix    []int
	decs      []int
	decN      []int
	conds     []*Expr
	known     map[int32]bool
	subst     map[int32]*Poly
	globals   map[*ssa.Global]*value
	inited    map[*ssa.Package]bool
	names     map[string]int
	hashes    map[string][]*hashEnt
	hashKey   map[string]*PVar
	hashIn    map[int32]*hashEnt
	digests   map[string][]*Expr // concrete digests by algorithm and value
	mustReach []string
	picks     int
	seedExpr  *Expr
	seedN     int
	genericH  bool
	fixH      int
	lazyH     bool
	openH     map[[2]int32]bool // pairs of hash outputs whose inputs may or may not be equal
	built     map[*ssa.Package]bool
	spec      int
	journal   []undo
	race      *raceState
	preempted bool
	par       *parState
	pools     map[*value][]value
	syncMaps  map[*value]*omap
	steps     int64
	stepLim   int64
	nd        []*ndVal
	randMode  int // how many random picks may still fork; -1: all
	randMemo  map[string]int
	clock     *Expr
	draws     []*Poly // scalars drawn at random so far
	script    []*Poly // scalars the next draws return
	nclock    int
	allocLim  int64
	workLim   int64
	decUsed   []*PVar
	validity  []validEnt
	unwindOK  bool
	reached   []string
	depth     int
	objID     int
	callers   []*ssa.Function
	must      map[string]bool
	tainted   map[string]bool

	noMerge map[*ssa.BasicBlock]int

	work       [][]int
	violations []*Violation
	deadline   time.Time
	witness    [][]NDRecord // nd values of completed paths, for native cross-validation
	incomplete string
}

type Options struct {
	MaxPaths   int
	MaxSteps   int64
	Timeout    time.Duration
	QueryMs    int
	MaxForks   int
	Witnesses  int
	StopFirst  bool
	Verbose    bool
	Harness    string
	Params     map[string]int
	GenericH   bool
	NoMerge    bool
	SolverLog  string
	MaxViol    int
	Deadline   time.Time
	SkipSolver bool
}

// ndVal is one value drawn through the harness API, in call order.
type ndVal struct {
	Name string
	Kind string // scalar point bytes bool int choose big
	N    int
	poly *Poly
	es   []*Expr
	k    int
	hi   *Poly
}

type Violation struct {
	Harness string
	Kind    string // assert, panic, alloc, steps, unreached
	Msg     string
	Where   string
	Values  []NDRecord
	Replay  string
	Status  string
	Detail  string
	Preempt bool // found with one call running in the middle of another
}

type NDRecord struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Hex  string `json:"hex,omitempty"`
	Int  int64  `json:"int,omitempty"`
}

// validEnt remembers that a condition stands for the validity of an encoding.
type validEnt struct {
	cond *Expr
	kind string
	b    []*Expr
}

type hashEnt struct {
	dom string
	in  []*Expr
	id  int
	v   *PVar
	obj *EncObj
}

func newExec(prog *Program, entry *ssa.Function, opts Options) *Exec {
	x := &Exec{prog: prog, entry: entry, opts: opts, st: newStats(), noMerge: map[*ssa.BasicBlock]int{}, built: map[*ssa.Package]bool{}}
	x.pc = newPolyCtx()
	x.ec = newExprCtx(x.pc)
	x.sol = newSolver(x.ec, x.st, opts.QueryMs)
	return x
}

func (x *Exec) resetPath(prefix []int) {
	x.prefix = prefix
	x.decs, x.decN = nil, nil
	x.conds = nil
	x.known = map[int32]bool{}
	x.subst = map[int32]*Poly{}
	x.globals = map[*ssa.Global]*value{}
	x.inited = map[*ssa.Package]bool{}
	x.names = map[string]int{}
	x.hashes = map[string][]*hashEnt{}
	x.hashKey = map[string]*PVar{}
	x.hashIn = map[int32]*hashEnt{}
	x.digests = map[string][]*Expr{}
	x.picks = 0
	x.seedExpr = nil
	x.seedN = 0
	x.genericH = true
	x.fixH = 0
	x.lazyH = false
	x.openH = map[[2]int32]bool{}
	x.spec = 0
	x.journal = nil
	x.race, x.par, x.preempted = nil, nil, false
	x.pools = map[*value][]value{}
	x.syncMaps = map[*value]*omap{}
	x.steps = 0
	x.stepLim = x.opts.MaxSteps
	x.nd = nil
	x.randMode = -1
	x.draws, x.script = nil, nil
	x.randMemo = map[string]int{}
	x.clock = nil
	x.nclock = 0
	x.allocLim = 0
	x.workLim = 0
	x.decUsed = nil
	x.validity = nil
	x.reached = nil
	x.depth = 0
	x.objID = 0
	x.callers = nil
	x.sol.reset()
}

// Run explores all paths.
func (x *Exec) Run() {
	defer x.sol.close()
	x.deadline = time.Now().Add(x.opts.Timeout)
	if !x.opts.Deadline.IsZero() && x.opts.Deadline.Before(x.deadline) {
		x.deadline = x.opts.Deadline
	}
	x.work = [][]int{nil}
	for len(x.work) > 0 {
		if time.Now().After(x.deadline) {
			x.incomplete = "time limit"
			break
		}
		if x.st.Paths >= x.opts.MaxPaths {
			x.incomplete = "path limit"
			break
		}
		p := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runPath(p)
		if len(x.violations) >= x.opts.MaxViol {
			x.incomplete = "stopped at violation"
			break
		}
	}
}

func (x *Exec) runPath(prefix []int) {
	x.resetPath(prefix)
	x.st.Paths++
	status := "done"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					status = r.reason
				case unsupportedErr:
					status = "unsupported"
					x.st.Unsup[r.msg]++
				case specAbort:
					status = "unsupported"
					x.st.Unsup["merge abort escaped"]++
				case exitHarness:
				case targetPanic:
					status = "panic"
					x.reportPanic(r)
				default:
					if x.opts.Verbose {
						panic(r)
					}
					status = "unsupported"
					x.st.Unsup[fmt.Sprintf("engine: %v", r)]++
				}
			}
		}()
		x.initRepoPackages()
		x.call(nil, x.entry, nil)
	}()
	if x.opts.Verbose {
		fmt.Printf("    path %d %v: %s (%d conds, %d steps)\n", x.st.Paths, x.decs, status, len(x.conds), x.steps)
	}
	x.st.Steps += x.steps
	if status == "done" {
		for _, r := range x.reached {
			x.st.Reached[r]++
		}
		x.st.Reached["end"]++
		if len(x.witness) < x.opts.Witnesses {
			if rec, ok := x.model(); ok {
				x.witness = append(x.witness, rec)
			}
		}
	} else if status == "infeasible" {
		x.st.Pruned++
	} else if status != "unsupported" && status != "panic" {
		x.st.Truncated[status]++
	}
}

var debugForks = os.Getenv("VERIF_FORKS") != ""

// choose makes an n-way decision (all outcomes considered possible).
func (x *Exec) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if x.spec > 0 {
		panic(specAbort{})
	}
	i := len(x.decs)
	if i < len(x.prefix) {
		v := x.prefix[i]
		x.decs = append(x.decs, v)
		return v
	}
	x.st.Forks++
	for k := n - 1; k >= 1; k-- {
		alt := append(append([]int(nil), x.decs...), k)
		x.work = append(x.work, alt)
	}
	x.decs = append(x.decs, 0)
	return 0
}

// branch decides a condition, forking when both outcomes are possible.
func (x *Exec) branch(c *Expr) bool {
	if c == x.ec.True {
		return true
	}
	if c == x.ec.False {
		return false
	}
	if v, ok := x.lookup(c); ok {
		return v
	}
	if x.spec > 0 {
		panic(specAbort{})
	}
	i := len(x.decs)
	if i < len(x.prefix) {
		v := x.prefix[i]
		x.decs = append(x.decs, v)
		if v == 1 {
			x.assume(c)
		} else {
			x.assume(x.ec.Not(c))
		}
		return v == 1
	}
	rt := x.sol.check(c, false)
	if rt == unsat {
		x.decs = append(x.decs, 0)
		x.assume(x.ec.Not(c))
		return false
	}
	rf := x.sol.check(x.ec.Not(c), false)
	if rf == unsat {
		x.decs = append(x.decs, 1)
		x.assume(c)
		return true
	}
	x.st.Forks++
	if debugForks {
		fmt.Fprintf(os.Stderr, "fork %d op=%v\n%s\n", len(x.decs), c.op, debug.Stack())
	}
	x.work = append(x.work, append(append([]int(nil), x.decs...), 0))
	x.decs = append(x.decs, 1)
	x.assume(c)
	return true
}

func (x *Exec) lookup(c *Expr) (bool, bool) {
	if v, ok := x.known[c.id]; ok {
		return v, true
	}
	switch c.op {
	case ONot:
		v, ok := x.lookup(c.a[0])
		return !v, ok
	case OAnd:
		all := true
		for _, y := range c.a {
			v, ok := x.lookup(y)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, y := range c.a {
			v, ok := x.lookup(y)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

// assume adds a condition known to be feasible or to be checked later.
func (x *Exec) assume(c *Expr) {
	if c == x.ec.True {
		return
	}
	if c == x.ec.False {
		panic(pathEnd{"infeasible"})
	}
	x.conds = append(x.conds, c)
	x.sol.assert(c)
	x.learn(c, true)
}

func (x *Exec) learn(c *Expr, v bool) {
	if o, ok := x.known[c.id]; ok && o != v {
		panic(pathEnd{"infeasible"})
	}
	x.known[c.id] = v
	switch c.op {
	case ONot:
		x.learn(c.a[0], !v)
	case OAnd:
		if v {
			for _, y := range c.a {
				x.learn(y, true)
			}
		}
	case OOr:
		if !v {
			for _, y := range c.a {
				x.learn(y, false)
			}
		}
	case OFZero:
		if v {
			p := x.pc.subst(c.poly, x.subst)
			if pv, r, ok := x.pc.solvable(p, func(pv *PVar) bool { return !pv.generic && !pv.nonzero }); ok {
				s := map[int32]*Poly{pv: r}
				for k, q := range x.subst {
					x.subst[k] = x.pc.subst(q, s)
				}
				x.subst[pv] = r
			} else if pv, r, ok := x.pc.solvable(p, func(pv *PVar) bool { return !pv.generic }); ok {
				s := map[int32]*Poly{pv: r}
				for k, q := range x.subst {
					x.subst[k] = x.pc.subst(q, s)
				}
				x.subst[pv] = r
			}
		}
	}
	// a condition with an indicator variable fixes it
	if pv := x.pc.byName[fmt.Sprintf("ind#%d", c.id)]; pv != nil {
		k := int64(0)
		if v {
			k = 1
		}
		x.subst[pv.id] = x.pc.kint(pv.f, k)
	}
}

// assumeChecked is the harness's Assume.
func (x *Exec) assumeChecked(c *Expr) {
	if v, ok := x.lookup(c); ok {
		if !v {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	if c != x.ec.True && c != x.ec.False && len(x.decs) >= len(x.prefix) {
		if x.sol.check(c, false) == unsat {
			panic(pathEnd{"infeasible"})
		}
	}
	x.assume(c)
}

func (x *Exec) norm(p *Poly) *Poly {
	if len(x.subst) == 0 {
		return p
	}
	return x.pc.subst(p, x.subst)
}

func (x *Exec) fzero(p *Poly) *Expr {
	x.st.FieldEqs++
	q := x.norm(p)
	if d := x.distinct(q); d != nil {
		return d
	}
	return x.ec.fz(q)
}

// distinct decides whether q is zero where q is (a multiple of) the difference of two hash outputs, or of a hash
// output and a constant: hashes are taken to be collision free and not to hit a given constant. It returns nil for
// other polynomials.
func (x *Exec) distinct(q *Poly) *Expr {
	if len(q.ts) == 0 || len(q.ts) > 2 {
		return nil
	}
	var vs []int32
	for _, t := range q.ts {
		if len(t.m.vs) == 0 {
			continue
		}
		if len(t.m.vs) != 1 || t.m.vs[0].e != 1 || x.hashIn[t.m.vs[0].v] == nil {
			return nil
		}
		vs = append(vs, t.m.vs[0].v)
	}
	switch len(vs) {
	case 1:
		return x.ec.False
	case 2:
		var s big.Int
		s.Add(q.f.canon(q.ts[0].c), q.f.canon(q.ts[1].c))
		if s.Mod(&s, q.f.p).Sign() != 0 {
			return nil
		}
		if vs[0] > vs[1] {
			vs[0], vs[1] = vs[1], vs[0]
		}
		if x.openH[[2]int32{vs[0], vs[1]}] {
			return x.eqExprs(x.renorm(x.hashIn[vs[0]].in), x.renorm(x.hashIn[vs[1]].in))
		}
		return x.ec.False
	}
	return nil
}

// ind returns the polynomial of the 0/1 indicator of c in field f.
func (x *Exec) ind(f *Field, c *Expr) *Poly {
	if c == x.ec.True {
		return x.pc.kint(f, 1)
	}
	if c == x.ec.False {
		return x.pc.kint(f, 0)
	}
	if c.op == ONot {
		return x.pc.sub(x.pc.kint(f, 1), x.ind(f, c.a[0]))
	}
	name := fmt.Sprintf("ind#%d", c.id)
	if f != fieldL {
		name = fmt.Sprintf("ind%s#%d", f.name, c.id)
	}
	v := x.pc.newVar(name, f)
	v.cond = c
	return x.pc.pvar(v)
}

func (x *Exec) fresh(base string) string {
	n := x.names[base]
	x.names[base]++
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s~%d", base, n)
}

func (x *Exec) where() string {
	for i := len(x.callers) - 1; i >= 0; i-- {
		f := x.callers[i]
		if f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/dusk-network/dusk-crypto") {
			continue
		}
		if !strings.HasPrefix(f.Name(), "VH") {
			return f.String()
		}
	}
	if len(x.callers) > 0 {
		return x.callers[len(x.callers)-1].String()
	}
	return ""
}

// assert checks a property on the current path.
func (x *Exec) assert(c *Expr, kind, msg string) { x.assertPrefer(c, kind, msg, nil) }

// assertPrefer additionally names which counterexamples are the most telling ones.
func (x *Exec) assertPrefer(c *Expr, kind, msg string, prefer []*Expr) {
	x.st.Asserts++
	if c == x.ec.True {
		// decided by normalisation to an identity: discharge it as a (trivial) query too, so that every assertion
		// is answered by the solver over the path condition
		return
	}
	if v, ok := x.lookup(c); ok && v {
		return
	}
	if x.spec > 0 {
		panic(specAbort{})
	}
	nc := x.ec.Not(c)
	r := unsat
	if len(x.decs) >= len(x.prefix) || len(x.prefix) == 0 {
		for _, p := range prefer {
			if r = x.sol.check(x.ec.And(nc, p), true); r == sat {
				break
			}
		}
		if r != sat {
			r = x.sol.check(nc, true)
		}
	} else {
		// still replaying a prefix: this assertion was already checked when the prefix was first executed
		if c == x.ec.False {
			panic(pathEnd{"infeasible"})
		}
		x.assume(c)
		return
	}
	switch r {
	case sat:
		rec, ok := x.modelOpen()
		x.sol.endCheck()
		v := &Violation{Harness: x.opts.Harness, Kind: kind, Msg: msg, Where: x.where()}
		v.Values = rec
		if !ok {
			v.Detail = "partial model"
		}
		x.addViolation(v)
	case unknown:
		x.st.Truncated["assertion undecided: "+msg]++
	}
	if c == x.ec.False {
		panic(pathEnd{"after violation"})
	}
	x.assumeChecked(c)
}

func (x *Exec) addViolation(v *Violation) {
	v.Preempt = x.preempted
	for _, o := range x.violations {
		if o.Kind == v.Kind && o.Msg == v.Msg && o.Where == v.Where {
			// keep a few models of the same failure: some may not be realisable
			n := 0
			for _, p := range x.violations {
				if p.Kind == v.Kind && p.Msg == v.Msg {
					n++
				}
			}
			if n >= 4 {
				return
			}
		}
	}
	x.violations = append(x.violations, v)
}

func (x *Exec) reportPanic(p targetPanic) {
	if x.sol.check(x.ec.True, true) != unsat {
		rec, ok := x.modelOpen()
		x.sol.endCheck()
		v := &Violation{Harness: x.opts.Harness, Kind: "panic", Msg: p.msg, Where: x.where()}
		v.Values = rec
		if !ok {
			v.Detail = "partial model"
		}
		x.addViolation(v)
	} else {
		x.st.Pruned++
	}
}

// concretize turns a symbolic integer into a concrete one, forking over its feasible values.
func (x *Exec) concretize(e *Expr, what string) uint64 {
	if e.op == OConst {
		return e.k
	}
	if x.spec > 0 {
		panic(specAbort{})
	}
	const capN = 140
	// the values are part of the decision, so replay needs them: store them as decisions directly
	i := len(x.decs)
	if i < len(x.prefix) {
		v := uint64(x.prefix[i])
		x.decs = append(x.decs, int(v))
		x.assume(x.ec.Eq(e, x.ec.K(e.w, v)))
		return v
	}
	var vals []uint64
	block := x.ec.True
	for len(vals) < capN {
		r := x.sol.check(block, true)
		if r != sat {
			break
		}
		s, err := x.sol.getValues([]*Expr{e})
		x.sol.endCheck()
		if err != nil {
			break
		}
		v := parseBV(s[0])
		vals = append(vals, v)
		block = x.ec.And(block, x.ec.Not(x.ec.Eq(e, x.ec.K(e.w, v))))
	}
	if len(vals) == capN {
		x.st.Truncated["too many values for "+what]++
	}
	if len(vals) == 0 {
		panic(pathEnd{"infeasible"})
	}
	sort.Slice(vals, func(a, b int) bool { return vals[a] < vals[b] })
	x.st.Forks++
	for k := len(vals) - 1; k >= 1; k-- {
		x.work = append(x.work, append(append([]int(nil), x.decs...), int(vals[k])))
	}
	x.decs = append(x.decs, int(vals[0]))
	x.assume(x.ec.Eq(e, x.ec.K(e.w, vals[0])))
	return vals[0]
}

// eqExprs is equality of two byte strings, using what the bytes encode.
func (x *Exec) eqExprs(a, b []*Expr) *Expr {
	if len(a) != len(b) {
		return x.ec.False
	}
	var cs []*Expr
	for i := 0; i < len(a); {
		if a[i] == b[i] {
			i++
			continue
		}
		oa, ob := objAt(a, i), objAt(b, i)
		switch {
		case oa != nil && ob != nil && oa.n == ob.n:
			e := x.eqObj(oa, ob)
			if e == x.ec.False {
				return e
			}
			cs = append(cs, e)
			i += oa.n
			continue
		case oa != nil || ob != nil:
			o, other := oa, b
			if o == nil {
				o, other = ob, a
			}
			if k, ok := asConcrete(other[i:min(i+o.n, len(other))]); ok && len(k) == o.n {
				if e, ok := x.eqObjConst(o, k); ok {
					if e == x.ec.False {
						return e
					}
					cs = append(cs, e)
					i += o.n
					continue
				}
			}
		}
		e := x.ec.Eq(a[i], b[i])
		if e == x.ec.False {
			return e
		}
		cs = append(cs, e)
		i++
	}
	return x.ec.And(cs...)
}

// objAt reports the object whose complete encoding starts at position i.
func objAt(a []*Expr, i int) *EncObj {
	o := a[i].obj
	if o == nil || a[i].k != 0 || i+o.n > len(a) {
		return nil
	}
	for j := 1; j < o.n; j++ {
		if a[i+j].obj != o || a[i+j].k != uint64(j) {
			return nil
		}
	}
	return o
}

func (x *Exec) eqObj(a, b *EncObj) *Expr {
	if a == b {
		return x.ec.True
	}
	if a.kind != b.kind {
		if strings.HasPrefix(a.kind, "hash:") && strings.HasPrefix(b.kind, "hash:") {
			return x.ec.False
		}
		if (a.kind == "scalar") != (b.kind == "scalar") || strings.HasPrefix(a.kind, "hash:") || strings.HasPrefix(b.kind, "hash:") {
			return x.ec.BVar(fmt.Sprintf("coinc#%d#%d", a.id, b.id))
		}
		return x.ec.BVar(fmt.Sprintf("coinc#%d#%d", a.id, b.id))
	}
	if a.poly != nil && b.poly != nil {
		return x.fzero(x.pc.sub(a.poly, b.poly))
	}
	if a.in != nil || b.in != nil || strings.HasPrefix(a.kind, "hash:") {
		// collision-free: equal outputs exactly for equal inputs
		return x.eqExprs(a.in, b.in)
	}
	return x.ec.BVar(fmt.Sprintf("coinc#%d#%d", a.id, b.id))
}

func (x *Exec) eqBytesV(a, b []value) *Expr {
	return x.eqExprs(x.bytesToExprs(a), x.bytesToExprs(b))
}

// equals is Go's == on values of type t.
func (x *Exec) equals(t types.Type, a, b value) *Expr {
	switch a := a.(type) {
	case uint64, bool:
		switch b := b.(type) {
		case uint64, bool:
			return x.ec.B(a == b)
		case *Expr:
			if b.w == 0 {
				return x.ec.Iff(x.symBool(a), b)
			}
			return x.ec.Eq(x.sym(a, b.w), b)
		}
	case *Expr:
		if a.w == 0 {
			return x.ec.Iff(a, x.symBool(b))
		}
		return x.ec.Eq(a, x.sym(b, a.w))
	case float64:
		return x.ec.B(a == b.(float64))
	case string, *symString:
		return x.eqString(a, b)
	case *value:
		return x.ec.B(a == b.(*value))
	case iface:
		bi, ok := b.(iface)
		if !ok {
			panic(unsupported("compare iface with %T", b))
		}
		if a.t == nil || bi.t == nil {
			return x.ec.B(a.t == nil && bi.t == nil)
		}
		if !types.Identical(a.t, bi.t) {
			return x.ec.False
		}
		return x.equals(a.t, a.v, bi.v)
	case structure:
		bs := b.(structure)
		st := t.Underlying().(*types.Struct)
		var cs []*Expr
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, x.equals(st.Field(i).Type(), a[i], bs[i]))
		}
		return x.ec.And(cs...)
	case array:
		ba := b.(array)
		at := t.Underlying().(*types.Array)
		if w, _ := width(at.Elem()); w == 8 {
			if bt, ok := at.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				return x.eqBytesV([]value(a), []value(ba))
			}
		}
		var cs []*Expr
		for i := range a {
			cs = append(cs, x.equals(at.Elem(), a[i], ba[i]))
		}
		return x.ec.And(cs...)
	case *FE:
		return x.fzero(x.pc.sub(a.p, b.(*FE).p))
	case *PT:
		bp := b.(*PT)
		if a == bp {
			return x.ec.True
		}
		if a.poison && bp.poison {
			return x.ec.BVar(x.fresh("rep"))
		}
		if a.poison != bp.poison {
			return x.ec.False
		}
		// the same element may have different internal representations
		return x.ec.And(x.fzero(x.pc.sub(a.p, bp.p)), x.ec.BVar(x.fresh("rep")))
	case *omap:
		return x.ec.B(a == b.(*omap))
	case *chanv:
		return x.ec.B(a == b.(*chanv))
	case *ssa.Function:
		bf, _ := b.(*ssa.Function)
		if _, ok := b.(*closure); ok {
			return x.ec.False
		}
		return x.ec.B(a == bf)
	case *closure:
		return x.ec.False
	case *opaque:
		return x.ec.B(a == b)
	case *hashObj:
		return x.ec.B(a == b)
	case *nativeFunc:
		return x.ec.False
	case []value:
		bv, ok := b.([]value)
		if ok && (a == nil || bv == nil) {
			return x.ec.B(a == nil && bv == nil)
		}
	case nil:
		return x.ec.B(b == nil)
	}
	panic(unsupported("== on %T and %T", a, b))
}

func (x *Exec) eqString(a, b value) *Expr {
	as, aok := a.(string)
	bs, bok := b.(string)
	if aok && bok {
		return x.ec.B(as == bs)
	}
	return x.eqBytesV(stringBytes(a), stringBytes(b))
}

func stringBytes(v value) []value {
	switch v := v.(type) {
	case string:
		return concreteBytes([]byte(v))
	case *symString:
		return v.b
	}
	panic(unsupported("string expected, got %T", v))
}

func mkString(b []value) value {
	out := make([]byte, len(b))
	for i, v := range b {
		k, ok := v.(uint64)
		if !ok {
			return &symString{append([]value(nil), b...)}
		}
		out[i] = byte(k)
	}
	return string(out)
}

var _ = big.NewInt
