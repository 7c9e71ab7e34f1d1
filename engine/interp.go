package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	ipdom []int    // immediate postdominator block index, -1 none; computed on demand
	carry sync.Map // *ssa.BasicBlock -> []ssa.Value
}

type deferred struct {
	fn   value
	args []value
}

type frame struct {
	fn        *ssa.Function
	info      *fnInfo
	env       []value
	fv        []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    value
	caller    *frame
	panic     *targetPanic
	recovered bool
	returned  bool
	phiDone   *ssa.BasicBlock // block whose phis were already set by a merge
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.prog.infos.Load(fn); ok {
		return i.(*fnInfo)
	}
	i := &fnInfo{idx: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		i.idx[p] = i.n
		i.n++
	}
	for _, p := range fn.FreeVars {
		i.idx[p] = i.n
		i.n++
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				i.idx[v] = i.n
				i.n++
			}
		}
	}
	if len(fn.Blocks) > 0 {
		i.ipdom = i.postdom(fn)
	}
	x.prog.infos.Store(fn, i)
	return i
}

// postdom computes immediate postdominators (simple iterative sets; functions are small).
func (fi *fnInfo) postdom(fn *ssa.Function) []int {
	if fi.ipdom != nil {
		return fi.ipdom
	}
	n := len(fn.Blocks)
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n+1) // n = exit
	for i := 0; i < n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[n] = make([]uint64, words)
	pd[n][n/64] |= 1 << (n % 64)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			nw := append([]uint64(nil), full...)
			succ := fn.Blocks[i].Succs
			if len(succ) == 0 {
				copy(nw, pd[n])
			}
			for _, s := range succ {
				for k := range nw {
					nw[k] &= pd[s.Index][k]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	has := func(i, j int) bool { return pd[i][j/64]>>(j%64)&1 == 1 }
	cnt := func(i int) int {
		c := 0
		for j := 0; j <= n; j++ {
			if has(i, j) {
				c++
			}
		}
		return c
	}
	res := make([]int, n)
	for i := 0; i < n; i++ {
		res[i] = -1
		want := cnt(i) - 1
		for j := 0; j < n; j++ {
			if j != i && has(i, j) && cnt(j) == want {
				res[i] = j
			}
		}
	}
	fi.ipdom = res
	return res
}

func (x *Exec) get(fr *frame, v ssa.Value) value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.global(v)
	case *ssa.Function, *ssa.Builtin:
		return v
	case nil:
		return nil
	}
	return fr.env[fr.info.idx[v]]
}

func (x *Exec) constVal(c *ssa.Const) value {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, signed := width(b)
			if signed {
				return uint64(c.Int64()) & mask(w)
			}
			return c.Uint64() & mask(w)
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(unsupported("constant %s", c))
}

func (x *Exec) initRepoPackages() {
	for _, p := range x.prog.repoPkgs {
		x.initPkg(p)
	}
}

func (x *Exec) initPkg(p *ssa.Package) {
	if x.inited[p] {
		return
	}
	x.inited[p] = true
	if skipInit(p.Pkg.Path()) {
		return
	}
	if x.spec > 0 {
		x.inited[p] = false
		panic(specAbort{})
	}
	if f := p.Func("init"); f != nil {
		x.quietly(func() { x.call(nil, f, nil) })
	}
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "os", "syscall", "time", "fmt", "sync", "sync/atomic", "unicode", "crypto/rand", "math/rand",
		"math/big", "github.com/bwesterb/go-ristretto", "github.com/dusk-network/bn256", "golang.org/x/crypto/sha3",
		"golang.org/x/crypto/blake2b", "github.com/OneOfOne/xxhash", "log", "strconv", "hash", "crypto", "internal/cpu",
		"encoding/base64", "encoding/hex", "github.com/bwesterb/go-ristretto/edwards25519", "testing":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "crypto/")
}

func (x *Exec) global(g *ssa.Global) *value {
	if p, ok := x.globals[g]; ok {
		return p
	}
	if v := x.specialGlobal(g); v != nil {
		p := new(value)
		*p = v
		x.globals[g] = p
		return p
	}
	if g.Pkg != nil && !x.inited[g.Pkg] {
		x.initPkg(g.Pkg)
		if p, ok := x.globals[g]; ok {
			return p
		}
	}
	p := new(value)
	*p = x.zero(g.Type().(*types.Pointer).Elem())
	x.globals[g] = p
	return p
}

func (x *Exec) tpanic(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	panic(targetPanic{v: x.mkErr("runtime error: " + msg), msg: "runtime error: " + msg})
}

// call runs fn with args.
func (x *Exec) call(caller *frame, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			x.tpanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return x.callSSA(caller, fn, args, nil)
	case *closure:
		return x.callSSA(caller, fn.fn, args, fn.env)
	case *nativeFunc:
		return fn.f(x, args)
	case *ssa.Builtin:
		panic(unsupported("builtin %s as value", fn.Name()))
	case nil:
		x.tpanic("invalid memory address or nil pointer dereference (nil func)")
	}
	panic(unsupported("call of %T", fn))
}

func (x *Exec) callSSA(caller *frame, fn *ssa.Function, args []value, env []value) value {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if fn.Synthetic != "" && fn.Name() == "init" && fn.Pkg != nil {
		// package initialisers are run through initPkg only
		if skipInit(fn.Pkg.Pkg.Path()) || x.depth > 0 && !x.inited[fn.Pkg] {
			return nil
		}
	}
	if f, ok := intrinsics[name]; ok {
		x.st.Intrin[name]++
		return f(x, fn, args)
	}
	if fn.Pkg == nil || !x.built[fn.Pkg] {
		x.prog.build(fn)
		x.built[fn.Pkg] = true
	}
	if fn.Blocks == nil {
		panic(unsupported("no body: %s", name))
	}
	if denied(fn) {
		panic(unsupported("not modelled: %s", name))
	}
	x.depth++
	if x.depth > 400 {
		panic(unsupported("recursion depth in %s", name))
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) {
		x.st.Funcs[name]++
	}
	x.callers = append(x.callers, fn)
	nc := len(x.callers)
	defer func() {
		x.depth--
		if r := recover(); r != nil {
			// keep callers for the report of an uncaught panic
			panic(r)
		}
		x.callers = x.callers[:nc-1]
	}()
	info := x.info(fn)
	fr := &frame{fn: fn, info: info, env: make([]value, info.n), caller: caller}
	for i, p := range fn.Params {
		fr.env[info.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[info.idx[p]] = env[i]
	}
	fr.block = fn.Blocks[0]
	x.runFrame(fr)
	return fr.result
}

func denied(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	switch p {
	case "reflect", "os", "syscall", "runtime", "github.com/bwesterb/go-ristretto", "github.com/bwesterb/go-ristretto/edwards25519",
		"math/big", "golang.org/x/crypto/sha3", "golang.org/x/crypto/blake2b", "github.com/OneOfOne/xxhash", "fmt", "time",
		"crypto/rand", "math/rand", "sync/atomic", "net", "testing":
		return true
	case "github.com/dusk-network/bn256":
		return fn.Name() != "init"
	}
	return strings.HasPrefix(p, "crypto/internal") || strings.HasPrefix(p, "internal/") && p != "internal/byteorder" && p != "internal/bytealg" && p != "internal/stringslite"
}

// runFrame executes fr with Go's panic/defer/recover semantics.
func (x *Exec) runFrame(fr *frame) {
	defer func() {
		if fr.returned {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok || len(fr.defers) == 0 {
			panic(r)
		}
		if x.spec > 0 {
			panic(specAbort{})
		}
		nc := len(x.callers)
		fr.panic = &tp
		x.runDefers(fr)
		if fr.panic != nil {
			panic(*fr.panic)
		}
		_ = nc
		// recovered: trim the caller stack back to this frame, then run the recover block
		for len(x.callers) > 0 && x.callers[len(x.callers)-1] != fr.fn {
			x.callers = x.callers[:len(x.callers)-1]
		}
		if fr.fn.Recover != nil {
			fr.block, fr.prev = fr.fn.Recover, nil
			x.runBlocks(fr, nil)
		} else {
			fr.result = x.zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
		fr.returned = true
	}()
	x.runBlocks(fr, nil)
	fr.returned = true
}

func (x *Exec) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						fr.panic = &tp
						return
					}
					panic(r)
				}
			}()
			x.callIn(fr, d.fn, d.args)
		}()
	}
}

// callIn calls fn with fr as the deferring frame so that recover() finds the panic.
func (x *Exec) callIn(fr *frame, fn value, args []value) {
	if b, ok := fn.(*ssa.Builtin); ok {
		x.builtin(fr, b, args, nil)
		return
	}
	x.call(fr, fn, args)
}

// runBlocks executes from fr.block until return, or until stop is reached (merging).
func (x *Exec) runBlocks(fr *frame, stop *ssa.BasicBlock) (returned bool) {
	for {
		b := fr.block
		if b == stop {
			return false
		}
		instrs := b.Instrs
		i := 0
		// phis are evaluated in parallel
		if fr.phiDone == b {
			fr.phiDone = nil
			for i < len(instrs) {
				if _, ok := instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
		} else if _, ok := instrs[0].(*ssa.Phi); ok {
			vals := x.phiVals(fr, b, fr.prev)
			for k, v := range vals {
				fr.env[fr.info.idx[instrs[k].(*ssa.Phi)]] = v
			}
			i = len(vals)
		}
		next := (*ssa.BasicBlock)(nil)
		for ; i < len(instrs); i++ {
			x.steps++
			if x.steps > x.stepLim {
				x.overBudget()
			}
			if x.steps&0xfff == 0 {
				x.tick()
			}
			switch ins := instrs[i].(type) {
			case *ssa.DebugRef:
			case *ssa.If:
				c := x.get(fr, ins.Cond)
				switch c := c.(type) {
				case bool:
					if c {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				case *Expr:
					if v, ok := x.lookup(c); ok {
						if v {
							next = b.Succs[0]
						} else {
							next = b.Succs[1]
						}
					} else if x.tryMerge(fr, b, c) {
						next = fr.block
						goto merged
					} else if x.branch(c) {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				default:
					panic(unsupported("if on %T", c))
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				if x.spec > 0 && stop != nil {
					panic(specAbort{})
				}
				switch len(ins.Results) {
				case 0:
				case 1:
					fr.result = x.get(fr, ins.Results[0])
				default:
					t := make(tuple, len(ins.Results))
					for k, r := range ins.Results {
						t[k] = x.get(fr, r)
					}
					fr.result = t
				}
				return true
			case *ssa.Panic:
				v := x.get(fr, ins.X)
				panic(targetPanic{v: v, msg: "panic: " + x.show(v)})
			case *ssa.RunDefers:
				if len(fr.defers) > 0 {
					if x.spec > 0 {
						panic(specAbort{})
					}
					fr.panic = nil
					x.runDefers(fr)
					if fr.panic != nil {
						p := *fr.panic
						panic(p)
					}
				}
			default:
				x.instr(fr, instrs[i])
			}
		}
		if next == nil {
			panic(unsupported("block without successor in %s", fr.fn))
		}
		fr.prev, fr.block = b, next
		continue
	merged:
		// fr.block is the join block with its phis already set
	}
}

func (x *Exec) phiVals(fr *frame, b, prev *ssa.BasicBlock) []value {
	edge := -1
	for k, p := range b.Preds {
		if p == prev {
			edge = k
			break
		}
	}
	var out []value
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if edge < 0 {
			out = append(out, nil)
			continue
		}
		out = append(out, x.get(fr, phi.Edges[edge]))
	}
	return out
}

func (x *Exec) overBudget() {
	if x.spec == 0 && x.workLim > 0 && x.steps > x.workLim {
		x.workLim = 0
		x.stepLim = x.opts.MaxSteps
		x.assert(x.ec.False, "steps", "work is bounded by the input size")
	}
	panic(pathEnd{"step budget"})
}

const (
	decMerge   = -2
	decNoMerge = -3
)

// carried lists the registers which the arms of a branch may set anew (the branch lies in a loop) and which are still
// valid at the join.
func (fi *fnInfo) carried(b, join *ssa.BasicBlock) []ssa.Value {
	if v, ok := fi.carry.Load(b); ok {
		return v.([]ssa.Value)
	}
	seen := map[*ssa.BasicBlock]bool{join: true}
	var out []ssa.Value
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[c] {
			continue
		}
		seen[c] = true
		work = append(work, c.Succs...)
		if !c.Dominates(join) {
			continue
		}
		for _, ins := range c.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok {
				continue
			}
			if _, ok := fi.idx[v]; !ok {
				continue
			}
			refs := v.Referrers()
			if refs == nil {
				continue
			}
			for _, r := range *refs {
				if r.Block() != c {
					out = append(out, v)
					break
				}
			}
		}
	}
	fi.carry.Store(b, out)
	return out
}

// tryMerge executes both arms of a conditional speculatively up to its postdominator and merges the results.
func (x *Exec) tryMerge(fr *frame, b *ssa.BasicBlock, c *Expr) (ok bool) {
	if x.opts.NoMerge {
		return false
	}
	pd := fr.info.postdom(fr.fn)[b.Index]
	if pd < 0 {
		return false
	}
	join := fr.fn.Blocks[pd]
	if x.spec == 0 {
		// the outcome is part of the recorded decisions, so that a replayed prefix takes the same course
		if i := len(x.decs); i < len(x.prefix) {
			v := x.prefix[i]
			x.decs = append(x.decs, v)
			if v == decNoMerge {
				return false
			}
			defer func() {
				if !ok {
					panic(unsupported("merge not repeatable"))
				}
			}()
		} else {
			if x.noMerge[b] > 3 {
				x.decs = append(x.decs, decNoMerge)
				return false
			}
			defer func() {
				if ok {
					x.decs = append(x.decs, decMerge)
				} else {
					x.decs = append(x.decs, decNoMerge)
				}
			}()
		}
	}
	type arm struct {
		w    map[*value]value
		ord  []*value
		phis []value
		regs []value
	}
	carried := fr.info.carried(b, join)
	saveEnv := append([]value(nil), fr.env...)
	savePrev, saveBlock := fr.prev, fr.block
	saveDefers := len(fr.defers)
	saveCallers := len(x.callers)
	saveDepth := x.depth
	startJ := len(x.journal)
	startSteps := x.steps
	nconds := len(x.conds)
	run := func(succ *ssa.BasicBlock) (a arm, ok bool) {
		x.spec++
		j0 := len(x.journal)
		defer func() {
			x.spec--
			if r := recover(); r != nil {
				switch r.(type) {
				case specAbort, targetPanic, unsupportedErr:
					ok = false
				default:
					panic(r)
				}
			}
			// roll back
			a.w = map[*value]value{}
			for k := len(x.journal) - 1; k >= j0; k-- {
				u := x.journal[k]
				if _, seen := a.w[u.p]; !seen {
					a.w[u.p] = *u.p
					a.ord = append(a.ord, u.p)
				}
			}
			for k := len(x.journal) - 1; k >= j0; k-- {
				*x.journal[k].p = x.journal[k].old
			}
			x.journal = x.journal[:j0]
			x.callers = x.callers[:saveCallers]
			x.depth = saveDepth
			if len(fr.defers) > saveDefers {
				fr.defers = fr.defers[:saveDefers]
				ok = false
			}
		}()
		copy(fr.env, saveEnv)
		fr.prev, fr.block = b, succ
		fr.phiDone = nil
		lim := x.stepLim
		if x.steps+20000 < lim {
			x.stepLim = x.steps + 20000
		}
		defer func() { x.stepLim = lim }()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if pe, isPE := r.(pathEnd); isPE && pe.reason == "step budget" {
						panic(specAbort{})
					}
					panic(r)
				}
			}()
			if x.runBlocks(fr, join) {
				panic(specAbort{})
			}
		}()
		for _, v := range carried {
			a.regs = append(a.regs, fr.env[fr.info.idx[v]])
		}
		if fr.phiDone == join {
			// reached through an inner merge with the same join, which has set the phis
			for _, ins := range join.Instrs {
				phi, isPhi := ins.(*ssa.Phi)
				if !isPhi {
					break
				}
				a.phis = append(a.phis, fr.env[fr.info.idx[phi]])
			}
			fr.phiDone = nil
			return a, true
		}
		a.phis = x.phiVals(fr, join, fr.prev)
		return a, true
	}
	restore := func() {
		copy(fr.env, saveEnv)
		fr.prev, fr.block = savePrev, saveBlock
		fr.phiDone = nil
		x.steps = startSteps
		if x.spec == 0 {
			x.noMerge[b]++
		}
	}
	a1, ok1 := run(b.Succs[0])
	if !ok1 {
		restore()
		return false
	}
	a2, ok2 := run(b.Succs[1])
	if !ok2 {
		restore()
		return false
	}
	if len(x.conds) != nconds || len(x.journal) != startJ {
		panic(unsupported("merge changed the path condition"))
	}
	type w struct {
		p *value
		v value
	}
	var ws []w
	for _, p := range a1.ord {
		v2, in := a2.w[p]
		if !in {
			v2 = *p
		}
		v, okm := x.mergeVal(c, a1.w[p], v2)
		if !okm {
			restore()
			return false
		}
		ws = append(ws, w{p, v})
	}
	for _, p := range a2.ord {
		if _, in := a1.w[p]; in {
			continue
		}
		v, okm := x.mergeVal(c, *p, a2.w[p])
		if !okm {
			restore()
			return false
		}
		ws = append(ws, w{p, v})
	}
	phis := make([]value, len(a1.phis))
	for i := range phis {
		v, okm := x.mergeValT(c, a1.phis[i], a2.phis[i], join.Instrs[i].(*ssa.Phi).Type())
		if !okm {
			restore()
			return false
		}
		phis[i] = v
	}
	regs := make([]value, len(carried))
	for i, r := range carried {
		v, okm := x.mergeValT(c, a1.regs[i], a2.regs[i], r.Type())
		if !okm {
			restore()
			return false
		}
		regs[i] = v
	}
	copy(fr.env, saveEnv)
	for i, v := range carried {
		fr.env[fr.info.idx[v]] = regs[i]
	}
	for _, y := range ws {
		if x.spec > 0 {
			x.journal = append(x.journal, undo{y.p, *y.p})
		}
		*y.p = y.v
	}
	for i, v := range phis {
		fr.env[fr.info.idx[join.Instrs[i].(*ssa.Phi)]] = v
	}
	fr.prev, fr.block = b, join
	fr.phiDone = join
	x.st.Merged++
	return true
}

// mergeValT merges with the static type known, which gives concrete integers their width.
func (x *Exec) mergeValT(c *Expr, a, b value, t types.Type) (value, bool) {
	ka, ok1 := a.(uint64)
	kb, ok2 := b.(uint64)
	if ok1 && ok2 && ka != kb {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			w, _ := width(t)
			return conc(x.ec.Ite(c, x.ec.K(w, ka), x.ec.K(w, kb))), true
		}
		return nil, false
	}
	return x.mergeVal(c, a, b)
}

func (x *Exec) mergeVal(c *Expr, a, b value) (value, bool) {
	switch av := a.(type) {
	case uint64:
		switch bv := b.(type) {
		case uint64:
			if av == bv {
				return a, true
			}
			// width unknown here: only 64-bit-safe merges of Booleans as ints are not possible; use a width tag
			return nil, false
		case *Expr:
			return conc(x.ec.Ite(c, x.ec.K(bv.w, av), bv)), true
		}
	case bool:
		bb := x.symBoolOrNil(b)
		if bb == nil {
			return nil, false
		}
		return conc(x.ec.IteB(c, x.ec.B(av), bb)), true
	case *Expr:
		switch bv := b.(type) {
		case uint64:
			return conc(x.ec.Ite(c, av, x.ec.K(av.w, bv))), true
		case bool:
			return conc(x.ec.IteB(c, av, x.ec.B(bv))), true
		case *Expr:
			if av.w != bv.w {
				return nil, false
			}
			return conc(x.ec.Ite(c, av, bv)), true
		}
	case *FE:
		bf, ok := b.(*FE)
		if !ok {
			return nil, false
		}
		if av == bf {
			return av, true
		}
		return &FE{x.mergePoly(c, av.p, bf.p)}, true
	case *PT:
		bp, ok := b.(*PT)
		if !ok {
			return nil, false
		}
		if av == bp {
			return av, true
		}
		if av.poison || bp.poison {
			if av.poison && bp.poison {
				return av, true
			}
			return nil, false
		}
		return &PT{p: x.mergePoly(c, av.p, bp.p)}, true
	case string:
		if bs, ok := b.(string); ok && bs == av {
			return a, true
		}
		return nil, false
	case *value:
		if bp, ok := b.(*value); ok && bp == av {
			return a, true
		}
		return nil, false
	case []value:
		bs, ok := b.([]value)
		if ok && len(av) == len(bs) && cap(av) == cap(bs) && (cap(av) == 0 && (av == nil) == (bs == nil) || cap(av) > 0 && &av[:1][0] == &bs[:1][0]) {
			return a, true
		}
		return nil, false
	case iface:
		bi, ok := b.(iface)
		if !ok {
			return nil, false
		}
		if av.t == nil && bi.t == nil {
			return a, true
		}
		if av.t == nil || bi.t == nil || !types.Identical(av.t, bi.t) {
			return nil, false
		}
		v, ok := x.mergeVal(c, av.v, bi.v)
		return iface{av.t, v}, ok
	case structure:
		bs, ok := b.(structure)
		if !ok || len(bs) != len(av) {
			return nil, false
		}
		out := make(structure, len(av))
		for i := range av {
			v, ok := x.mergeVal(c, av[i], bs[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case array:
		bs, ok := b.(array)
		if !ok || len(bs) != len(av) {
			return nil, false
		}
		out := make(array, len(av))
		for i := range av {
			v, ok := x.mergeVal(c, av[i], bs[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case nil:
		return nil, b == nil
	case *BIG:
		bb, ok := b.(*BIG)
		if !ok {
			return nil, false
		}
		if av == bb {
			return a, true
		}
		if av.be != nil || bb.be != nil || av.nc || bb.nc {
			return nil, false
		}
		f := fieldL
		if av.fe != nil {
			f = av.fe.f
		} else if bb.fe != nil {
			f = bb.fe.f
		}
		pa, pb := x.bigPoly(av, f), x.bigPoly(bb, f)
		if av.k != nil && (av.k.Sign() < 0 || av.k.Cmp(f.p) >= 0) || bb.k != nil && (bb.k.Sign() < 0 || bb.k.Cmp(f.p) >= 0) {
			return nil, false
		}
		return &BIG{fe: x.mergePoly(c, pa, pb)}, true
	case *ssa.Function, *closure, *omap, *opaque, *hashObj, *chanv:
		return a, a == b
	}
	return nil, false
}

func (x *Exec) symBoolOrNil(v value) *Expr {
	switch v := v.(type) {
	case bool:
		return x.ec.B(v)
	case *Expr:
		if v.w == 0 {
			return v
		}
	}
	return nil
}

func (x *Exec) mergePoly(c *Expr, a, b *Poly) *Poly {
	d := x.pc.sub(a, b)
	if d.isZero() {
		return a
	}
	return x.pc.add(b, x.pc.mul(x.ind(a.f, c), d))
}

func (x *Exec) show(v value) string {
	switch v := v.(type) {
	case iface:
		if v.t == nil {
			return "nil"
		}
		if s, ok := v.v.(string); ok {
			return s
		}
		if o, ok := v.v.(*opaque); ok {
			return o.kind
		}
		if p, ok := v.v.(*value); ok && p != nil {
			if st, ok := (*p).(structure); ok && len(st) > 0 {
				if s, ok := st[0].(string); ok {
					return s
				}
			}
		}
		return v.t.String()
	case string:
		return v
	}
	return fmt.Sprintf("%T", v)
}

func (x *Exec) deref(p value, what string) *value {
	pp, ok := p.(*value)
	if !ok {
		panic(unsupported("%s through %T", what, p))
	}
	if pp == nil {
		x.tpanic("invalid memory address or nil pointer dereference")
	}
	return pp
}

// index checks 0 <= i < n and returns a concrete index.
func (x *Exec) index(iv value, t types.Type, n int) int {
	switch i := iv.(type) {
	case uint64:
		w, signed := width(t)
		if signed {
			s := sext64(i, w)
			if s < 0 || s >= int64(n) {
				x.tpanic("index out of range [%d] with length %d", s, n)
			}
			return int(s)
		}
		if i >= uint64(n) {
			x.tpanic("index out of range [%d] with length %d", i, n)
		}
		return int(i)
	case *Expr:
		in := x.ec.Ult(i, x.ec.K(i.w, uint64(n)))
		if i.w < 64 && uint64(n) > mask(i.w) {
			in = x.ec.True
		}
		if !x.branch(in) {
			x.tpanic("index out of range [symbolic] with length %d", n)
		}
		return int(x.concretize(i, "index"))
	}
	panic(unsupported("index %T", iv))
}

func (x *Exec) instr(fr *frame, instr ssa.Instruction) {
	set := func(v ssa.Value, r value) { fr.env[fr.info.idx[v]] = r }
	switch ins := instr.(type) {
	case *ssa.UnOp:
		set(ins, x.unop(fr, ins))
	case *ssa.BinOp:
		set(ins, x.binop(ins.Op, ins.X.Type(), ins.Y.Type(), x.get(fr, ins.X), x.get(fr, ins.Y)))
	case *ssa.Call:
		fn, args := x.prepareCall(fr, &ins.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			set(ins, x.builtin(fr, b, args, &ins.Call))
		} else {
			set(ins, x.call(fr, fn, args))
		}
	case *ssa.ChangeInterface:
		set(ins, x.get(fr, ins.X))
	case *ssa.ChangeType:
		set(ins, x.get(fr, ins.X))
	case *ssa.Convert:
		set(ins, x.convert(ins.Type(), ins.X.Type(), x.get(fr, ins.X)))
	case *ssa.MultiConvert:
		set(ins, x.convert(ins.Type(), ins.X.Type(), x.get(fr, ins.X)))
	case *ssa.SliceToArrayPointer:
		s := x.get(fr, ins.X).([]value)
		at := ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int64(len(s)) < at.Len() {
			x.tpanic("cannot convert slice with length %d to array pointer with length %d", len(s), at.Len())
		}
		panic(unsupported("slice to array pointer"))
	case *ssa.MakeInterface:
		set(ins, iface{t: ins.X.Type(), v: copyVal(x.get(fr, ins.X))})
	case *ssa.Extract:
		set(ins, x.get(fr, ins.Tuple).(tuple)[ins.Index])
	case *ssa.Slice:
		set(ins, x.slice(fr, ins))
	case *ssa.Alloc:
		p := new(value)
		*p = x.zero(ins.Type().Underlying().(*types.Pointer).Elem())
		if ins.Heap {
			set(ins, p)
		} else {
			// re-executing a stack Alloc zeroes the same variable; pointers never outlive it, so a new cell is fine
			set(ins, p)
		}
	case *ssa.MakeSlice:
		x.makeSlice(fr, ins)
	case *ssa.MakeMap:
		set(ins, &omap{})
	case *ssa.MakeChan:
		q := new(value)
		*q = []value(nil)
		set(ins, &chanv{q})
	case *ssa.MakeClosure:
		var env []value
		for _, b := range ins.Bindings {
			env = append(env, x.get(fr, b))
		}
		set(ins, &closure{ins.Fn.(*ssa.Function), env})
	case *ssa.Store:
		p := x.deref(x.get(fr, ins.Addr), "store")
		x.store(p, copyVal(x.get(fr, ins.Val)))
	case *ssa.FieldAddr:
		p := x.deref(x.get(fr, ins.X), "field")
		st, ok := (*p).(structure)
		if !ok {
			panic(unsupported("field of modelled type %T in %s", *p, fr.fn))
		}
		set(ins, &st[ins.Field])
	case *ssa.Field:
		st, ok := x.get(fr, ins.X).(structure)
		if !ok {
			panic(unsupported("field of modelled type in %s", fr.fn))
		}
		set(ins, copyVal(st[ins.Field]))
	case *ssa.IndexAddr:
		bv := x.get(fr, ins.X)
		switch bv := bv.(type) {
		case []value:
			i := x.index(x.get(fr, ins.Index), ins.Index.Type(), len(bv))
			set(ins, &bv[i])
		case *value:
			p := x.deref(bv, "index")
			a, ok := (*p).(array)
			if !ok {
				panic(unsupported("index into modelled type %T", *p))
			}
			i := x.index(x.get(fr, ins.Index), ins.Index.Type(), len(a))
			set(ins, &a[i])
		default:
			panic(unsupported("indexaddr %T", bv))
		}
	case *ssa.Index:
		switch bv := x.get(fr, ins.X).(type) {
		case array:
			i := x.index(x.get(fr, ins.Index), ins.Index.Type(), len(bv))
			set(ins, copyVal(bv[i]))
		case string:
			i := x.index(x.get(fr, ins.Index), ins.Index.Type(), len(bv))
			set(ins, uint64(bv[i]))
		case *symString:
			i := x.index(x.get(fr, ins.Index), ins.Index.Type(), len(bv.b))
			set(ins, bv.b[i])
		default:
			panic(unsupported("index %T", bv))
		}
	case *ssa.Lookup:
		set(ins, x.lookupMap(fr, ins))
	case *ssa.MapUpdate:
		x.mapUpdate(fr, ins)
	case *ssa.Range:
		switch v := x.get(fr, ins.X).(type) {
		case *omap:
			it := &mapIter{}
			x.touchMap(v, false)
			if v != nil {
				it.m = &omap{append([]value(nil), v.keys...), append([]value(nil), v.vals...)}
				if len(v.keys) > 1 {
					x.st.Truncated["map iteration order fixed to insertion order"]++
				}
			}
			set(ins, it)
		case string:
			set(ins, &strIter{s: []rune(v), str: v})
		default:
			panic(unsupported("range over %T", v))
		}
	case *ssa.Next:
		if x.spec > 0 {
			panic(specAbort{})
		}
		switch it := x.get(fr, ins.Iter).(type) {
		case *mapIter:
			if it.m == nil || it.i >= len(it.m.keys) {
				set(ins, tuple{false, nil, nil})
			} else {
				set(ins, tuple{true, it.m.keys[it.i], it.m.vals[it.i]})
				it.i++
			}
		case *strIter:
			if it.i >= len(it.s) {
				set(ins, tuple{false, nil, nil})
			} else {
				set(ins, tuple{true, uint64(it.off), uint64(it.s[it.i])})
				it.off += len(string(it.s[it.i]))
				it.i++
			}
		}
	case *ssa.TypeAssert:
		set(ins, x.typeAssert(ins, x.get(fr, ins.X)))
	case *ssa.Defer:
		fn, args := x.prepareCall(fr, &ins.Call)
		if x.spec > 0 {
			panic(specAbort{})
		}
		fr.defers = append(fr.defers, deferred{fn, args})
	case *ssa.Go:
		fn, args := x.prepareCall(fr, &ins.Call)
		if x.spec > 0 {
			panic(specAbort{})
		}
		x.st.Truncated["goroutines run to completion at their go statement"]++
		x.spawn(func() {
			if b, ok := fn.(*ssa.Builtin); ok {
				x.builtin(fr, b, args, &ins.Call)
			} else {
				x.call(nil, fn, args)
			}
		})
	case *ssa.Send:
		c := x.get(fr, ins.Chan).(*chanv)
		x.release(c)
		q := (*c.q).([]value)
		v := copyVal(x.get(fr, ins.X))
		x.quietly(func() { x.store(c.q, append(append([]value(nil), q...), v)) })
	case *ssa.Select:
		panic(unsupported("select"))
	default:
		panic(unsupported("instruction %T", instr))
	}
}

type mapIter struct {
	m *omap
	i int
}
type strIter struct {
	s   []rune
	str string
	i   int
	off int
}

func (x *Exec) makeSlice(fr *frame, ins *ssa.MakeSlice) {
	et := ins.Type().Underlying().(*types.Slice).Elem()
	lv, cv := x.get(fr, ins.Len), x.get(fr, ins.Cap)
	size := func(v value, t types.Type, what string) int {
		w, signed := width(t)
		switch v := v.(type) {
		case uint64:
			n := int64(v)
			if signed {
				n = sext64(v, w)
			}
			if n < 0 {
				x.tpanic("makeslice: %s out of range", what)
			}
			x.checkAlloc(n, et)
			return int(n)
		case *Expr:
			if signed && x.branch(x.ec.Slt(v, x.ec.K(w, 0))) {
				x.tpanic("makeslice: %s out of range", what)
			}
			if x.allocLim > 0 {
				es := max(sizes.Sizeof(et), 1)
				lim := uint64(x.allocLim / es)
				var pref []*Expr
				for _, sz := range []uint64{1 << 37, 1 << 33, 1 << 30, 1 << 27} {
					if k := sz / uint64(es); w >= 64 || k < 1<<w {
						pref = append(pref, x.ec.And(x.ec.Ult(x.ec.K(w, k), v), x.ec.Ult(v, x.ec.K(w, min(k*16, 1<<(w-1)-1)))))
					}
				}
				x.assertPrefer(x.ec.Not(x.ec.Ult(x.ec.K(w, lim), v)), "alloc", "allocation size is bounded by the input size", pref)
			}
			n := int64(x.concretize(v, "make"))
			x.checkAlloc(n, et)
			return int(n)
		}
		panic(unsupported("make %T", v))
	}
	n := size(lv, ins.Len.Type(), "len")
	c := n
	if ins.Cap != ins.Len {
		c = size(cv, ins.Cap.Type(), "cap")
	}
	if c < n {
		x.tpanic("makeslice: cap out of range")
	}
	if c > 20_000_000 {
		panic(unsupported("make of %d elements", c))
	}
	s := make([]value, c)
	x.fillZero(s, et)
	fr.env[fr.info.idx[ins]] = s[:n]
}

func (x *Exec) fillZero(s []value, et types.Type) {
	if len(s) == 0 {
		return
	}
	z := x.zero(et)
	switch z.(type) {
	case structure, array:
		for i := range s {
			s[i] = x.zero(et)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
}

func (x *Exec) checkAlloc(n int64, et types.Type) {
	if x.allocLim > 0 {
		es := max(sizes.Sizeof(et), 1)
		if n > x.allocLim/es {
			x.assert(x.ec.False, "alloc", "allocation size is bounded by the input size")
		}
	}
}

func (x *Exec) prepareCall(fr *frame, call *ssa.CallCommon) (fn value, args []value) {
	v := x.get(fr, call.Value)
	if call.Method == nil {
		fn = v
	} else {
		recv, ok := v.(iface)
		if !ok {
			panic(unsupported("invoke on %T", v))
		}
		if recv.t == nil {
			x.tpanic("invalid memory address or nil pointer dereference")
		}
		if f := x.modelMethod(recv, call.Method.Name()); f != nil {
			fn = f
		} else {
			m := x.prog.lookupMethod(recv.t, call.Method)
			if m == nil {
				panic(unsupported("method %s on %s", call.Method.Name(), recv.t))
			}
			fn = m
		}
		args = append(args, copyVal(recv.v))
	}
	for _, a := range call.Args {
		args = append(args, copyVal(x.get(fr, a)))
	}
	return
}

func (x *Exec) unop(fr *frame, ins *ssa.UnOp) value {
	v := x.get(fr, ins.X)
	switch ins.Op {
	case token.MUL:
		p := x.deref(v, "load")
		x.raceRead(p)
		return copyVal(*p)
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *Expr:
			return conc(x.ec.Not(b))
		}
	case token.SUB:
		w, _ := width(ins.X.Type())
		switch k := v.(type) {
		case uint64:
			return -k & mask(w)
		case float64:
			return -k
		case *Expr:
			return conc(x.ec.Neg(k))
		}
	case token.XOR:
		w, _ := width(ins.X.Type())
		switch k := v.(type) {
		case uint64:
			return ^k & mask(w)
		case *Expr:
			return conc(x.ec.BNot(k))
		}
	case token.ARROW:
		c := v.(*chanv)
		if c == nil {
			panic(unsupported("receive from nil channel"))
		}
		x.acquire(c)
		q := (*c.q).([]value)
		if len(q) == 0 {
			if x.prog.closedChan(c) {
				z := x.zero(ins.X.Type().Underlying().(*types.Chan).Elem())
				if ins.CommaOk {
					return tuple{z, false}
				}
				return z
			}
			panic(unsupported("receive blocks"))
		}
		r := q[0]
		x.quietly(func() { x.store(c.q, append([]value(nil), q[1:]...)) })
		if ins.CommaOk {
			return tuple{r, true}
		}
		return r
	}
	panic(unsupported("unop %s on %T", ins.Op, v))
}

func (x *Exec) binop(op token.Token, xt, yt types.Type, a, b value) value {
	switch op {
	case token.EQL:
		return conc(x.equals(xt, a, b))
	case token.NEQ:
		return conc(x.ec.Not(x.equals(xt, a, b)))
	}
	if _, ok := a.(float64); ok {
		return floatOp(op, a.(float64), b.(float64))
	}
	switch a.(type) {
	case string, *symString:
		return x.stringOp(op, a, b)
	}
	w, signed := width(xt)
	ka, ca := a.(uint64)
	kb, cb := b.(uint64)
	if ca && cb {
		return x.intOp(op, ka, kb, w, signed, yt)
	}
	if _, ok := a.(bool); ok {
		panic(unsupported("bool op %s", op))
	}
	ea := x.sym(a, w)
	wb, _ := width(yt)
	var eb *Expr
	if op == token.SHL || op == token.SHR {
		eb = x.sym(b, wb)
		if _, ys := width(yt); ys && eb.op != OConst {
			if x.branch(x.ec.Slt(eb, x.ec.K(wb, 0))) {
				x.tpanic("negative shift amount")
			}
		}
		// normalise the amount to width w, saturating
		if eb.op == OConst {
			k := eb.k
			if _, ys := width(yt); ys && sext64(k, wb) < 0 {
				x.tpanic("negative shift amount")
			}
			if op == token.SHL {
				return conc(x.ec.ShlK(ea, k))
			}
			if !signed {
				return conc(x.ec.LShrK(ea, k))
			}
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return conc(x.ec.AShr(ea, x.ec.K(w, k)))
		}
		k := x.concretize(eb, "shift amount")
		return x.binop(op, xt, yt, a, k)
	}
	eb = x.sym(b, w)
	switch op {
	case token.ADD:
		return conc(x.ec.Add(ea, eb))
	case token.SUB:
		return conc(x.ec.Sub(ea, eb))
	case token.MUL:
		return conc(x.ec.Mul(ea, eb))
	case token.QUO, token.REM:
		if x.branch(x.ec.Eq(eb, x.ec.K(w, 0))) {
			x.tpanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return conc(x.ec.SDiv(ea, eb))
		case op == token.QUO:
			return conc(x.ec.UDiv(ea, eb))
		case signed:
			return conc(x.ec.SRem(ea, eb))
		default:
			return conc(x.ec.URem(ea, eb))
		}
	case token.AND:
		return conc(x.ec.BAnd(ea, eb))
	case token.OR:
		return conc(x.ec.BOr(ea, eb))
	case token.XOR:
		return conc(x.ec.BXor(ea, eb))
	case token.AND_NOT:
		return conc(x.ec.BAnd(ea, x.ec.BNot(eb)))
	}
	lt := x.ec.Ult
	if signed {
		lt = x.ec.Slt
	}
	switch op {
	case token.LSS:
		return conc(lt(ea, eb))
	case token.LEQ:
		return conc(x.ec.Not(lt(eb, ea)))
	case token.GTR:
		return conc(lt(eb, ea))
	case token.GEQ:
		return conc(x.ec.Not(lt(ea, eb)))
	}
	panic(unsupported("binop %s", op))
}

func (x *Exec) intOp(op token.Token, a, b uint64, w uint8, signed bool, yt types.Type) value {
	m := mask(w)
	sa, sb := sext64(a, w), sext64(b, w)
	switch op {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO:
		if b == 0 {
			x.tpanic("integer divide by zero")
		}
		if signed {
			if sb == -1 {
				return uint64(-sa) & m
			}
			return uint64(sa/sb) & m
		}
		return a / b
	case token.REM:
		if b == 0 {
			x.tpanic("integer divide by zero")
		}
		if signed {
			if sb == -1 {
				return uint64(0)
			}
			return uint64(sa%sb) & m
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.SHL, token.SHR:
		wb, ys := width(yt)
		if ys && sext64(b, wb) < 0 {
			x.tpanic("negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				return uint64(0)
			}
			return (a << b) & m
		}
		if signed {
			if b > 63 {
				b = 63
			}
			return uint64(sa>>b) & m
		}
		if b >= 64 {
			return uint64(0)
		}
		return a >> b
	}
	if signed {
		switch op {
		case token.LSS:
			return sa < sb
		case token.LEQ:
			return sa <= sb
		case token.GTR:
			return sa > sb
		case token.GEQ:
			return sa >= sb
		}
	}
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic(unsupported("intop %s", op))
}

func floatOp(op token.Token, a, b float64) value {
	switch op {
	case token.ADD:
		return a + b
	case token.SUB:
		return a - b
	case token.MUL:
		return a * b
	case token.QUO:
		return a / b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic(unsupported("float op"))
}

func (x *Exec) stringOp(op token.Token, a, b value) value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if op == token.ADD {
		if ok1 && ok2 {
			return as + bs
		}
		return mkString(append(append([]value(nil), stringBytes(a)...), stringBytes(b)...))
	}
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return as < bs
		case token.LEQ:
			return as <= bs
		case token.GTR:
			return as > bs
		case token.GEQ:
			return as >= bs
		}
	}
	panic(unsupported("string op %s on symbolic strings", op))
}

func (x *Exec) convert(dst, src types.Type, v value) value {
	ud, us := dst.Underlying(), src.Underlying()
	if types.Identical(ud, us) {
		return v
	}
	if bd, ok := ud.(*types.Basic); ok {
		switch {
		case bd.Info()&types.IsInteger != 0:
			if bs, ok := us.(*types.Basic); ok {
				wd, _ := width(bd)
				switch {
				case bs.Info()&types.IsInteger != 0:
					ws, sg := width(bs)
					switch k := v.(type) {
					case uint64:
						if sg {
							return uint64(sext64(k, ws)) & mask(wd)
						}
						return k & mask(wd)
					case *Expr:
						if wd <= k.w {
							return conc(x.ec.Extract(k, wd-1, 0))
						}
						if sg {
							return conc(x.ec.SExt(k, wd))
						}
						return conc(x.ec.ZExt(k, wd))
					}
				case bs.Info()&types.IsFloat != 0:
					return uint64(int64(v.(float64))) & mask(wd)
				}
			}
		case bd.Info()&types.IsFloat != 0:
			switch k := v.(type) {
			case uint64:
				ws, sg := width(us)
				if sg {
					return float64(sext64(k, ws))
				}
				return float64(k)
			case float64:
				if bd.Kind() == types.Float32 {
					return float64(float32(k))
				}
				return k
			}
		case bd.Info()&types.IsString != 0:
			switch s := v.(type) {
			case []value:
				if es, ok := us.(*types.Slice); ok {
					if w, _ := width(es.Elem()); w == 8 {
						return mkString(s)
					}
				}
			case string, *symString:
				return s
			case uint64:
				return string(rune(int32(s)))
			}
		case bd.Kind() == types.UnsafePointer:
			panic(unsupported("unsafe.Pointer"))
		}
	}
	if sd, ok := ud.(*types.Slice); ok {
		if bs, ok := us.(*types.Basic); ok && bs.Info()&types.IsString != 0 {
			if w, _ := width(sd.Elem()); w == 8 {
				sb := stringBytes(v)
				out := make([]value, len(sb), roundupsize(int64(len(sb)), true))
				copy(out, sb)
				for i := len(sb); i < cap(out); i++ {
					out[:cap(out)][i] = uint64(0)
				}
				return out
			}
			if s, ok := v.(string); ok {
				var out []value
				for _, r := range s {
					out = append(out, uint64(uint32(r)))
				}
				return out
			}
		}
		if _, ok := us.(*types.Slice); ok {
			return v
		}
	}
	if at, ok := ud.(*types.Array); ok {
		if s, ok := v.([]value); ok {
			if int64(len(s)) < at.Len() {
				x.tpanic("cannot convert slice with length %d to array with length %d", len(s), at.Len())
			}
			out := make(array, at.Len())
			for i := range out {
				out[i] = copyVal(s[i])
			}
			return out
		}
	}
	if _, ok := ud.(*types.Pointer); ok {
		if _, ok := us.(*types.Pointer); ok {
			return v
		}
	}
	panic(unsupported("convert %s to %s", src, dst))
}

func (x *Exec) sliceBound(v value, t types.Type, def int) (int64, *Expr) {
	switch k := v.(type) {
	case nil:
		return int64(def), nil
	case uint64:
		w, signed := width(t)
		if signed {
			return sext64(k, w), nil
		}
		if k > math.MaxInt64 {
			return -1, nil
		}
		return int64(k), nil
	case *Expr:
		return int64(x.concretize(k, "slice bound")), nil
	}
	panic(unsupported("slice bound %T", v))
}

func (x *Exec) slice(fr *frame, ins *ssa.Slice) value {
	bv := x.get(fr, ins.X)
	getb := func(v ssa.Value, def int) int64 {
		if v == nil {
			return int64(def)
		}
		r, _ := x.sliceBound(x.get(fr, v), v.Type(), def)
		return r
	}
	switch s := bv.(type) {
	case string:
		lo, hi := getb(ins.Low, 0), getb(ins.High, len(s))
		if lo < 0 || hi < lo || hi > int64(len(s)) {
			x.tpanic("slice bounds out of range [%d:%d] with length %d", lo, hi, len(s))
		}
		return s[lo:hi]
	case *symString:
		lo, hi := getb(ins.Low, 0), getb(ins.High, len(s.b))
		if lo < 0 || hi < lo || hi > int64(len(s.b)) {
			x.tpanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return mkString(s.b[lo:hi])
	case []value:
		lo, hi, mx := getb(ins.Low, 0), getb(ins.High, len(s)), getb(ins.Max, cap(s))
		if lo < 0 || hi < lo || mx < hi || mx > int64(cap(s)) {
			x.tpanic("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s))
		}
		if s == nil {
			return s
		}
		return s[lo:hi:mx]
	case *value:
		p := x.deref(s, "slice")
		a, ok := (*p).(array)
		if !ok {
			panic(unsupported("slice of modelled type %T", *p))
		}
		lo, hi, mx := getb(ins.Low, 0), getb(ins.High, len(a)), getb(ins.Max, len(a))
		if lo < 0 || hi < lo || mx < hi || mx > int64(len(a)) {
			x.tpanic("slice bounds out of range [%d:%d:%d] with length %d", lo, hi, mx, len(a))
		}
		return []value(a)[lo:hi:mx]
	}
	panic(unsupported("slice of %T", bv))
}

func (x *Exec) findKey(m *omap, kt types.Type, k value) int {
	if m == nil {
		return -1
	}
	for i := range m.keys {
		if x.branch(x.equals(kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (x *Exec) lookupMap(fr *frame, ins *ssa.Lookup) value {
	mv := x.get(fr, ins.X)
	switch m := mv.(type) {
	case *omap:
		x.touchMap(m, false)
		mt := ins.X.Type().Underlying().(*types.Map)
		i := x.findKey(m, mt.Key(), x.get(fr, ins.Index))
		var v value
		if i < 0 {
			v = x.zero(mt.Elem())
		} else {
			v = copyVal(m.vals[i])
		}
		if ins.CommaOk {
			return tuple{v, i >= 0}
		}
		return v
	case string:
		i := x.index(x.get(fr, ins.Index), ins.Index.Type(), len(m))
		return uint64(m[i])
	case *symString:
		i := x.index(x.get(fr, ins.Index), ins.Index.Type(), len(m.b))
		return m.b[i]
	}
	panic(unsupported("lookup in %T", mv))
}

func (x *Exec) mapUpdate(fr *frame, ins *ssa.MapUpdate) {
	if x.spec > 0 {
		panic(specAbort{})
	}
	m := x.get(fr, ins.Map).(*omap)
	if m == nil {
		panic(targetPanic{v: iface{}, msg: "assignment to entry in nil map"})
	}
	mt := ins.Map.Type().Underlying().(*types.Map)
	x.touchMap(m, true)
	k, v := copyVal(x.get(fr, ins.Key)), copyVal(x.get(fr, ins.Value))
	if i := x.findKey(m, mt.Key(), k); i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (x *Exec) typeAssert(ins *ssa.TypeAssert, v value) value {
	itf := v.(iface)
	ok := false
	var r value
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		r = itf
		if itf.t != nil {
			ok = types.Implements(itf.t, it)
			if !ok {
				switch itf.v.(type) {
				case *hashObj, *opaque:
					ok = x.modelImplements(itf, it)
				}
			}
		}
		if !ok {
			r = iface{}
		}
	} else {
		if itf.t != nil && types.Identical(itf.t, ins.AssertedType) {
			ok = true
			r = itf.v
		}
	}
	if ins.CommaOk {
		if !ok {
			r = x.zero(ins.AssertedType)
		}
		return tuple{r, ok}
	}
	if !ok {
		x.tpanic("interface conversion: interface is %v, not %s", itf.t, ins.AssertedType)
	}
	return r
}
