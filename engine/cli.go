package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var repoDir = func() string {
	// VERIF_REPO is for developing the checks against a scratch copy; the registered commands never set it
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

const (
	trustMsg = "trusted: the group and hash models in engine/intrin_*.go (prime-order groups by discrete logarithm, hashes as collision-free and generic functions), go/ssa, z3"
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: eng check PROPERTY quick|thorough | eng run PKG HARNESS [k=v ...] [-v] | eng replay FILE | eng list")
	os.Exit(2)
}

func cli() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		if len(os.Args) != 4 {
			usage()
		}
		r := check(os.Args[2], os.Args[3])
		pprof.StopCPUProfile()
		os.Exit(r)
	case "run":
		r := runOne(os.Args[2:])
		pprof.StopCPUProfile()
		os.Exit(r)
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	}
	usage()
}

type jobResult struct {
	job  *Job
	x    *Exec
	secs float64
	note string
}

func options(j *Job, verbose bool, deadline time.Time) Options {
	return Options{MaxPaths: j.Paths, MaxSteps: j.Steps, Timeout: time.Duration(j.Secs) * time.Second, QueryMs: j.QMs, Witnesses: j.Wit, Harness: j.Harness, Params: j.Params, MaxViol: j.MaxViol, Verbose: verbose, Deadline: deadline}
}

func mkWork() string {
	d, err := os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return d
}

func pkgsOf(jobs []*Job) []string {
	m := map[string]bool{}
	for _, j := range jobs {
		m[j.Pkg] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func runOne(args []string) int {
	pkg, h := args[0], args[1]
	j := &Job{Pkg: pkg, Harness: h, Params: map[string]int{}, Secs: 300, Paths: 10000, Steps: 200e6, QMs: 20000, Wit: 1, MaxViol: 12}
	verbose := false
	native := true
	for _, a := range args[2:] {
		if a == "-v" {
			verbose = true
			continue
		}
		if a == "-n" {
			native = false
			continue
		}
		i := strings.IndexByte(a, '=')
		n, _ := strconv.Atoi(a[i+1:])
		switch a[:i] {
		case "@t":
			j.Secs = n
		case "@must":
			j.Must = []string{a[i+1:]}
		case "@wit":
			j.Wit = n
		case "@fake":
			j.Fake = n != 0
		case "@tries":
			j.Tries = n
		default:
			j.Params[a[:i]] = n
		}
	}
	work := mkWork()
	defer os.RemoveAll(work)
	hdir := filepath.Join(verifDir(), "harness")
	t0 := time.Now()
	P, err := load(repoDir, hdir, work, []string{pkg})
	if err != nil {
		fmt.Println("load:", err)
		return 2
	}
	for f, r := range P.dropped {
		fmt.Println("dropped", f, r)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	fn := P.harness(pkg, h)
	if fn == nil {
		fmt.Println("no such harness")
		return 2
	}
	r := runJob(P, j, verbose, time.Time{})
	st := r.x.st
	fmt.Printf("%s: %.1fs paths=%d pruned=%d steps=%d asserts=%d forks=%d merged=%d fieldEqs=%d\n", j.label(), r.secs, st.Paths, st.Pruned, st.Steps, st.Asserts, st.Forks, st.Merged, st.FieldEqs)
	fmt.Printf("  queries=%d sat=%d unsat=%d unknown=%d lemmas=%d solver=%.1fs\n", st.Queries, st.Sat, st.Unsat, st.Unknown, st.Lemmas, st.SolverSec)
	fmt.Println("  unsupported:", st.Unsup, "truncated:", st.Truncated, "reached:", st.Reached, "incomplete:", r.x.incomplete)
	N := &Native{repo: repoDir, hdir: hdir, work: work, P: P, bins: map[string]string{}, errs: map[string]error{}}
	for _, v := range r.x.violations {
		fmt.Printf("  VIOL %s %q at %s %s\n", v.Kind, v.Msg, v.Where, v.Detail)
		if verbose {
			b, _ := json.Marshal(v.Values)
			fmt.Println("    ", string(b))
		}
		if native {
			ok, res := confirm(N, j, v)
			fmt.Println("    native:", ok, res.Status, firstLine(res.Msg))
		}
	}
	if native {
		for _, w := range r.x.witness {
			res, err := N.run(j.Pkg, variant(j.Fake, ""), []Case{{Harness: j.Harness, Params: j.Params, Values: w}}, 60*time.Second)
			if err != nil {
				fmt.Println("native:", err)
				continue
			}
			fmt.Println("  witness:", res[0].Status, firstLines(res[0].Msg, 12))
		}
	}
	return 0
}

func firstLine(s string) string { return firstLines(s, 1) }

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func runJob(P *Program, j *Job, verbose bool, deadline time.Time) (r *jobResult) {
	r = &jobResult{job: j}
	t0 := time.Now()
	fn := P.harness(j.Pkg, j.Harness)
	if fn == nil {
		r.note = "harness does not type-check against this tree"
		return r
	}
	r.x = newExec(P, fn, options(j, verbose, deadline))
	func() {
		defer func() {
			if e := recover(); e != nil {
				if verbose {
					panic(e)
				}
				r.note = fmt.Sprintf("engine: %v", e)
			}
		}()
		r.x.Run()
	}()
	r.secs = time.Since(t0).Seconds()
	x := r.x
	if j.Only != "" {
		var vs []*Violation
		for _, v := range x.violations {
			if v.Kind == j.Only {
				vs = append(vs, v)
			}
		}
		x.violations, x.witness = vs, nil
	}
	if x.incomplete == "" && r.note == "" && len(x.st.Unsup) == 0 && len(x.st.Truncated) == 0 {
		for _, m := range j.Must {
			if x.st.Reached["must:"+m] == 0 {
				v := &Violation{Harness: j.Harness, Kind: "unreached", Msg: m}
				if len(x.witness) > 0 {
					v.Values = x.witness[0]
				}
				x.violations = append(x.violations, v)
			}
		}
	}
	return r
}

// spread takes n of the models: the first, the last, and then evenly between them.
func spread(vs []*Violation, n int) []*Violation {
	if len(vs) <= n {
		return vs
	}
	out := []*Violation{vs[0], vs[len(vs)-1]}
	for i := 1; i < n-1; i++ {
		out = append(out, vs[i*(len(vs)-1)/(n-1)])
	}
	return out
}

// variant is the build of the test binary that a replay needs.
func variant(fake bool, kind string) string {
	switch {
	case kind == "race":
		return "race"
	case fake:
		return "fake"
	}
	return ""
}

// confirm replays a violation against the real code.
func confirm(N *Native, j *Job, v *Violation) (bool, Result) {
	c := Case{Harness: j.Harness, Params: j.Params, Values: v.Values, Tries: j.Tries, Seconds: 20}
	to := 60 * time.Second
	if v.Kind == "unreached" {
		c.Must = v.Msg
		if c.Tries == 0 {
			c.Tries = 40
		}
	}
	c.Tries = max(c.Tries, triesOf(v))
	if v.Preempt {
		c.Seconds = 8
	}
	res, err := N.run(j.Pkg, variant(j.Fake, v.Kind), []Case{c}, to)
	if err != nil {
		return false, Result{Status: "error", Msg: err.Error()}
	}
	r := res[0]
	switch r.Status {
	case "assert", "panic", "alloc":
		return true, r
	case "unreached":
		return v.Kind == "unreached", r
	case "crash":
		return true, r
	case "timeout":
		return v.Kind == "steps" || v.Kind == "alloc", r
	}
	return false, r
}

type finding struct {
	prop, harness, kind, msg, text string
}

// readFindings: lines "finding: property=ID harness=H kind=K msg=<message> | description".
func readFindings(file string) []finding {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		t := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(t, "finding:") {
			continue
		}
		t = strings.TrimSpace(strings.TrimPrefix(t, "finding:"))
		var fd finding
		if i := strings.Index(t, " | "); i >= 0 {
			fd.text = t[i+3:]
			t = t[:i]
		}
		if i := strings.Index(t, "msg="); i >= 0 {
			fd.msg = strings.TrimSpace(t[i+4:])
			t = t[:i]
		}
		for _, w := range strings.Fields(t) {
			switch {
			case strings.HasPrefix(w, "property="):
				fd.prop = w[9:]
			case strings.HasPrefix(w, "harness="):
				fd.harness = w[8:]
			case strings.HasPrefix(w, "kind="):
				fd.kind = w[5:]
			}
		}
		out = append(out, fd)
	}
	return out
}

func check(prop, tier string) int {
	t0 := time.Now()
	vd := verifDir()
	jobsAll, err := readJobs(filepath.Join(vd, "harness", "jobs.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var jobs []*Job
	for _, j := range jobsAll {
		if j.Prop == prop && (j.Tier == "" || j.Tier == tier) {
			if tier == "thorough" {
				j.Secs *= 6
				j.Paths *= 8
				j.Steps *= 4
				j.QMs *= 3
			}
			jobs = append(jobs, j)
		}
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "no jobs for", prop)
		return 2
	}
	budget := 330 * time.Second
	if tier == "thorough" {
		budget = 55 * time.Minute
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	deadline := t0.Add(budget)
	work := mkWork()
	defer os.RemoveAll(work)
	hdir := filepath.Join(vd, "harness")
	P, err := load(repoDir, hdir, work, pkgsOf(jobs))
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load /repo:", err)
		return 2
	}
	N := &Native{repo: repoDir, hdir: hdir, work: work, P: P, bins: map[string]string{}, errs: map[string]error{}}
	// compile the native replayers while exploring
	var wg sync.WaitGroup
	for _, p := range pkgsOf(jobs) {
		wg.Add(1)
		go func(p string) {
			defer wg.Done()
			if _, err := N.bin(p, ""); err != nil {
				fmt.Fprintln(os.Stderr, "native build:", p, err)
			}
		}(p)
	}
	go memory.watch()
	results := make([]*jobResult, len(jobs))
	idx := make(chan int)
	var ww sync.WaitGroup
	nw := 8
	if s := os.Getenv("VERIF_JOBS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	// once the real code has reproduced a violation, a quick run does not go on for long
	var stopAt int64
	var probing, probes int32
	probe := func(j *Job, v *Violation) {
		if tier != "quick" || atomic.AddInt32(&probes, 1) > 12 || !atomic.CompareAndSwapInt32(&probing, 0, 1) {
			return
		}
		defer atomic.StoreInt32(&probing, 0)
		for _, f := range readFindings(filepath.Join(vd, "known_findings.txt")) {
			if f.prop == prop && f.harness == j.Harness {
				return
			}
		}
		if ok, _ := confirm(N, j, v); ok && atomic.LoadInt64(&stopAt) == 0 {
			atomic.StoreInt64(&stopAt, time.Now().Add(45*time.Second).UnixNano())
		}
	}
	for w := 0; w < nw; w++ {
		ww.Add(1)
		go func() {
			defer ww.Done()
			for i := range idx {
				if time.Now().After(deadline) {
					results[i] = &jobResult{job: jobs[i], note: "not run: time budget used up"}
					continue
				}
				if t := atomic.LoadInt64(&stopAt); t != 0 && time.Now().UnixNano() > t {
					results[i] = &jobResult{job: jobs[i], note: "not run: a violation was found"}
					continue
				}
				memory.take(jobs[i].Mem)
				results[i] = runJob(P, jobs[i], false, deadline)
				memory.give(jobs[i].Mem)
				if x := results[i].x; x != nil {
					if len(x.violations) > 0 && atomic.LoadInt64(&stopAt) == 0 {
						probe(jobs[i], x.violations[0])
					}
					// release what is no longer needed
					x.pc, x.ec, x.sol, x.globals = nil, nil, nil, nil
					x.hashes, x.hashKey, x.hashIn, x.digests, x.nd, x.conds, x.known, x.subst, x.journal, x.decUsed, x.validity, x.randMemo = nil, nil, nil, nil, nil, nil, nil, nil, nil, nil, nil, nil
				}
			}
		}()
	}
	for i := range jobs {
		idx <- i
	}
	close(idx)
	ww.Wait()
	wg.Wait()
	return report(prop, tier, t0, P, N, jobs, results)
}

func report(prop, tier string, t0 time.Time, P *Program, N *Native, jobs []*Job, results []*jobResult) int {
	vd := verifDir()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rdir := filepath.Join(vd, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	findings := readFindings(filepath.Join(vd, "known_findings.txt"))
	total := newStats()
	funcs := map[string]int{}
	models := map[string]int{}
	var notes []string
	type jrep struct {
		Bounds     string         `json:"bounds"`
		Paths      int            `json:"paths"`
		Asserts    int            `json:"assertions"`
		Queries    int            `json:"queries"`
		Seconds    float64        `json:"seconds"`
		SolverSec  float64        `json:"solver_s"`
		Complete   bool           `json:"complete"`
		Incomplete string         `json:"incomplete,omitempty"`
		Reached    map[string]int `json:"reached,omitempty"`
	}
	var jreps []jrep
	complete := 0
	var samples []interface{}
	// witnesses: replay in batches per package
	type wit struct {
		j *Job
		c Case
	}
	byPkg := map[string][]wit{}
	for _, r := range results {
		if r.x == nil {
			notes = append(notes, r.job.label()+": "+r.note)
			jreps = append(jreps, jrep{Bounds: r.job.label(), Incomplete: r.note})
			continue
		}
		st := r.x.st
		inc := r.x.incomplete
		if r.note != "" {
			inc = r.note
		}
		for k, n := range st.Unsup {
			inc += fmt.Sprintf(" unsupported: %s (%d paths)", k, n)
		}
		for k, n := range st.Truncated {
			inc += fmt.Sprintf(" truncated: %s (%d)", k, n)
		}
		for _, n := range r.job.Reach {
			if st.Reached[n] == 0 {
				inc += " vacuous: " + n + " not reached"
			}
		}
		jr := jrep{Bounds: r.job.label(), Paths: st.Paths, Asserts: st.Asserts, Queries: st.Queries, Seconds: round(r.secs), SolverSec: round(st.SolverSec), Complete: inc == "", Incomplete: strings.TrimSpace(inc), Reached: st.Reached}
		jreps = append(jreps, jr)
		if inc == "" {
			complete++
		} else {
			notes = append(notes, r.job.label()+": "+strings.TrimSpace(inc))
		}
		total.Queries += st.Queries
		total.Sat += st.Sat
		total.Unsat += st.Unsat
		total.Unknown += st.Unknown
		total.Lemmas += st.Lemmas
		total.SolverSec += st.SolverSec
		total.Paths += st.Paths
		total.Pruned += st.Pruned
		total.Steps += st.Steps
		total.Asserts += st.Asserts
		total.Forks += st.Forks
		total.FieldEqs += st.FieldEqs
		for k, n := range st.Funcs {
			funcs[k] += n
		}
		for k, n := range st.Intrin {
			models[k] += n
		}
		for _, w := range r.x.witness {
			byPkg[r.job.Pkg] = append(byPkg[r.job.Pkg], wit{r.job, Case{Harness: r.job.Harness, Params: r.job.Params, Values: w}})
			if len(samples) < 3 {
				samples = append(samples, map[string]interface{}{"harness": r.job.label(), "values": trimRecs(w)})
			}
		}
	}
	validated, diverged := 0, 0
	type conf struct {
		j   *Job
		v   *Violation
		res Result
	}
	var confirmed []conf
	var unconfirmed []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for pkg, ws := range byPkg {
		const batch = 12
		for i := 0; i < len(ws); i += batch {
			part := ws[i:min(i+batch, len(ws))]
			wg.Add(1)
			sem <- true
			go func(pkg string, part []wit) {
				defer wg.Done()
				defer func() { <-sem }()
				var cs []Case
				for _, w := range part {
					cs = append(cs, w.c)
				}
				res, err := N.run(pkg, "", cs, 120*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					notes = append(notes, "native: "+firstLine(err.Error()))
					return
				}
				for k, r := range res {
					switch r.Status {
					case "pass":
						validated++
					case "assert", "panic", "alloc":
						// the real code fails on this input although the encoding says it does not: still a concrete counterexample
						diverged++
						confirmed = append(confirmed, conf{part[k].j, &Violation{Harness: part[k].j.Harness, Kind: r.Status, Msg: firstLine(r.Msg), Values: part[k].c.Values, Where: "native cross-validation"}, r})
					default:
						notes = append(notes, fmt.Sprintf("witness of %s: %s %s", part[k].j.label(), r.Status, firstLine(r.Msg)))
					}
				}
			}(pkg, part)
		}
	}
	wg.Wait()
	// violations: group the models of one failure; one confirmed model is enough
	type group struct {
		j  *Job
		vs []*Violation
	}
	groups := map[string]*group{}
	var order []string
	for _, r := range results {
		if r.x == nil {
			continue
		}
		for _, v := range r.x.violations {
			k := v.Harness + "|" + v.Kind + "|" + v.Msg + "|" + v.Where
			g := groups[k]
			if g == nil {
				g = &group{j: r.job}
				groups[k] = g
				order = append(order, k)
			}
			vv := *v
			vv.Detail = v.Detail
			g.vs = append(g.vs, &vv)
			if g.j != r.job {
				vv.Replay = ""
			}
			vjob.Store(&vv, r.job)
		}
	}
	for _, k := range order {
		g := groups[k]
		g.vs = spread(g.vs, 14)
		wg.Add(1)
		sem <- true
		go func(k string, g *group) {
			defer wg.Done()
			defer func() { <-sem }()
			var last Result
			for _, v := range g.vs {
				mu.Lock()
				enough := len(confirmed) > 0
				mu.Unlock()
				if tier == "quick" && (time.Since(t0) > 750*time.Second || enough && time.Since(t0) > 400*time.Second) {
					break
				}
				jj, _ := vjob.Load(v)
				j := jj.(*Job)
				ok, res := confirm(N, j, v)
				last = res
				if ok {
					mu.Lock()
					confirmed = append(confirmed, conf{j, v, res})
					mu.Unlock()
					return
				}
			}
			mu.Lock()
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s at %s (%d models; native: %s %s)", k, g.j.label(), len(g.vs), last.Status, firstLine(last.Msg)))
			mu.Unlock()
		}(k, g)
	}
	wg.Wait()
	sort.Slice(confirmed, func(a, b int) bool {
		return confirmed[a].v.Harness+confirmed[a].v.Msg < confirmed[b].v.Harness+confirmed[b].v.Msg
	})
	sort.Strings(unconfirmed)
	code := 0
	nviol := 0
	var found []string
	printed := map[string]bool{}
	for _, c := range confirmed {
		known := false
		for _, f := range findings {
			if f.prop == prop && f.harness == c.v.Harness && (f.kind == "" || f.kind == c.res.Status) && (f.msg == "" || f.msg == firstLine(c.res.Msg)) {
				known = true
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, f.text)
				if !printed[line] {
					fmt.Println(line)
					printed[line] = true
				}
			}
		}
		if known {
			continue
		}
		nviol++
		rf := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, nviol))
		b, _ := json.MarshalIndent(ReplayFile{Property: prop, Pkg: c.j.Pkg, Kind: c.v.Kind, Msg: c.v.Msg, Where: c.v.Where, Native: c.res.Status + ": " + firstLines(c.res.Msg, 30), Fake: c.j.Fake, Case: Case{Harness: c.j.Harness, Params: c.j.Params, Values: c.v.Values, Tries: max(c.j.Tries, triesOf(c.v)), Seconds: 30, Must: mustOf(c.v)}}, "", " ")
		os.WriteFile(rf, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
		fmt.Printf("  %s: solver: %s %q at %s; real code: %s %s\n", c.j.label(), c.v.Kind, firstLine(c.v.Msg), c.v.Where, c.res.Status, firstLine(c.res.Msg))
		found = append(found, fmt.Sprintf("%s: %s", c.j.label(), firstLine(c.res.Msg)))
		code = 1
	}
	for _, u := range unconfirmed {
		notes = append(notes, "candidate not reproduced by the real code, not reported: "+u)
	}
	for f, r := range P.dropped {
		notes = append(notes, "harness file left out (does not type-check against this tree): "+filepath.Base(f)+": "+r)
	}
	sort.Strings(notes)
	if len(samples) == 0 {
		samples = append(samples, "no witness model requested")
	}
	fl := topNames(funcs, true)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        total.Paths,
			"transitions":                   total.Steps,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"rule":                          "states: symbolic paths of the real code explored; transitions: SSA instructions executed symbolically; traces validated: solver models of completed paths re-run natively with the same outcome",
			"functions_encoded":             fl,
			"modelled_functions":            topNames(models, false),
			"bounds":                        jreps,
			"jobs":                          len(jobs),
			"jobs_complete":                 complete,
			"assertions_checked":            total.Asserts,
			"field_equalities_normalised":   total.FieldEqs,
			"solver_queries":                total.Queries,
			"solver_unsat":                  total.Unsat,
			"solver_sat":                    total.Sat,
			"solver_unknown":                total.Unknown,
			"field_lemmas":                  total.Lemmas,
			"solver_seconds":                round(total.SolverSec),
			"solver":                        z3Path(),
			"paths_infeasible":              total.Pruned,
			"limits":                        notes,
			"violations_found":              found,
			"encoding_diverged":             diverged,
		},
		"assumptions": []string{trustMsg, "outside the stated bounds nothing is claimed", "goroutines are executed in program order"},
		"wall_s":      round(time.Since(t0).Seconds()),
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(vd, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d jobs (%d complete), %d paths, %d assertions, %d queries, solver %.1fs, %d witnesses replayed, %d violations, %.1fs\n", prop, tier, len(jobs), complete, total.Paths, total.Asserts, total.Queries, total.SolverSec, validated, nviol, time.Since(t0).Seconds())
	for _, n := range notes {
		fmt.Println("  note:", firstLine(n))
	}
	if os.Getenv("VERIF_SLOW") != "" {
		sort.Slice(jreps, func(a, b int) bool { return jreps[a].Seconds > jreps[b].Seconds })
		for i, r := range jreps {
			if i < 15 {
				fmt.Printf("  slow: %6.1fs (solver %.1fs, %d paths) %s\n", r.Seconds, r.SolverSec, r.Paths, r.Bounds)
			}
		}
	}
	return code
}

var vjob sync.Map

func triesOf(v *Violation) int {
	switch {
	case v.Kind == "race":
		return 30
	case v.Preempt:
		return 100000 // within the time limit
	}
	return 1
}

func mustOf(v *Violation) string {
	if v.Kind == "unreached" {
		return v.Msg
	}
	return ""
}

func trimRecs(r []NDRecord) []NDRecord {
	var out []NDRecord
	for i, v := range r {
		if i == 6 {
			break
		}
		if len(v.Hex) > 80 {
			v.Hex = v.Hex[:80] + "..."
		}
		out = append(out, v)
	}
	return out
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func topNames(m map[string]int, repoOnly bool) []string {
	var out []string
	for k := range m {
		if repoOnly && (!strings.Contains(k, repoModule) || strings.Contains(k, "VH_") || strings.Contains(k, "verifnd")) {
			continue
		}
		out = append(out, strings.ReplaceAll(k, repoModule+"/", ""))
	}
	sort.Strings(out)
	return out
}

func replayFile(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	work := mkWork()
	defer os.RemoveAll(work)
	hdir := filepath.Join(verifDir(), "harness")
	P, err := load(repoDir, hdir, work, []string{rf.Pkg})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	N := &Native{repo: repoDir, hdir: hdir, work: work, P: P, bins: map[string]string{}, errs: map[string]error{}}
	res, err := N.run(rf.Pkg, variant(rf.Fake, rf.Kind), []Case{rf.Case}, 120*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Println(rf.Case.Harness, rf.Case.Params, "->", res[0].Status, res[0].Msg)
	if res[0].Status == "pass" || res[0].Status == "assume" {
		return 0
	}
	return 1
}
