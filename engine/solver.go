package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one z3 process. Field atoms are Boolean to z3; their meaning is added lazily by lemmas from exact
// linear algebra over the field (theory.go).
type Solver struct {
	c       *ExprCtx
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	emitted map[int32]bool
	atoms   map[int32][]int32 // expr id -> ids of field atoms below it
	stack   [][]*Expr         // asserted per scope
	lemmas  []*Expr
	timeout int // ms
	st      *Stats
	dead    bool
	log     io.Writer
}

// Stats of one exploration.
type Stats struct {
	Queries   int
	Sat       int
	Unsat     int
	Unknown   int
	Lemmas    int
	SolverSec float64
	Paths     int
	Pruned    int
	Steps     int64
	Asserts   int
	Merged    int
	Forks     int
	FieldEqs  int // field equalities decided
	Funcs     map[string]int
	Intrin    map[string]int
	Unsup     map[string]int
	Reached   map[string]int
	Truncated map[string]int
}

func newStats() *Stats {
	return &Stats{Funcs: map[string]int{}, Intrin: map[string]int{}, Unsup: map[string]int{}, Reached: map[string]int{}, Truncated: map[string]int{}}
}

func newSolver(c *ExprCtx, st *Stats, timeoutMs int) *Solver {
	s := &Solver{c: c, emitted: map[int32]bool{}, atoms: map[int32][]int32{}, timeout: timeoutMs, st: st}
	s.start()
	return s
}

func (s *Solver) start() {
	cmd := exec.Command(z3Path(), "-in", "-smt2", "-memory:6000")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.in, s.out = cmd, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.emitted = map[int32]bool{}
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	for i, sc := range s.stack {
		if i > 0 {
			s.send("(push 1)\n")
		}
		for _, e := range sc {
			s.send("(assert " + s.ref(e) + ")\n")
		}
	}
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	s.in.WriteString(t)
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func bvconst(w uint8, k uint64) string {
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref makes sure e is defined and returns its name.
func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		return bvconst(e.w, e.k)
	}
	name := fmt.Sprintf("e%d", e.id)
	if s.emitted[e.id] {
		return name
	}
	s.emitted[e.id] = true
	switch e.op {
	case OVar, OBVar, OFZero, OByte:
		s.send(fmt.Sprintf("(declare-const %s %s)\n", name, sortName(e.w)))
		return name
	case OLin:
		var sb strings.Builder
		sb.WriteString("(= 0 (+ 0")
		for _, t := range e.poly.ts {
			var cs []string
			for _, x := range t.m.vs {
				cs = append(cs, s.ref(s.c.pc.vars[x.v].cond))
			}
			k := t.c.big()
			ks := k.String()
			if k.Sign() < 0 {
				ks = "(- " + new(big.Int).Neg(k).String() + ")"
			}
			switch len(cs) {
			case 0:
				sb.WriteString(" " + ks)
			case 1:
				sb.WriteString(" (ite " + cs[0] + " " + ks + " 0)")
			default:
				sb.WriteString(" (ite (and " + strings.Join(cs, " ") + ") " + ks + " 0)")
			}
		}
		sb.WriteString("))")
		s.send(fmt.Sprintf("(define-fun %s () Bool %s)\n", name, sb.String()))
		return name
	}
	args := make([]string, len(e.a))
	for i, a := range e.a {
		args[i] = s.ref(a)
	}
	var body string
	switch e.op {
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", e.k>>8, e.k&255, args[0])
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a[0].w, args[0])
	default:
		body = "(" + opNames[e.op] + " " + strings.Join(args, " ") + ")"
	}
	s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", name, sortName(e.w), body))
	return name
}

// atomsOf lists the field atoms occurring in e.
func (s *Solver) atomsOf(e *Expr) []int32 {
	if r, ok := s.atoms[e.id]; ok {
		return r
	}
	seen := map[int32]bool{}
	var out []int32
	var walk func(x *Expr)
	vis := map[int32]bool{}
	walk = func(x *Expr) {
		if vis[x.id] {
			return
		}
		vis[x.id] = true
		if x.op == OFZero {
			if !seen[x.id] {
				seen[x.id] = true
				out = append(out, x.id)
			}
			return
		}
		if x.op == OLin {
			for _, t := range x.poly.ts {
				for _, y := range t.m.vs {
					walk(s.c.pc.vars[y.v].cond)
				}
			}
		}
		for _, y := range x.a {
			walk(y)
		}
	}
	walk(e)
	s.atoms[e.id] = out
	return out
}

func (s *Solver) push() {
	s.stack = append(s.stack, nil)
	if len(s.stack) > 1 {
		s.send("(push 1)\n")
	}
}

func (s *Solver) pop() {
	if len(s.stack) > 1 {
		s.send("(pop 1)\n")
	}
	s.stack = s.stack[:len(s.stack)-1]
}

// reset drops everything asserted and starts a new base scope for a path.
func (s *Solver) reset() {
	for len(s.stack) > 0 {
		s.pop()
	}
	s.push() // base scope, never popped in z3
	s.push()
	for _, l := range s.lemmas {
		s.assert(l)
	}
}

func (s *Solver) assert(e *Expr) {
	n := len(s.stack) - 1
	s.stack[n] = append(s.stack[n], e)
	r := s.ref(e)
	s.send("(assert " + r + ")\n")
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

type result int

const (
	unsat result = iota
	sat
	unknown
)

func (s *Solver) rawCheck() result {
	s.send("(check-sat)\n")
	s.in.Flush()
	for {
		l, err := s.readLine()
		if err != nil {
			s.restart()
			return unknown
		}
		switch l {
		case "sat":
			return sat
		case "unsat":
			return unsat
		case "unknown", "timeout":
			return unknown
		case "":
			continue
		}
		if strings.HasPrefix(l, "(error") {
			s.st.Unsup["solver error: "+l]++
			return unknown
		}
	}
}

// getBools / getValues read back model values after sat.
func (s *Solver) getValues(es []*Expr) ([]string, error) {
	if len(es) == 0 {
		return nil, nil
	}
	out := make([]string, 0, len(es))
	for i := 0; i < len(es); i += 400 {
		j := i + 400
		if j > len(es) {
			j = len(es)
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, e := range es[i:j] {
			sb.WriteString(s.ref(e) + " ")
		}
		sb.WriteString("))\n(echo \"done\")\n")
		s.send(sb.String())
		s.in.Flush()
		var txt strings.Builder
		for {
			l, err := s.readLine()
			if err != nil {
				return nil, err
			}
			if l == "done" || l == "\"done\"" {
				break
			}
			txt.WriteString(l + " ")
		}
		vals, err := parseValues(txt.String())
		if err != nil {
			return nil, err
		}
		if len(vals) != j-i {
			return nil, fmt.Errorf("got %d values for %d terms: %s", len(vals), j-i, txt.String())
		}
		out = append(out, vals...)
	}
	return out, nil
}

// parseValues parses "((n v) (n v) ...)" into the v parts.
func parseValues(t string) ([]string, error) {
	t = strings.TrimSpace(t)
	if strings.HasPrefix(t, "(error") {
		return nil, fmt.Errorf("%s", t)
	}
	var out []string
	depth := 0
	start := -1
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			depth++
			if depth == 2 {
				start = i + 1
			}
		case ')':
			if depth == 2 {
				part := strings.TrimSpace(t[start:i])
				// drop the name: first token or parenthesised term
				out = append(out, strings.TrimSpace(afterFirst(part)))
			}
			depth--
		}
	}
	return out, nil
}

func afterFirst(p string) string {
	if p == "" {
		return p
	}
	if p[0] != '(' {
		i := strings.IndexByte(p, ' ')
		if i < 0 {
			return ""
		}
		return p[i+1:]
	}
	d := 0
	for i := range p {
		if p[i] == '(' {
			d++
		}
		if p[i] == ')' {
			d--
			if d == 0 {
				return p[i+1:]
			}
		}
	}
	return ""
}

func parseBV(v string) uint64 {
	v = strings.TrimSpace(v)
	var k uint64
	switch {
	case strings.HasPrefix(v, "#x"):
		fmt.Sscanf(v[2:], "%x", &k)
	case strings.HasPrefix(v, "#b"):
		for _, ch := range v[2:] {
			k = k<<1 | uint64(ch-'0')
		}
	case strings.HasPrefix(v, "(_ bv"):
		fmt.Sscanf(v[5:], "%d", &k)
	case v == "true":
		k = 1
	}
	return k
}

func (s *Solver) activeAtoms() []*Expr {
	seen := map[int32]bool{}
	var out []*Expr
	for _, sc := range s.stack {
		for _, e := range sc {
			for _, id := range s.atomsOf(e) {
				if !seen[id] {
					seen[id] = true
					out = append(out, s.c.all[id])
				}
			}
		}
	}
	return out
}

// check decides the current assertions together with extra. When keep is set and the answer is sat the scope of the
// query stays open for model extraction and the caller must call endCheck.
func (s *Solver) check(extra *Expr, keep bool) result {
	if extra == s.c.False {
		return unsat
	}
	t0 := time.Now()
	defer func() { s.st.SolverSec += time.Since(t0).Seconds() }()
	s.st.Queries++
	s.push()
	if extra != s.c.True {
		s.assert(extra)
	}
	r := unknown
	for iter := 0; iter < 400; iter++ {
		r = s.rawCheck()
		if r != sat {
			break
		}
		atoms := s.activeAtoms()
		if len(atoms) == 0 {
			break
		}
		vals, err := s.getValues(atoms)
		if err != nil {
			s.restart()
			r = unknown
			break
		}
		var pos, neg []*Expr
		for i, v := range vals {
			if v == "true" {
				pos = append(pos, atoms[i])
			} else {
				neg = append(neg, atoms[i])
			}
		}
		l := theoryConflict(s.c, pos, neg)
		if l == nil {
			break
		}
		s.st.Lemmas++
		s.lemmas = append(s.lemmas, l)
		s.assert(l)
		r = unknown
	}
	switch r {
	case sat:
		s.st.Sat++
	case unsat:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
	if !(keep && r == sat) {
		s.endCheck()
	}
	return r
}

func (s *Solver) endCheck() { s.pop() }
