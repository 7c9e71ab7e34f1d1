package main

import (
	"bufio"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

// A Job is one harness with one set of bounds.
type Job struct {
	Prop    string
	Pkg     string
	Harness string
	Params  map[string]int
	Tier    string // "", quick, thorough
	Secs    int
	Paths   int
	Steps   int64
	QMs     int
	Wit     int
	Tries   int
	MaxViol int
	Must    []string
	Reach   []string
	Fake    bool
	Only    string // report this kind of violation only
	Mem     int // GB set aside while it runs
	Note    string
}

func (j *Job) label() string {
	ks := make([]string, 0, len(j.Params))
	for k := range j.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := j.Harness
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%d", k, j.Params[k])
	}
	return s
}

// parseRange reads "3", "0..8", "1,2,5..7".
func parseRange(s string) ([]int, error) {
	var out []int
	for _, part := range strings.Split(s, ",") {
		if i := strings.Index(part, ".."); i >= 0 {
			a, err := strconv.Atoi(part[:i])
			if err != nil {
				return nil, err
			}
			b, err := strconv.Atoi(part[i+2:])
			if err != nil {
				return nil, err
			}
			for k := a; k <= b; k++ {
				out = append(out, k)
			}
			continue
		}
		k, err := strconv.Atoi(part)
		if err != nil {
			return nil, err
		}
		out = append(out, k)
	}
	return out, nil
}

// holds decides a condition on the bounds: "a<b*c", "a!=0", alternatives joined by "|".
func holds(c string, p map[string]int) (bool, error) {
	val := func(s string) (int, error) {
		v := 1
		for _, f := range strings.Split(s, "*") {
			n, err := strconv.Atoi(f)
			if err != nil {
				k, ok := p[f]
				if !ok {
					return 0, fmt.Errorf("unknown bound %q", f)
				}
				n = k
			}
			v *= n
		}
		return v, nil
	}
	any := false
	for _, alt := range strings.Split(c, "|") {
		op := ""
		for _, o := range []string{"!=", "<=", ">=", "<", ">", "="} {
			if strings.Contains(alt, o) {
				op = o
				break
			}
		}
		if op == "" {
			return false, fmt.Errorf("condition %q", c)
		}
		i := strings.Index(alt, op)
		a, err := val(alt[:i])
		if err != nil {
			return false, err
		}
		b, err := val(alt[i+len(op):])
		if err != nil {
			return false, err
		}
		switch op {
		case "!=":
			any = any || a != b
		case "<=":
			any = any || a <= b
		case ">=":
			any = any || a >= b
		case "<":
			any = any || a < b
		case ">":
			any = any || a > b
		case "=":
			any = any || a == b
		}
	}
	return any, nil
}

// readJobs: lines "PROP PKG HARNESS name=range ... @opt=value ... !quick|!thorough".
func readJobs(file string) ([]*Job, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []*Job
	sc := bufio.NewScanner(f)
	ln := 0
	for sc.Scan() {
		ln++
		t := strings.TrimSpace(sc.Text())
		if t == "" || t[0] == '#' {
			continue
		}
		fs := strings.Fields(t)
		if len(fs) < 3 {
			return nil, fmt.Errorf("%s:%d: %q", file, ln, t)
		}
		base := Job{Prop: fs[0], Pkg: fs[1], Harness: fs[2], Params: map[string]int{}, Secs: 120, Paths: 4000, Steps: 60e6, QMs: 20000, Wit: 1, MaxViol: 12, Mem: 1}
		jobs := []*Job{&base}
		var conds []string
		for _, o := range fs[3:] {
			if o[0] == '!' {
				base.Tier = o[1:]
				continue
			}
			if o[0] == '?' {
				conds = append(conds, o[1:])
				continue
			}
			i := strings.IndexByte(o, '=')
			if i < 0 {
				return nil, fmt.Errorf("%s:%d: %q", file, ln, o)
			}
			k, v := o[:i], o[i+1:]
			if k[0] == '@' {
				n, _ := strconv.Atoi(v)
				switch k[1:] {
				case "t":
					base.Secs = n
				case "paths":
					base.Paths = n
				case "steps":
					base.Steps = int64(n)
				case "q":
					base.QMs = n
				case "wit":
					base.Wit = n
				case "tries":
					base.Tries = n
				case "viol":
					base.MaxViol = n
				case "must":
					base.Must = strings.Split(v, ",")
				case "reach":
					base.Reach = strings.Split(v, ",")
				case "mem":
					base.Mem = n
				case "only":
					base.Only = v
				case "fake":
					base.Fake = n != 0
				default:
					return nil, fmt.Errorf("%s:%d: option %q", file, ln, k)
				}
				continue
			}
			r, err := parseRange(v)
			if err != nil {
				return nil, fmt.Errorf("%s:%d: %v", file, ln, err)
			}
			var next []*Job
			for _, j := range jobs {
				for _, n := range r {
					c := *j
					c.Params = map[string]int{k: n}
					for a, b := range j.Params {
						c.Params[a] = b
					}
					next = append(next, &c)
				}
			}
			jobs = next
		}
		for _, j := range jobs {
			p := j.Params
			ok := true
			for _, c := range conds {
				h, err := holds(c, p)
				if err != nil {
					return nil, fmt.Errorf("%s:%d: %v", file, ln, err)
				}
				ok = ok && h
			}
			if !ok {
				continue
			}
			*j = base
			j.Params = p
			out = append(out, j)
		}
	}
	return out, sc.Err()
}
