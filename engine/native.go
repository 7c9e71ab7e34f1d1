package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native runs harnesses compiled with the ordinary toolchain from /repo's current tree.
type Native struct {
	repo, hdir, work string
	P                *Program
	mu               sync.Mutex
	bins             map[string]string
	errs             map[string]error
	n                int
}

type Case struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Values  []NDRecord     `json:"values"`
	Tries   int            `json:"tries"`
	Seconds float64        `json:"seconds"`
	Must    string         `json:"must,omitempty"`
}

type Result struct {
	Status string `json:"status"`
	Msg    string `json:"msg"`
	Tries  int    `json:"tries"`
}

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Property string `json:"property"`
	Pkg      string `json:"pkg"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`
	Where    string `json:"where"`
	Native   string `json:"native_outcome"`
	Fake     bool   `json:"faketime"`
	Case     Case   `json:"case"`
}

func (N *Native) bin(pkg string, variant string) (string, error) {
	N.mu.Lock()
	defer N.mu.Unlock()
	key := pkg
	if variant != "" {
		key += "#" + variant
	}
	if b, ok := N.bins[key]; ok {
		return b, N.errs[key]
	}
	b, err := N.build(pkg, variant)
	N.bins[key], N.errs[key] = b, err
	return b, err
}

func (N *Native) build(pkg string, variant string) (string, error) {
	sp := N.P.pkgs[repoModule+"/"+pkg]
	if sp == nil {
		return "", fmt.Errorf("no package %s", pkg)
	}
	name := strings.ReplaceAll(pkg, "/", "_")
	if variant != "" {
		name += "_" + variant
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\n\tverifnd %q\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tverifnd.Main(map[string]func(){\n", sp.Pkg.Name(), ndPath)
	for _, m := range sp.Members {
		if strings.HasPrefix(m.Name(), "VH_") {
			if f := sp.Func(m.Name()); f != nil && len(f.Params) == 0 {
				fmt.Fprintf(&sb, "\t\t%q: %s,\n", m.Name(), m.Name())
			}
		}
	}
	sb.WriteString("\t})\n}\n")
	tf := filepath.Join(N.work, name+"_replay_test.go")
	if err := os.WriteFile(tf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov := map[string]string{}
	for k, v := range N.P.overlay {
		ov[k] = v
	}
	ov[filepath.Join(N.repo, pkg, "zz_verif_replay_test.go")] = tf
	// the repository's own tests are not needed here
	ts, _ := filepath.Glob(filepath.Join(N.repo, pkg, "*_test.go"))
	for _, t := range ts {
		ov[t] = ""
	}
	of := filepath.Join(N.work, name+"_overlay.json")
	if err := writeOverlay(of, ov); err != nil {
		return "", err
	}
	out := filepath.Join(N.work, name+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", out}
	switch variant {
	case "fake":
		args = append(args, "-tags", "faketime")
	case "race":
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./"+pkg)...)
	cmd.Dir = N.repo
	cmd.Env = goEnv(N.work)
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, b)
	}
	return out, nil
}

// run replays cases in one process.
func (N *Native) run(pkg string, variant string, cases []Case, timeout time.Duration) ([]Result, error) {
	bin, err := N.bin(pkg, variant)
	if err != nil {
		return nil, err
	}
	N.mu.Lock()
	N.n++
	id := N.n
	N.mu.Unlock()
	cf := filepath.Join(N.work, fmt.Sprintf("cases%d.json", id))
	of := filepath.Join(N.work, fmt.Sprintf("out%d.json", id))
	b, _ := json.Marshal(cases)
	if err := os.WriteFile(cf, b, 0o644); err != nil {
		return nil, err
	}
	limit := "ulimit -v 10000000; "
	if variant == "race" {
		limit = "" // the detector reserves address space
	}
	cmd := exec.Command("bash", "-c", fmt.Sprintf(limit+"exec timeout -s KILL %d %s -test.run '^TestVerifReplay$' -test.timeout 0", int(timeout.Seconds())+1, bin))
	cmd.Dir = N.work
	cmd.Env = append(goEnv(N.work), "VERIF_CASES="+cf, "VERIF_OUT="+of, "GOMEMLIMIT=8000000000", "GORACE=halt_on_error=1 exitcode=66")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	t0 := time.Now()
	rerr := cmd.Run()
	var res []Result
	if ob, err := os.ReadFile(of); err == nil {
		json.Unmarshal(ob, &res)
	}
	if len(res) < len(cases) {
		msg := buf.String()
		if len(msg) > 2000 {
			msg = msg[:2000]
		}
		st := "crash"
		if time.Since(t0) >= timeout {
			st = "timeout"
		}
		res = append(res, Result{Status: st, Msg: fmt.Sprintf("%v %s", rerr, msg)})
	}
	os.Remove(cf)
	os.Remove(of)
	return res, nil
}
