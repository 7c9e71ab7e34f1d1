// Package verifnd is the interface between the verification harnesses and what drives them. Under the symbolic engine
// every function here is replaced by a model; compiled natively, it replays one concrete counterexample.
package verifnd

import (
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"

	ristretto "github.com/bwesterb/go-ristretto"
)

// Record is one value drawn by a harness.
type Record struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Hex  string `json:"hex,omitempty"`
	Int  int64  `json:"int,omitempty"`
}

// Case is one concrete run.
type Case struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Values  []Record       `json:"values"`
	Tries   int            `json:"tries"`
	Seconds float64        `json:"seconds"`
	Must    string         `json:"must,omitempty"`
}

// Result of replaying a case.
type Result struct {
	Status string `json:"status"` // pass, assert, panic, assume, alloc, unreached
	Msg    string `json:"msg"`
	Tries  int    `json:"tries"`
}

var (
	cur     Case
	pos     map[string]int
	byName  map[string][]Record
	reached map[string]bool
	limit   uint64
	base    uint64
)

type assertFail struct{ msg string }
type assumeFail struct{}

func next(name string) (Record, bool) {
	q := byName[name]
	i := pos[name]
	pos[name]++
	if i < len(q) {
		return q[i], true
	}
	return Record{}, false
}

func raw(name string, n int) []byte {
	out := make([]byte, n)
	if r, ok := next(name); ok {
		b, _ := hex.DecodeString(r.Hex)
		copy(out, b)
	}
	return out
}

// Param is a bound chosen by the driver.
func Param(name string) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	panic("no parameter " + name)
}

// Scalar is any scalar.
func Scalar(name string) ristretto.Scalar {
	var b [32]byte
	copy(b[:], raw(name, 32))
	var s ristretto.Scalar
	s.SetBytes(&b)
	return s
}

// NonZero is any nonzero scalar.
func NonZero(name string) ristretto.Scalar { return Scalar(name) }

// U64Scalar is any scalar below 2^64.
func U64Scalar(name string) ristretto.Scalar { return Scalar(name) }

// WideScalar is any scalar of at least 2^64.
func WideScalar(name string) ristretto.Scalar { return Scalar(name) }

// Point is any group element.
func Point(name string) ristretto.Point {
	var b [32]byte
	copy(b[:], raw(name, 32))
	var p ristretto.Point
	if !p.SetBytes(&b) {
		p.SetZero()
	}
	return p
}

// Bytes is any byte string of length n.
func Bytes(name string, n int) []byte { return raw(name, n) }

// Byte is any byte.
func Byte(name string) byte { return raw(name, 1)[0] }

// Bool is any truth value.
func Bool(name string) bool { r, _ := next(name); return r.Int != 0 }

// U32 is any 32-bit value.
func U32(name string) uint32 { r, _ := next(name); return uint32(r.Int) }

// U64 is any 64-bit value.
func U64(name string) uint64 { r, _ := next(name); return uint64(r.Int) }

// Int is any integer in [lo,hi].
func Int(name string, lo, hi int) int {
	r, ok := next(name)
	if !ok {
		return lo
	}
	return int(r.Int)
}

// Choose is any of 0..n-1; each is explored separately.
func Choose(name string, n int) int { r, _ := next(name); return int(r.Int) }

// G1Bytes is the encoding of any element of G1 (64 bytes).
func G1Bytes(name string) []byte { return raw(name, 64) }

// G2Bytes is the encoding of any element of G2 other than the neutral one (129 bytes).
func G2Bytes(name string) []byte { return raw(name, 129) }

type reader struct {
	name string
	buf  []byte
}

func (r *reader) Read(p []byte) (int, error) {
	if len(r.buf) == 0 {
		r.buf = raw(r.name, 32)
	}
	n := copy(p, r.buf)
	r.buf = r.buf[n:]
	return n, nil
}

// Reader is a random source whose output is arbitrary.
func Reader(name string) io.Reader { return &reader{name: name} }

// Assume restricts the run.
func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(assertFail{msg})
	}
}

// Reach marks a place that some run must reach (against vacuity).
func Reach(name string) { reached[name] = true }

// MustReach marks a place that some run must reach for the property to hold.
func MustReach(name string) { reached[name] = true }

// Symbolic tells whether the symbolic engine runs.
func Symbolic() bool { return false }

// AllocLimit bounds, from here on, how much memory one allocation may request.
func AllocLimit(n int) {
	limit = uint64(n)
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	base = m.TotalAlloc
}

// StepLimit bounds how much work may be done from here on.
func StepLimit(n int) {}

// FreezeClock makes the clock stand still.
func FreezeClock() {}

var (
	sysReader = rand.Reader
	draws     []ristretto.Scalar
	script    []ristretto.Scalar
	scripted  bool
)

type recorder struct{}

// picker gives the small random numbers the counterexample asks for.
type picker struct{}

func (picker) Read(p []byte) (int, error) {
	if scripted && len(p) > 0 && len(p) <= 8 {
		if r, ok := next("rand.pick"); ok {
			k := uint64(r.Int)
			for i := len(p) - 1; i >= 0; i-- {
				p[i] = byte(k)
				k >>= 8
			}
			return len(p), nil
		}
	}
	return sysReader.Read(p)
}

func (recorder) Read(p []byte) (int, error) {
	n, err := picker{}.Read(p)
	if err != nil || len(p)%64 != 0 {
		return n, err
	}
	for i := 0; i < len(p); i += 64 {
		var b [64]byte
		if len(script) > 0 {
			copy(p[i:i+64], b[:])
			copy(p[i:], script[0].Bytes())
			script = script[1:]
		}
		copy(b[:], p[i:])
		var s ristretto.Scalar
		draws = append(draws, *s.SetReduced(&b))
	}
	return n, err
}

// RecordEntropy starts recording the random scalars drawn.
func RecordEntropy() {
	draws, script = nil, nil
	rand.Reader = recorder{}
}

// Draws are the random scalars drawn since the recording started.
func Draws() []ristretto.Scalar { return append([]ristretto.Scalar{}, draws...) }

// ScriptEntropy starts a recording in which the next scalars drawn are these.
func ScriptEntropy(s []ristretto.Scalar) {
	RecordEntropy()
	script = append([]ristretto.Scalar{}, s...)
}

// RandChoices lets only the first k random picks vary.
func RandChoices(k int) {}

// GenericHashes chooses how hash outputs are treated.
func GenericHashes(on bool) {}

// Concurrently runs both at the same time.
func Concurrently(a, b func()) {
	rand.Reader = sysReader
	var ready, done sync.WaitGroup
	ready.Add(2)
	done.Add(2)
	var e [2]interface{}
	for i, f := range []func(){a, b} {
		go func(i int, f func()) {
			defer done.Done()
			defer func() { e[i] = recover() }()
			ready.Done()
			ready.Wait()
			f()
		}(i, f)
	}
	done.Wait()
	for _, p := range e {
		if p != nil {
			panic(p)
		}
	}
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case assertFail, assumeFail:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

func once(f func()) (res Result) {
	rand.Reader, draws, script = picker{}, nil, nil
	pos, byName, reached, limit = map[string]int{}, map[string][]Record{}, map[string]bool{}, 0
	for _, r := range cur.Values {
		byName[r.Name] = append(byName[r.Name], r)
	}
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case assertFail:
				res = Result{Status: "assert", Msg: r.msg}
			case assumeFail:
				res = Result{Status: "assume"}
			default:
				res = Result{Status: "panic", Msg: fmt.Sprintf("%v\n%s", r, debug.Stack())}
			}
			return
		}
		if limit > 0 {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.TotalAlloc-base > limit+64<<20 {
				res = Result{Status: "alloc", Msg: fmt.Sprintf("allocated %d bytes", m.TotalAlloc-base)}
			} else if time.Since(t0) > 20*time.Second {
				res = Result{Status: "alloc", Msg: "ran for " + time.Since(t0).String()}
			}
		}
	}()
	f()
	return Result{Status: "pass"}
}

// Main replays the cases in the file named by VERIF_CASES and writes the outcomes.
func Main(hs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_CASES"))
	if err != nil {
		panic(err)
	}
	var cases []Case
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	var out []Result
	for _, c := range cases {
		cur = c
		f := hs[c.Harness]
		if f == nil {
			out = append(out, Result{Status: "missing"})
			continue
		}
		var last Result
		n := 0
		start := time.Now()
		hit := false
		for n = 0; n < c.Tries || n == 0; n++ {
			scripted = n%2 == 0
			last = once(f)
			if c.Must != "" && reached[c.Must] {
				hit = true
				break
			}
			if last.Status != "pass" && last.Status != "assume" {
				break
			}
			if c.Seconds > 0 && time.Since(start).Seconds() > c.Seconds {
				break
			}
		}
		if c.Must != "" && last.Status == "pass" && !hit {
			last = Result{Status: "unreached", Msg: c.Must}
		}
		last.Tries = n + 1
		out = append(out, last)
		w, _ := json.MarshalIndent(out, "", " ")
		os.WriteFile(os.Getenv("VERIF_OUT"), w, 0644)
	}
}

// FixHashes makes every scalar hash output after the first k different ones a fixed constant in the symbolic run; a
// negative k does so for every hash output and every random scalar.
func FixHashes(k int) {}

// LazyHashes makes hash outputs arbitrary values that are equal exactly when the inputs are, without deciding which
// inputs are equal.
func LazyHashes() {}
