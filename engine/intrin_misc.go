package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/OneOfOne/xxhash"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
	"golang.org/x/tools/go/ssa"
)

var witnessMu sync.Mutex

var opaqueT = types.NewNamed(types.NewTypeName(token.NoPos, nil, "modelled", nil), types.NewStruct(nil, nil), nil)

// mkErr is an error value with the given text.
func (x *Exec) mkErr(msg string) iface {
	p := new(value)
	*p = structure{msg}
	return iface{t: x.prog.errType, v: p}
}

func (x *Exec) tick() {
	if time.Now().After(x.deadline) {
		panic(pathEnd{"time limit"})
	}
}

func (x *Exec) specialGlobal(g *ssa.Global) value {
	if g.Pkg == nil {
		return nil
	}
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "crypto/rand.Reader":
		return iface{t: opaqueT, v: &opaque{kind: "randreader"}}
	case bnp + ".Order":
		p := new(value)
		*p = &BIG{k: new(big.Int).Set(fieldQ.p)}
		return p
	case "encoding/base64.RawURLEncoding", "encoding/base64.URLEncoding", "encoding/base64.StdEncoding", "encoding/base64.RawStdEncoding":
		p := new(value)
		*p = &opaque{kind: "b64:" + g.Name()}
		return p
	case "os.Stdout", "os.Stderr":
		p := new(value)
		*p = &opaque{kind: "file"}
		return p
	}
	return nil
}

func (x *Exec) modelMethod(recv iface, name string) *nativeFunc {
	o, ok := recv.v.(*opaque)
	if !ok {
		return nil
	}
	switch {
	case o.kind == "randreader" && name == "Read":
		return &nativeFunc{name: "rand.Read", f: func(x *Exec, a []value) value {
			x.randBytes(a[1].([]value))
			return tuple{uint64(len(a[1].([]value))), iface{}}
		}}
	case o.kind == "file" && name == "Write":
		return &nativeFunc{name: "file.Write", f: func(x *Exec, a []value) value {
			return tuple{uint64(len(a[1].([]value))), iface{}}
		}}
	}
	panic(unsupported("method %s of %s", name, o.kind))
}

func (x *Exec) modelImplements(itf iface, it *types.Interface) bool {
	o, ok := itf.v.(*opaque)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		n := it.Method(i).Name()
		if strings.HasSuffix(o.kind, "reader") || strings.HasPrefix(o.kind, "ndreader") {
			if n != "Read" {
				return false
			}
			continue
		}
		return false
	}
	return true
}

func (x *Exec) randBytes(d []value) {
	n := x.fresh("rndbytes")
	for i := range d {
		x.store(&d[i], x.ec.Var(8, fmt.Sprintf("%s[%d]", n, i)))
	}
	if len(d)%64 == 0 && x.spec == 0 {
		for i := 0; i < len(d); i += 64 {
			x.draws = append(x.draws, x.pc.pvar(x.oracle("reduce64", x.bytesToExprs(d[i:i+64]), fieldL)))
		}
	}
}

// ---- hashes

type hashAlg struct {
	size, block int
	sum         func(b []byte) []byte
}

var hashAlgs = map[string]hashAlg{
	"sha3-256":    {32, 136, func(b []byte) []byte { s := sha3.Sum256(b); return s[:] }},
	"sha3-512":    {64, 72, func(b []byte) []byte { s := sha3.Sum512(b); return s[:] }},
	"sha3-384":    {48, 104, func(b []byte) []byte { s := sha3.Sum384(b); return s[:] }},
	"sha3-224":    {28, 144, func(b []byte) []byte { s := sha3.Sum224(b); return s[:] }},
	"keccak256":   {32, 136, func(b []byte) []byte { h := sha3.NewLegacyKeccak256(); h.Write(b); return h.Sum(nil) }},
	"blake2b-256": {32, 128, func(b []byte) []byte { s := blake2b.Sum256(b); return s[:] }},
	"blake2b-384": {48, 128, func(b []byte) []byte { s := blake2b.Sum384(b); return s[:] }},
	"blake2b-512": {64, 128, func(b []byte) []byte { s := blake2b.Sum512(b); return s[:] }},
	"xxhash64": {8, 32, func(b []byte) []byte {
		h := xxhash.New64()
		h.Write(b)
		return h.Sum(nil)
	}},
	"xxhash32": {4, 16, func(b []byte) []byte {
		h := xxhash.New32()
		h.Write(b)
		return h.Sum(nil)
	}},
	"sha256": {32, 64, func(b []byte) []byte { s := sha256.Sum256(b); return s[:] }},
	"sha512": {64, 128, func(b []byte) []byte { s := sha512.Sum512(b); return s[:] }},
}

func (x *Exec) digest(alg string, in []*Expr) []*Expr {
	in = x.renorm(in)
	h := hashAlgs[alg]
	if k, ok := asConcrete(in); ok {
		d := h.sum(k)
		x.digests[alg+string(d)] = append([]*Expr(nil), in...)
		return x.bytesToExprs(concreteBytes(d))
	}
	return x.ec.ObjBytes(x.ec.Obj("hash:"+alg, h.size, nil, append([]*Expr(nil), in...), ""))
}

// eqObjConst compares an encoded object with constant bytes.
func (x *Exec) eqObjConst(o *EncObj, k []byte) (*Expr, bool) {
	switch o.kind {
	case "scalar":
		v := fromLE(k)
		if v.Cmp(fieldL.p) >= 0 {
			return x.ec.False, true
		}
		return x.fzero(x.pc.sub(o.poly, x.pc.konst(fieldL, v))), true
	case "point":
		pt, ok := x.decodePoint(x.bytesToExprs(concreteBytes(k)))
		if !ok {
			return x.ec.False, true
		}
		return x.fzero(x.pc.sub(o.poly, pt.p)), true
	case "g1", "g2", "g1c":
		p, ok := x.decodeGE(o.kind, x.bytesToExprs(concreteBytes(k)))
		if !ok {
			return x.ec.False, true
		}
		return x.fzero(x.pc.sub(o.poly, p)), true
	case "hex":
		d, err := hex.DecodeString(string(k))
		if err != nil || strings.ToLower(string(k)) != string(k) || len(d) != len(o.in) {
			return x.ec.False, true
		}
		return x.eqExprs(o.in, x.bytesToExprs(concreteBytes(d))), true
	case "b64":
		enc := b64Enc(o.key[strings.LastIndexByte(o.key, '/')+1:])
		d, err := enc.DecodeString(string(k))
		if err != nil || len(d) != len(o.in) {
			return x.ec.False, true
		}
		return x.eqExprs(o.in, x.bytesToExprs(concreteBytes(d))), true
	}
	if strings.HasPrefix(o.kind, "hash:") {
		if in, ok := x.digests[o.kind[5:]+string(k)]; ok {
			return x.eqExprs(o.in, in), true
		}
		return x.ec.BVar(fmt.Sprintf("coinck#%d#%x", o.id, k)), true
	}
	return nil, false
}

func (x *Exec) newHash(alg string) *value {
	buf := new(value)
	*buf = []value(nil)
	p := new(value)
	*p = &hashObj{alg: alg, buf: buf}
	return p
}

func (x *Exec) hashOf(v value) *hashObj {
	h, ok := (*x.ptr(v)).(*hashObj)
	if !ok {
		panic(unsupported("hash state expected, got %T", *x.ptr(v)))
	}
	x.raceRead(h.buf)
	return h
}

func (x *Exec) typeOf(pkg, name string) types.Type {
	p := x.prog.pkgs[pkg]
	if p == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	m := p.Members[name]
	t, ok := m.(*ssa.Type)
	if !ok {
		panic(unsupported("type %s.%s not found", pkg, name))
	}
	return types.NewPointer(t.Type())
}

func init() {
	const s3, b2, xx = "golang.org/x/crypto/sha3", "golang.org/x/crypto/blake2b", "github.com/OneOfOne/xxhash"
	for n, alg := range map[string]string{"New224": "sha3-224", "New256": "sha3-256", "New384": "sha3-384", "New512": "sha3-512", "NewLegacyKeccak256": "keccak256"} {
		alg := alg
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			return iface{t: x.typeOf(s3, "state"), v: x.newHash(alg)}
		}, s3+"."+n)
	}
	for n, alg := range map[string]string{"New256": "blake2b-256", "New384": "blake2b-384", "New512": "blake2b-512"} {
		alg := alg
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			key := a[0].([]value)
			if len(key) > 64 {
				return tuple{iface{}, x.mkErr("blake2b: invalid key size")}
			}
			h := x.newHash(alg)
			if len(key) > 0 {
				// a keyed hash: a different function, tagged by its key
				x.store((*h).(*hashObj).buf, append(concreteBytes([]byte("\xffkey\xff")), key...))
			}
			return tuple{iface{t: x.typeOf(b2, "digest"), v: h}, iface{}}
		}, b2+"."+n)
	}
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.newHash("xxhash64") }, xx+".New64")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.newHash("xxhash32") }, xx+".New32")
	sum := func(alg string) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			return array(exprsToBytes(x.digest(alg, x.byteSlice(a[0]))))
		}
	}
	reg(sum("sha3-256"), s3+".Sum256")
	reg(sum("sha3-512"), s3+".Sum512")
	reg(sum("sha3-384"), s3+".Sum384")
	reg(sum("sha3-224"), s3+".Sum224")
	reg(sum("blake2b-256"), b2+".Sum256")
	reg(sum("blake2b-384"), b2+".Sum384")
	reg(sum("blake2b-512"), b2+".Sum512")
	reg(sum("sha256"), "crypto/sha256.Sum256")
	reg(sum("sha512"), "crypto/sha512.Sum512")
	word := func(alg string) intrinsic {
		return func(x *Exec, _ *ssa.Function, a []value) value {
			var in []*Expr
			switch v := a[0].(type) {
			case []value:
				in = x.bytesToExprs(v)
			default:
				in = x.bytesToExprs(stringBytes(v))
			}
			return conc(x.ec.Concat(x.digest(alg, in)...))
		}
	}
	reg(word("xxhash64"), xx+".Checksum64", xx+".ChecksumString64")
	reg(word("xxhash32"), xx+".Checksum32", xx+".ChecksumString32")
	for _, T := range []string{"(*" + s3 + ".state).", "(*" + b2 + ".digest).", "(*" + xx + ".XXHash64).", "(*" + xx + ".XXHash32)."} {
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			h := x.hashOf(a[0])
			var in []value
			switch v := a[1].(type) {
			case []value:
				in = v
			default:
				in = stringBytes(v)
			}
			old := (*h.buf).([]value)
			x.store(h.buf, append(append(make([]value, 0, len(old)+len(in)), old...), in...))
			return tuple{uint64(len(in)), iface{}}
		}, T+"Write", T+"WriteString")
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			h := x.hashOf(a[0])
			d := exprsToBytes(x.digest(h.alg, x.bytesToExprs((*h.buf).([]value))))
			return x.appendVals(a[1].([]value), d, types.Typ[types.Uint8])
		}, T+"Sum")
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			h := x.hashOf(a[0])
			return conc(x.ec.Concat(x.digest(h.alg, x.bytesToExprs((*h.buf).([]value)))...))
		}, T+"Sum64", T+"Sum32")
		reg(func(x *Exec, _ *ssa.Function, a []value) value {
			h := x.hashOf(a[0])
			x.store(h.buf, []value(nil))
			return nil
		}, T+"Reset")
		reg(func(x *Exec, _ *ssa.Function, a []value) value { return uint64(hashAlgs[x.hashOf(a[0]).alg].size) }, T+"Size")
		reg(func(x *Exec, _ *ssa.Function, a []value) value { return uint64(hashAlgs[x.hashOf(a[0]).alg].block) }, T+"BlockSize")
	}

	// ---- errors, formatting
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.mkErr(x.text(a[0])) }, "errors.New", "github.com/pkg/errors.New")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.mkErr(x.text(a[0])) }, "fmt.Errorf", "github.com/pkg/errors.Errorf")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		e := a[0].(iface)
		if e.t == nil {
			return iface{}
		}
		m := ""
		if len(a) > 1 {
			m = x.text(a[1])
		}
		return x.mkErr(m + ": " + x.show(e))
	}, "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return a[0] }, "github.com/pkg/errors.Cause", "errors.Unwrap")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		e, f := a[0].(iface), a[1].(iface)
		if e.t == nil || f.t == nil {
			return e.t == nil && f.t == nil
		}
		return conc(x.equals(nil, e, f))
	}, "errors.Is")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return x.sprintf(a[0], a[1])
	}, "fmt.Sprintf")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		as, _ := a[0].([]value)
		return x.looseText("<text>", as)
	}, "fmt.Sprint", "fmt.Sprintln")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return tuple{uint64(0), iface{}} }, "fmt.Printf", "fmt.Println", "fmt.Print")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		if w, ok := a[0].(iface); ok && w.t != nil && w.t.String() == "*os.File" {
			return tuple{uint64(0), iface{}}
		}
		panic(unsupported("formatted output"))
	}, "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		switch k := a[0].(type) {
		case uint64:
			return strconv.Itoa(int(k))
		}
		return x.looseText("<n>", []value{iface{types.Typ[types.Int], a[0]}})
	}, "strconv.Itoa")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		if k, ok := a[0].(uint64); ok {
			if b, ok := a[1].(uint64); ok {
				return strconv.FormatInt(int64(k), int(b))
			}
		}
		return x.looseText("<n>", []value{iface{types.Typ[types.Int64], a[0]}})
	}, "strconv.FormatInt")

	// ---- bytes
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return conc(x.eqBytesV(a[0].([]value), a[1].([]value)))
	}, "bytes.Equal")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		p, q := x.byteSlice(a[0]), x.byteSlice(a[1])
		if k1, ok := asConcrete(p); ok {
			if k2, ok := asConcrete(q); ok {
				return uint64(int64(bytes.Compare(k1, k2)))
			}
		}
		n := min(len(p), len(q))
		eq := x.eqExprs(p[:n], q[:n])
		lt := x.lexLess(p[:n], q[:n])
		tail := x.ec.K(64, 0)
		if len(p) < len(q) {
			tail = x.ec.K(64, ^uint64(0))
		} else if len(p) > len(q) {
			tail = x.ec.K(64, 1)
		}
		return conc(x.ec.Ite(eq, tail, x.ec.Ite(lt, x.ec.K(64, ^uint64(0)), x.ec.K(64, 1))))
	}, "bytes.Compare", "internal/bytealg.Compare")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		e := x.eqBytesV(a[0].([]value), a[1].([]value))
		return conc(x.ec.Ite(e, x.ec.K(64, 1), x.ec.K(64, 0)))
	}, "crypto/subtle.ConstantTimeCompare")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		e := x.equals(types.Typ[types.Int], a[0], a[1])
		return conc(x.ec.Ite(e, x.ec.K(64, 1), x.ec.K(64, 0)))
	}, "crypto/subtle.ConstantTimeEq", "crypto/subtle.ConstantTimeByteEq")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n, ok := a[0].(uint64)
		if !ok {
			panic(unsupported("MakeNoZero"))
		}
		s := make([]value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}, "internal/bytealg.MakeNoZero")

	// ---- textual encodings
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		if k, ok := asConcrete(x.byteSlice(a[0])); ok {
			return hex.EncodeToString(k)
		}
		return mkString(exprsToBytes(x.hexText(x.byteSlice(a[0]))))
	}, "encoding/hex.EncodeToString")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		out, d := x.hexText(x.byteSlice(a[1])), a[0].([]value)
		if len(d) < len(out) {
			x.tpanic("index out of range [%d] with length %d", len(out)-1, len(d))
		}
		for i := range out {
			x.store(&d[i], conc(out[i]))
		}
		return uint64(len(out))
	}, "encoding/hex.Encode")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		s, ok := a[0].(string)
		if !ok {
			b := x.bytesToExprs(stringBytes(a[0]))
			if o := objAt(b, 0); o != nil && o.kind == "hex" && o.n == len(b) {
				return tuple{exprsToBytes(o.in), iface{}}
			}
			panic(unsupported("hex decoding of symbolic text"))
		}
		b, err := hex.DecodeString(s)
		if err != nil {
			return tuple{concreteBytes(b), x.mkErr(err.Error())}
		}
		return tuple{concreteBytes(b), iface{}}
	}, "encoding/hex.DecodeString")
	E := "(*encoding/base64.Encoding)."
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return uint64(x.b64(a[0]).EncodedLen(int(a[1].(uint64))))
	}, E+"EncodedLen")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return uint64(x.b64(a[0]).DecodedLen(int(a[1].(uint64))))
	}, E+"DecodedLen")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		out := x.b64encode(a[0], x.byteSlice(a[2]))
		d := a[1].([]value)
		if len(d) < len(out) {
			x.tpanic("index out of range [%d] with length %d", len(out)-1, len(d))
		}
		for i := range out {
			x.store(&d[i], conc(out[i]))
		}
		return nil
	}, E+"Encode")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return mkString(exprsToBytes(x.b64encode(a[0], x.byteSlice(a[1]))))
	}, E+"EncodeToString")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		out, ok := x.b64decode(a[0], x.byteSlice(a[2]))
		d := a[1].([]value)
		if !ok {
			// what was decoded before the error
			src := x.byteSlice(a[2])
			if len(src) == 0 {
				return tuple{uint64(0), x.mkErr("illegal base64 data")}
			}
			if k, all := asConcrete(src); all {
				b := make([]byte, x.b64(a[0]).DecodedLen(len(k)))
				n, _ := x.b64(a[0]).Decode(b, k)
				out = x.bytesToExprs(concreteBytes(b[:n]))
			} else if o := objAt(src, 0); o != nil && o.kind == "b64" && o.n%4 == 0 && strings.HasSuffix(o.key, "/"+x.b64name(a[0])) {
				out = o.in
			}
			for i := range out {
				if i < len(d) {
					x.store(&d[i], conc(out[i]))
				}
			}
			return tuple{uint64(len(out)), x.mkErr("illegal base64 data")}
		}
		if len(d) < len(out) {
			x.tpanic("index out of range [%d] with length %d", len(out)-1, len(d))
		}
		for i := range out {
			x.store(&d[i], conc(out[i]))
		}
		return tuple{uint64(len(out)), iface{}}
	}, E+"Decode")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		out, ok := x.b64decode(a[0], x.bytesToExprs(stringBytes(a[1])))
		if !ok {
			return tuple{[]value{}, x.mkErr("illegal base64 data")}
		}
		return tuple{exprsToBytes(out), iface{}}
	}, E+"DecodeString")

	// ---- encoding/binary through reflection
	reg(binaryRead, "encoding/binary.Read")
	reg(binaryWrite, "encoding/binary.Write")

	// ---- randomness and time
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		d := a[0].([]value)
		r := *x.global(x.prog.pkgs["crypto/rand"].Var("Reader"))
		if o, ok := r.(iface).v.(*opaque); ok && o.kind == "randreader" {
			x.randBytes(d)
			return tuple{uint64(len(d)), iface{}}
		}
		// a source installed by the harness: read until full; a failing source ends the process
		for off := 0; off < len(d); {
			t := x.invoke(r, "Read", d[off:]).(tuple)
			n, ok := t[0].(uint64)
			if !ok {
				n = x.concretize(t[0].(*Expr), "bytes read")
			}
			off += int(int64(n))
			if e, ok := t[1].(iface); (!ok || e.t != nil) && off < len(d) {
				panic(exitHarness{})
			}
			x.steps += 10
			if x.steps > x.stepLim {
				x.overBudget()
			}
		}
		return tuple{uint64(len(d)), iface{}}
	}, "crypto/rand.Read")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		m := x.bigOf(a[1])
		if m.k == nil {
			panic(unsupported("rand.Int with symbolic bound"))
		}
		if m.k.Sign() <= 0 {
			x.tpanic("crypto/rand: argument to Int is <= 0")
		}
		if m.k.Cmp(fieldQ.p) == 0 {
			return tuple{x.newBig(&BIG{fe: x.readerField(a[0], fieldQ)}), iface{}}
		}
		if m.k.Cmp(fieldL.p) == 0 {
			return tuple{x.newBig(&BIG{fe: x.readerField(a[0], fieldL)}), iface{}}
		}
		if !m.k.IsInt64() || m.k.Int64() > 1<<20 {
			panic(unsupported("rand.Int with a large bound"))
		}
		v := x.pick("", int(m.k.Int64()))
		if m.k.Int64() > 1 {
			x.nd = append(x.nd, &ndVal{Name: "rand.pick", Kind: "choose", k: v})
		}
		return tuple{x.newBig(&BIG{k: big.NewInt(int64(v))}), iface{}}
	}, "crypto/rand.Int")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return &opaque{kind: "time", e: x.now()} }, "time.Now")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return conc(a[0].(*opaque).e) }, "(time.Time).UnixNano")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return conc(x.ec.UDiv(a[0].(*opaque).e, x.ec.K(64, 1000000000)))
	}, "(time.Time).Unix")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return conc(x.ec.URem(a[0].(*opaque).e, x.ec.K(64, 1000000000)))
	}, "(time.Time).Nanosecond")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		return iface{t: opaqueT, v: &opaque{kind: "randsource", e: x.sym(a[0], 64)}}
	}, "math/rand.NewSource")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		src, ok := a[0].(iface).v.(*opaque)
		if !ok || src.kind != "randsource" {
			panic(unsupported("math/rand source"))
		}
		p := new(value)
		cnt := new(value)
		*cnt = uint64(0)
		*p = &opaque{kind: "rand", e: src.e, cell: cnt}
		return p
	}, "math/rand.New")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.seedExpr = x.sym(a[0], 64)
		x.seedN = 0
		return nil
	}, "math/rand.Seed")
	intn := func(x *Exec, _ *ssa.Function, a []value) value {
		n, ok := a[0].(uint64)
		if !ok {
			n = x.concretize(a[0].(*Expr), "rand bound")
		}
		if int64(n) <= 0 {
			x.tpanic("invalid argument to Intn")
		}
		if x.seedExpr == nil {
			return uint64(x.pick("", int(n)))
		}
		x.seedN++
		return uint64(x.pick(fmt.Sprintf("g/%d/%d/%d", x.seedExpr.id, x.seedN, n), int(n)))
	}
	reg(intn, "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n", "math/rand/v2.IntN", "math/rand/v2.N")
	rintn := func(x *Exec, r value, n int) int {
		o := (*x.ptr(r)).(*opaque)
		if o.cell == nil {
			panic(unsupported("math/rand.Rand without source"))
		}
		k := (*o.cell).(uint64) + 1
		x.store(o.cell, k)
		return x.pick(fmt.Sprintf("r/%d/%d/%d", o.e.id, k, n), n)
	}
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n, ok := a[1].(uint64)
		if !ok {
			n = x.concretize(a[1].(*Expr), "rand bound")
		}
		if int64(n) <= 0 {
			x.tpanic("invalid argument to Intn")
		}
		return uint64(rintn(x, a[0], int(n)))
	}, "(*math/rand.Rand).Intn", "(*math/rand.Rand).Int31n", "(*math/rand.Rand).Int63n")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n := int(a[1].(uint64))
		out := make([]value, n)
		for i := 0; i < n; i++ {
			j := rintn(x, a[0], i+1)
			out[i] = out[j]
			out[j] = uint64(i)
		}
		return out
	}, "(*math/rand.Rand).Perm")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		n := int(a[1].(uint64))
		for i := n - 1; i > 0; i-- {
			j := rintn(x, a[0], i+1)
			x.call(nil, a[2], []value{uint64(i), uint64(j)})
		}
		return nil
	}, "(*math/rand.Rand).Shuffle")
	reg(func(x *Exec, fn *ssa.Function, a []value) value {
		n := int(a[0].(uint64))
		for i := n - 1; i > 0; i-- {
			j := int(intn(x, fn, []value{uint64(i + 1)}).(uint64))
			x.call(nil, a[1], []value{uint64(i), uint64(j)})
		}
		return nil
	}, "math/rand.Shuffle", "math/rand/v2.Shuffle")
	reg(func(x *Exec, fn *ssa.Function, a []value) value {
		n := int(a[0].(uint64))
		out := make([]value, n)
		for i := 0; i < n; i++ {
			j := int(intn(x, fn, []value{uint64(i + 1)}).(uint64))
			out[i] = out[j]
			out[j] = uint64(i)
		}
		return out
	}, "math/rand.Perm", "math/rand/v2.Perm")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return x.ec.Var(64, x.fresh("rand64")) }, "math/rand.Uint64", "math/rand.Int63", "math/rand.Int")

	// ---- sync
	nop := func(x *Exec, _ *ssa.Function, a []value) value { return nil }
	reg(func(x *Exec, _ *ssa.Function, a []value) value { x.release(x.ptrQ(a[0])); return nil }, "(*sync.WaitGroup).Done")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { x.acquire(x.ptrQ(a[0])); return nil }, "(*sync.WaitGroup).Wait")
	reg(nop, "(*sync.WaitGroup).Add", "runtime.GC", "runtime.KeepAlive", "runtime.Gosched")
	reg(func(x *Exec, _ *ssa.Function, a []value) value {
		x.spawn(func() {
			x.call(nil, a[1], nil)
			x.release(x.ptrQ(a[0]))
		})
		return nil
	}, "(*sync.WaitGroup).Go")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return uint64(8) }, "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.NumGoroutine")
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		reg(func(x *Exec, fn *ssa.Function, a []value) value {
			p := x.ptrQ(a[0])
			t := fn.Signature.Results().At(0).Type()
			r := x.binop(token.ADD, t, t, *p, a[1])
			x.quietly(func() { x.store(p, r) })
			return r
		}, "sync/atomic.Add"+w)
		reg(func(x *Exec, fn *ssa.Function, a []value) value { return *x.ptrQ(a[0]) }, "sync/atomic.Load"+w)
		reg(func(x *Exec, fn *ssa.Function, a []value) value {
			x.quietly(func() { x.store(x.ptr(a[0]), a[1]) })
			return nil
		}, "sync/atomic.Store"+w)
	}
	// sort.Slice uses reflection for its swaps
	sortSlice := func(x *Exec, _ *ssa.Function, a []value) value {
		s := a[0].(iface).v.([]value)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := x.call(nil, a[1], []value{uint64(j), uint64(j - 1)})
				if !x.branch(x.symBool(r)) {
					break
				}
				u, w := copyVal(s[j]), copyVal(s[j-1])
				x.store(&s[j], w)
				x.store(&s[j-1], u)
			}
		}
		return nil
	}
	reg(sortSlice, "sort.Slice", "sort.SliceStable")
	reg(func(x *Exec, _ *ssa.Function, a []value) value { return nil }, "internal/race.Acquire", "internal/race.Release")
}

func (x *Exec) now() *Expr {
	if x.clock != nil {
		return x.clock
	}
	return x.ec.Var(64, x.fresh("clock"))
}

// pick makes a random choice among n; choices with the same key (same generator, seed and position) agree.
func (x *Exec) pick(key string, n int) int {
	if n <= 1 {
		return 0
	}
	if key != "" {
		if v, ok := x.randMemo[key]; ok {
			return v
		}
	}
	if x.spec > 0 {
		panic(specAbort{})
	}
	var v int
	if x.randMode < 0 || x.picks < x.randMode {
		v = x.choose(n)
	} else {
		v = n - 1
	}
	x.picks++
	if key != "" {
		x.randMemo[key] = v
	}
	return v
}

func (x *Exec) text(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return "<text>"
}

func (x *Exec) sprintf(f, args value) value {
	fs, ok := f.(string)
	if !ok {
		return "<text>"
	}
	var nat []interface{}
	as, _ := args.([]value)
	for _, a := range as {
		itf, ok := a.(iface)
		if !ok {
			return fs
		}
		if _, named := itf.t.(*types.Named); named {
			return x.looseText(fs, as)
		}
		switch v := itf.v.(type) {
		case uint64:
			if _, sg := width(itf.t); sg {
				w, _ := width(itf.t)
				nat = append(nat, sext64(v, w))
			} else {
				nat = append(nat, v)
			}
		case string:
			nat = append(nat, v)
		case bool:
			nat = append(nat, v)
		default:
			return x.looseText(fs, as)
		}
	}
	return fmt.Sprintf(fs, nat...)
}

// looseText stands for a formatted text: not the text itself, but as different as the arguments are.
func (x *Exec) looseText(fs string, as []value) value {
	out := append([]*Expr(nil), x.bytesToExprs(concreteBytes([]byte(fs)))...)
	for _, a := range as {
		itf, ok := a.(iface)
		if !ok {
			continue
		}
		switch v := itf.v.(type) {
		case uint64, *Expr:
			w, _ := width(itf.t)
			if w == 0 {
				continue
			}
			e := x.sym(v, w)
			for i := uint(0); i < uint(w); i += 8 {
				out = append(out, x.ec.Extract(e, uint8(i)+7, uint8(i)))
			}
		case string, *symString:
			out = append(out, x.bytesToExprs(stringBytes(v))...)
		case []value:
			if b, ok := itf.t.Underlying().(*types.Slice); ok && types.Identical(b.Elem().Underlying(), types.Typ[types.Uint8]) {
				out = append(out, x.hexText(x.byteSlice(v))...)
			}
		case array:
			if b, ok := itf.t.Underlying().(*types.Array); ok && types.Identical(b.Elem().Underlying(), types.Typ[types.Uint8]) {
				out = append(out, x.hexText(x.byteSlice([]value(v)))...)
			}
		}
	}
	return mkString(exprsToBytes(out))
}

func b64Enc(name string) *base64.Encoding {
	switch name {
	case "URLEncoding":
		return base64.URLEncoding
	case "StdEncoding":
		return base64.StdEncoding
	case "RawStdEncoding":
		return base64.RawStdEncoding
	}
	return base64.RawURLEncoding
}

func (x *Exec) b64name(v value) string {
	o, ok := (*x.ptr(v)).(*opaque)
	if !ok || !strings.HasPrefix(o.kind, "b64:") {
		panic(unsupported("base64 encoding object"))
	}
	return o.kind[4:]
}

func (x *Exec) b64(v value) *base64.Encoding { return b64Enc(x.b64name(v)) }

// b64text is the text form of scalars and points.
func (x *Exec) b64text(src []*Expr) []*Expr {
	if k, ok := asConcrete(src); ok {
		return x.bytesToExprs(concreteBytes([]byte(base64.RawURLEncoding.EncodeToString(k))))
	}
	n := base64.RawURLEncoding.EncodedLen(len(src))
	return x.ec.ObjBytes(x.ec.Obj("b64", n, nil, append([]*Expr(nil), src...), "/RawURLEncoding"))
}

func (x *Exec) hexText(src []*Expr) []*Expr {
	if k, ok := asConcrete(src); ok {
		return x.bytesToExprs(concreteBytes([]byte(hex.EncodeToString(k))))
	}
	return x.ec.ObjBytes(x.ec.Obj("hex", 2*len(src), nil, append([]*Expr(nil), src...), ""))
}

func (x *Exec) b64encode(enc value, src []*Expr) []*Expr {
	if k, ok := asConcrete(src); ok {
		return x.bytesToExprs(concreteBytes([]byte(x.b64(enc).EncodeToString(k))))
	}
	n := x.b64(enc).EncodedLen(len(src))
	return x.ec.ObjBytes(x.ec.Obj("b64", n, nil, append([]*Expr(nil), src...), "/"+x.b64name(enc)))
}

func (x *Exec) b64decode(enc value, src []*Expr) ([]*Expr, bool) {
	if len(src) == 0 {
		return nil, true
	}
	if o := objAt(src, 0); o != nil && o.kind == "b64" && o.n == len(src) && strings.HasSuffix(o.key, "/"+x.b64name(enc)) {
		return o.in, true
	}
	if k, ok := asConcrete(src); ok {
		b, err := x.b64(enc).DecodeString(string(k))
		if err != nil {
			return nil, false
		}
		return x.bytesToExprs(concreteBytes(b)), true
	}
	raw := strings.HasPrefix(x.b64name(enc), "Raw")
	for i, c := range src {
		if c.op != OConst {
			continue
		}
		ch := byte(c.k)
		if ch == '\r' || ch == '\n' || ch == '=' && !raw && i >= len(src)-2 {
			continue
		}
		if _, err := x.b64(enc).DecodeString("AAA" + string([]byte{ch})); err != nil {
			return nil, false
		}
	}
	// the beginning of an encoding
	if o := src[0].obj; o != nil && o.kind == "b64" && raw && strings.HasSuffix(o.key, "/"+x.b64name(enc)) {
		all := len(src) < o.n
		for i := range src {
			all = all && src[i].obj == o && src[i].k == uint64(i)
		}
		if all {
			if len(src)%4 == 1 {
				return nil, false
			}
			return o.in[:len(src)*6/8], true
		}
	}
	key := fmt.Sprintf("%x", x.exprKey(src))
	if !x.branch(x.ec.BVar("b64valid#" + key)) {
		return nil, false
	}
	n := x.b64(enc).DecodedLen(len(src))
	out := make([]*Expr, n)
	for i := range out {
		out[i] = x.ec.Var(8, fmt.Sprintf("b64dec#%s[%d]", key, i))
	}
	return out, true
}

func (x *Exec) isBigEndian(v value) bool {
	itf, ok := v.(iface)
	if ok && itf.t != nil {
		s := itf.t.String()
		switch {
		case strings.HasSuffix(s, "binary.bigEndian"):
			return true
		case strings.HasSuffix(s, "binary.littleEndian"):
			return false
		}
	}
	panic(unsupported("byte order"))
}

func fixedSize(t types.Type) (int, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return 1, true
		}
		if u.Info()&types.IsInteger != 0 && u.Kind() != types.Int && u.Kind() != types.Uint && u.Kind() != types.Uintptr {
			w, _ := width(u)
			return int(w) / 8, true
		}
	case *types.Array:
		n, ok := fixedSize(u.Elem())
		return n * int(u.Len()), ok
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n, ok := fixedSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			s += n
		}
		return s, true
	}
	return 0, false
}

func (x *Exec) encodeFixed(t types.Type, v value, big bool, out []*Expr) []*Expr {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return append(out, x.ec.Ite(x.symBool(v), x.ec.K(8, 1), x.ec.K(8, 0)))
		}
		w, _ := width(u)
		e := x.sym(v, w)
		n := int(w) / 8
		for i := 0; i < n; i++ {
			j := i
			if big {
				j = n - 1 - i
			}
			out = append(out, x.ec.Extract(e, uint8(8*j+7), uint8(8*j)))
		}
		return out
	case *types.Array:
		for _, e := range v.(array) {
			out = x.encodeFixed(u.Elem(), e, big, out)
		}
		return out
	case *types.Struct:
		for i, e := range v.(structure) {
			out = x.encodeFixed(u.Field(i).Type(), e, big, out)
		}
		return out
	}
	panic(unsupported("binary encoding of %s", t))
}

func (x *Exec) decodeFixed(t types.Type, b []*Expr, big bool) (value, []*Expr) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return conc(x.ec.Not(x.ec.Eq(b[0], x.ec.K(8, 0)))), b[1:]
		}
		w, _ := width(u)
		n := int(w) / 8
		parts := make([]*Expr, n)
		for i := 0; i < n; i++ {
			if big {
				parts[i] = b[i]
			} else {
				parts[n-1-i] = b[i]
			}
		}
		return conc(x.ec.Concat(parts...)), b[n:]
	case *types.Array:
		a := make(array, u.Len())
		for i := range a {
			a[i], b = x.decodeFixed(u.Elem(), b, big)
		}
		return a, b
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i], b = x.decodeFixed(u.Field(i).Type(), b, big)
		}
		return s, b
	}
	panic(unsupported("binary decoding of %s", t))
}

func (x *Exec) invoke(recv value, method string, args ...value) value {
	itf, ok := recv.(iface)
	if !ok || itf.t == nil {
		x.tpanic("invalid memory address or nil pointer dereference")
	}
	if f := x.modelMethod(itf, method); f != nil {
		return f.f(x, append([]value{itf.v}, args...))
	}
	x.prog.mu.Lock()
	ms := x.prog.prog.MethodSets.MethodSet(itf.t)
	sel := ms.Lookup(nil, method)
	var fn *ssa.Function
	if sel != nil {
		fn = x.prog.prog.MethodValue(sel)
	}
	x.prog.mu.Unlock()
	if fn == nil {
		panic(unsupported("method %s on %s", method, itf.t))
	}
	return x.call(nil, fn, append([]value{copyVal(itf.v)}, args...))
}

func (x *Exec) funcOf(pkg, name string) *ssa.Function {
	p := x.prog.pkgs[pkg]
	if p == nil || p.Func(name) == nil {
		panic(unsupported("%s.%s not loaded", pkg, name))
	}
	return p.Func(name)
}

func binaryRead(x *Exec, _ *ssa.Function, a []value) value {
	big := x.isBigEndian(a[1])
	d := a[2].(iface)
	if d.t == nil {
		return x.mkErr("binary.Read: invalid type nil")
	}
	var n int
	pt, isPtr := d.t.Underlying().(*types.Pointer)
	st, isSlice := d.t.Underlying().(*types.Slice)
	switch {
	case isPtr:
		k, ok := fixedSize(pt.Elem())
		if ps, isPS := pt.Elem().Underlying().(*types.Slice); !ok && isPS {
			k, ok = fixedSize(ps.Elem())
			k *= len((*x.ptr(d.v)).([]value))
		}
		if !ok {
			return x.mkErr("binary.Read: invalid type")
		}
		n = k
	case isSlice:
		k, ok := fixedSize(st.Elem())
		if !ok {
			return x.mkErr("binary.Read: invalid type")
		}
		n = k * len(d.v.([]value))
	default:
		return x.mkErr("binary.Read: invalid type")
	}
	buf := make([]value, n)
	for i := range buf {
		buf[i] = uint64(0)
	}
	r := x.call(nil, x.funcOf("io", "ReadFull"), []value{a[0], buf}).(tuple)
	if e := r[1].(iface); e.t != nil {
		return e
	}
	b := x.bytesToExprs(buf)
	if isPtr {
		p := x.ptr(d.v)
		if s, ok := (*p).([]value); ok {
			et := pt.Elem().Underlying().(*types.Slice).Elem()
			for i := range s {
				var v value
				v, b = x.decodeFixed(et, b, big)
				x.store(&s[i], v)
			}
			return iface{}
		}
		v, _ := x.decodeFixed(pt.Elem(), b, big)
		x.store(p, v)
		return iface{}
	}
	s := d.v.([]value)
	for i := range s {
		var v value
		v, b = x.decodeFixed(st.Elem(), b, big)
		x.store(&s[i], v)
	}
	return iface{}
}

func binaryWrite(x *Exec, _ *ssa.Function, a []value) value {
	big := x.isBigEndian(a[1])
	d := a[2].(iface)
	if d.t == nil {
		return x.mkErr("binary.Write: some values are not fixed-sized in type nil")
	}
	var out []*Expr
	t, v := d.t, d.v
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t, v = pt.Elem(), *x.ptr(v)
	}
	if st, ok := t.Underlying().(*types.Slice); ok {
		if _, ok := fixedSize(st.Elem()); !ok {
			return x.mkErr("binary.Write: some values are not fixed-sized")
		}
		for _, e := range v.([]value) {
			out = x.encodeFixed(st.Elem(), e, big, out)
		}
	} else {
		if _, ok := fixedSize(t); !ok {
			return x.mkErr("binary.Write: some values are not fixed-sized in type " + t.String())
		}
		out = x.encodeFixed(t, v, big, out)
	}
	r := x.invoke(a[0], "Write", exprsToBytes(out)).(tuple)
	return r[1]
}
