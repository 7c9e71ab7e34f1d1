package main

import (
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

var sizes = types.SizesFor("gc", "amd64")

// Go's allocator size classes: append's capacity growth decides which writes alias, so it is modelled exactly.
var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int64, noscan bool) int64 {
	req := size
	if !noscan && req > 512 {
		req += 8
	}
	if req <= 32768-8 || (noscan && req <= 32768) {
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	req = size
	return (req + 8191) / 8192 * 8192
}

func hasPointers(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString != 0 || t.Kind() == types.UnsafePointer
	case *types.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPointers(t.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func growCap(oldCap, newLen int, et types.Type) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = doublecap
	} else {
		for uint(newcap) < uint(newLen) {
			newcap += (newcap + 3*256) >> 2
		}
	}
	es := sizes.Sizeof(et)
	if es == 0 {
		return newLen
	}
	mem := roundupsize(int64(newcap)*es, !hasPointers(et))
	return int(mem / es)
}

func (x *Exec) appendVals(s []value, add []value, et types.Type) []value {
	if len(add) == 0 {
		return s
	}
	x.touchCells(add)
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		// memmove semantics: read everything before writing
		tmp := make([]value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			x.store(&r[len(s)+i], tmp[i])
		}
		return r
	}
	x.touchCells(s)
	c := growCap(cap(s), n, et)
	if c < n {
		c = n
	}
	r := make([]value, c)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	x.fillZero(r[n:c], et)
	return r[:n]
}

func (x *Exec) builtin(fr *frame, b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case string:
			return uint64(len(v))
		case *symString:
			return uint64(len(v.b))
		case []value:
			return uint64(len(v))
		case array:
			return uint64(len(v))
		case *value:
			return uint64(len((*v).(array)))
		case *omap:
			if v == nil {
				return uint64(0)
			}
			return uint64(len(v.keys))
		case *chanv:
			return uint64(len((*v.q).([]value)))
		}
	case "cap":
		switch v := args[0].(type) {
		case []value:
			return uint64(cap(v))
		case array:
			return uint64(len(v))
		case *value:
			return uint64(len((*v).(array)))
		case *chanv:
			return uint64(math.MaxInt32)
		}
	case "append":
		s := args[0].([]value)
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		switch a := args[1].(type) {
		case []value:
			return x.appendVals(s, a, et)
		case string, *symString:
			return x.appendVals(s, stringBytes(a), et)
		}
	case "copy":
		d := args[0].([]value)
		var src []value
		switch a := args[1].(type) {
		case []value:
			src = a
		default:
			src = stringBytes(a)
		}
		n := min(len(d), len(src))
		x.touchCells(src[:n])
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			x.store(&d[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		if x.spec > 0 {
			panic(specAbort{})
		}
		m := args[0].(*omap)
		x.touchMap(m, true)
		mt := call.Args[0].Type().Underlying().(*types.Map)
		if i := x.findKey(m, mt.Key(), args[1]); i >= 0 {
			m.keys = append(append([]value(nil), m.keys[:i]...), m.keys[i+1:]...)
			m.vals = append(append([]value(nil), m.vals[:i]...), m.vals[i+1:]...)
		}
		return nil
	case "panic":
		panic(targetPanic{v: args[0], msg: "panic: " + x.show(args[0])})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking frame
		c := fr.caller
		if c != nil && c.panic != nil {
			v := c.panic.v
			c.panic = nil
			if itf, ok := v.(iface); ok {
				return itf
			}
			return iface{t: x.prog.errType, v: v}
		}
		return iface{}
	case "print", "println":
		return nil
	case "close":
		x.release(args[0].(*chanv))
		x.prog.closeChan(args[0].(*chanv))
		return nil
	case "clear":
		switch v := args[0].(type) {
		case []value:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range v {
				x.store(&v[i], x.zero(et))
			}
		case *omap:
			if x.spec > 0 {
				panic(specAbort{})
			}
			x.touchMap(v, true)
			v.keys, v.vals = nil, nil
		}
		return nil
	case "min", "max":
		r := args[0]
		t := call.Args[0].Type()
		for _, a := range args[1:] {
			w, signed := width(t)
			ra, rb := x.sym(r, w), x.sym(a, w)
			lt := x.ec.Ult(rb, ra)
			if signed {
				lt = x.ec.Slt(rb, ra)
			}
			if b.Name() == "max" {
				lt = x.ec.Ult(ra, rb)
				if signed {
					lt = x.ec.Slt(ra, rb)
				}
			}
			r = conc(x.ec.Ite(lt, rb, ra))
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			x.tpanic("value method called using nil pointer")
		}
		return args[0]
	}
	panic(unsupported("builtin %s on %T", b.Name(), args[0]))
}
