package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"runtime"
	"strings"
)

type intrinsic func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool)

var intrinsics = map[string]intrinsic{}
var pureIntrinsics = map[string]bool{}

func (x *exec) str(v Value) string {
	s := v.(Str)
	if s.b != nil {
		panic(unsupported("symbolic string where a constant is needed"))
	}
	return s.s
}

// fresh names a new input variable name#k.
func (x *exec) fresh(name string, s Sort) *Term {
	k := x.s.names[name]
	x.s.names[name] = k + 1
	v := V(vname(name, k, s), s)
	x.s.vars = append(x.s.vars, v)
	return v
}

const symPkg = "verif/harness/sym."

func (x *exec) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume", ""})
	}
	s := x.s
	if v, ok := s.lookup(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	keep := s.model != nil && s.model.Eval(c) != 0
	s.addPC(c)
	if !keep {
		s.model = nil
		s.maybe = true
	}
}

func (x *exec) assert(c *Term, msg string) {
	st := &x.e.st
	_ = st
	x.e.noteAssert(msg)
	if c.op == OAnd && !c.hard {
		x.assert(c.a[0], msg)
		x.assert(c.a[1], msg)
		return
	}
	if c.isTrue() {
		x.e.countAssert(true)
		return
	}
	s := x.s
	if v, ok := s.lookup(c); ok && v {
		x.e.countAssert(true)
		return
	}
	if os.Getenv("GOSYM_DUMPA") != "" {
		dumpQuery(nil, Not(c))
	}
	x.ensureModel()
	neg := Not(c)
	bad := s.model.Eval(neg) != 0
	if !bad {
		r, m := x.prove(neg, true)
		switch r {
		case RUnsat:
			x.e.countAssert(false)
			s.addKnown(c, true)
			return
		case RUnknown:
			if os.Getenv("GOSYM_DUMP") != "" {
				dumpQuery(s.pc, neg)
			}
			x.e.inconclusive("assertion not decided within the solver limit: " + msg)
			x.assume(c)
			return
		}
		s.model = m
	}
	x.e.addViolation(&Violation{Harness: x.e.harness, Kind: "assert", Msg: msg, Pos: x.posString(), Model: s.model, Vars: s.vars, Reach: s.reach})
	panic(pathEnd{"violation", msg})
}

func (x *exec) mkBytes(bs []*Term, label string) Slice {
	sl := make([]Value, len(bs))
	for i := range bs {
		sl[i] = bs[i]
	}
	id := x.allocSlots(sl, label)
	n := C(uint64(len(bs)), 64)
	return Slice{obj: id, len: n, cap: n, es: 1}
}

// findErr looks for a wrapped error inside an error value.
func (x *exec) unwrap(v Iface) (Iface, bool) {
	p, ok := v.v.(Ptr)
	if !ok || p.obj == 0 || v.t == nil {
		return Iface{}, false
	}
	switch v.t.String() {
	case "*fmt.wrapError", "*github.com/pkg/errors.withStack", "*github.com/pkg/errors.withMessage", "*io/fs.PathError":
	default:
		return Iface{}, false
	}
	o := x.s.heap.get(p.obj)
	for _, sv := range o.slots {
		if i, ok := sv.(Iface); ok && i.t != nil {
			return i, true
		}
	}
	return Iface{}, false
}

func init() {
	reg := func(name string, h intrinsic) { intrinsics[name] = h }
	pure := func(name string, h func(x *exec, a []Value) Value) {
		intrinsics[name] = func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) { return h(x, args), true }
		pureIntrinsics[name] = true
	}
	tm := func(v Value) *Term { return v.(*Term) }

	// ---- harness API ----
	sv := func(name string, s Sort) {
		reg(symPkg+name, func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
			return x.fresh(x.str(a[0]), s), true
		})
	}
	sv("U8", BV(8))
	sv("U16", BV(16))
	sv("U32", BV(32))
	sv("U64", BV(64))
	sv("I64", BV(64))
	sv("I32", BV(32))
	reg(symPkg+"Bool", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		return Not(Eq(x.fresh(x.str(a[0]), BV(1)), C(0, 1))), true
	})
	reg(symPkg+"F32", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		return FFromBits(x.fresh(x.str(a[0]), BV(32))), true
	})
	rangeT := func(x *exec, a []Value) *Term {
		lo, hi := int64(tm(a[1]).val), int64(tm(a[2]).val)
		if !tm(a[1]).isC() || !tm(a[2]).isC() || hi < lo {
			panic(unsupported("sym.Range bounds"))
		}
		n := uint64(hi - lo)
		if n == 0 {
			x.s.names[x.str(a[0])]++
			return CI(lo, 64)
		}
		w := bits.Len64(n)
		v := x.fresh(x.str(a[0]), BV(w))
		x.assume(ULe(v, C(n, w)))
		return BVBin(OAdd, CI(lo, 64), ZExt(v, 64))
	}
	reg(symPkg+"Range", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) { return rangeT(x, a), true })
	reg(symPkg+"Choose", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		// concretised by forking; must be re-executable, so undo the name on a fork
		name := x.str(a[0])
		k := x.s.names[name]
		key := fmt.Sprintf("%s#%d!", name, k)
		lo, hi := int64(tm(a[1]).val), int64(tm(a[2]).val)
		n := uint64(hi - lo)
		if hi < lo {
			panic(unsupported("sym.Choose bounds"))
		}
		if n == 0 {
			x.s.names[name] = k + 1
			return CI(lo, 64), true
		}
		w := bits.Len64(n)
		v := V(vname(name, k, BV(w)), BV(w))
		if x.s.opts[key] == 0 {
			x.s.opts[key] = 1
			x.s.vars = append(x.s.vars, v)
			x.assume(ULe(v, C(n, w)))
		}
		c := x.concretize(v)
		x.s.names[name] = k + 1
		return CI(lo+int64(c), 64), true
	})
	reg(symPkg+"Bytes", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		name, n := x.str(a[0]), x.cint(tm(a[1]))
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = x.fresh(name, BV(8))
		}
		return x.mkBytes(bs, name), true
	})
	reg(symPkg+"Conc", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		return C(x.concretize(tm(a[0])), 64), true
	})
	reg(symPkg+"Assume", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		x.assume(tm(a[0]))
		return Tuple{}, true
	})
	reg(symPkg+"Assert", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		x.assert(tm(a[0]), x.str(a[1]))
		return Tuple{}, true
	})
	reg(symPkg+"Reach", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		x.ensureModel()
		x.e.noteReach(x.str(a[0]), x.s)
		x.s.reach = append(x.s.reach, x.str(a[0]))
		return Tuple{}, true
	})
	reg(symPkg+"Out", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		x.s.outs = append(x.s.outs, outVal{x.str(a[0]), tm(a[1])})
		return Tuple{}, true
	})
	reg(symPkg+"OutBytes", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		for _, t := range x.sliceTerms(a[1].(Slice)) {
			x.s.outs = append(x.s.outs, outVal{x.str(a[0]), ZExt(t, 64)})
		}
		return Tuple{}, true
	})
	reg(symPkg+"File", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		b, err := os.ReadFile(x.e.repo + "/" + x.str(a[0]))
		if err != nil {
			panic(unsupported("file " + err.Error()))
		}
		ts := make([]*Term, len(b))
		for i, c := range b {
			ts[i] = C(uint64(c), 8)
		}
		return x.mkBytes(ts, "file"), true
	})
	reg(symPkg+"Param", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		n := x.str(a[0])
		if v, ok := x.e.params[n]; ok {
			return CI(int64(v), 64), true
		}
		x.e.noteParam(n, int(int64(tm(a[1]).val)))
		return a[1], true
	})
	reg(symPkg+"Opt", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		x.s.opts[x.str(a[0])] = x.cint(tm(a[1]))
		return Tuple{}, true
	})
	reg(symPkg+"Procs", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		x.s.procs = tm(a[0])
		return Tuple{}, true
	})
	pure(symPkg+"Native", func(x *exec, a []Value) Value { return tFalse })
	pure(symPkg+"And", func(x *exec, a []Value) Value { return And(tm(a[0]), tm(a[1])) })
	pure(symPkg+"Or", func(x *exec, a []Value) Value { return Or(tm(a[0]), tm(a[1])) })
	pure(symPkg+"Implies", func(x *exec, a []Value) Value { return Or(Not(tm(a[0])), tm(a[1])) })
	pure(symPkg+"Ite", func(x *exec, a []Value) Value { return Ite(tm(a[0]), tm(a[1]), tm(a[2])) })
	reg(symPkg+"Eq", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		p, q := a[0].(Slice), a[1].(Slice)
		b1, b2 := x.sliceTerms(p), x.sliceTerms(q)
		if len(b1) != len(b2) {
			return tFalse, true
		}
		r := tTrue
		for i := range b1 {
			r = And(r, Eq(b1[i], b2[i]))
		}
		return r, true
	})
	pure(symPkg+"StrEq", func(x *exec, a []Value) Value { return x.strEq(a[0].(Str), a[1].(Str)) })
	reg(symPkg+"Note", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) { return Tuple{}, true })

	// ---- runtime ----
	reg("runtime.GOMAXPROCS", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		if x.s.procs == nil {
			return C(1, 64), true
		}
		return x.s.procs, true
	})
	reg("runtime.NumCPU", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) { return CI(int64(runtime.NumCPU()), 64), true })
	nop := func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) { return Tuple{}, true }
	for _, n := range []string{"runtime.GC", "runtime.SetFinalizer", "runtime.KeepAlive", "(*strings.Builder).copyCheck", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "internal/race.Read", "internal/race.Write"} {
		reg(n, nop)
	}
	reg("runtime.Gosched", nop)
	reg("time.Sleep", nop)
	reg("log.Printf", nop)
	reg("runtime.Callers", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) { return C(0, 64), true })

	// ---- math ----
	pure("math.Float32bits", func(x *exec, a []Value) Value { return FToBits(tm(a[0])) })
	pure("math.Float64bits", func(x *exec, a []Value) Value { return FToBits(tm(a[0])) })
	pure("math.Float32frombits", func(x *exec, a []Value) Value { return FFromBits(tm(a[0])) })
	pure("math.Float64frombits", func(x *exec, a []Value) Value { return FFromBits(tm(a[0])) })
	pure("math.Sqrt", func(x *exec, a []Value) Value { return FUn(OFSqrt, tm(a[0]), 0) })
	pure("math.Abs", func(x *exec, a []Value) Value { return FUn(OFAbs, tm(a[0]), 0) })
	pure("math.Floor", func(x *exec, a []Value) Value { return FUn(OFRound, tm(a[0]), 0) })
	pure("math.Ceil", func(x *exec, a []Value) Value { return FUn(OFRound, tm(a[0]), 1) })
	pure("math.Trunc", func(x *exec, a []Value) Value { return FUn(OFRound, tm(a[0]), 2) })
	pure("math.IsNaN", func(x *exec, a []Value) Value { return FIsNaN(tm(a[0])) })
	pure("math.Pow", func(x *exec, a []Value) Value {
		p, q := tm(a[0]), tm(a[1])
		if p.isC() && q.isC() {
			return CF(math.Float64bits(math.Pow(f64of(p), f64of(q))), FP64)
		}
		return UF("pow", FP64, p, q)
	})
	mm := func(max bool) func(x *exec, a []Value) Value {
		return func(x *exec, a []Value) Value {
			p, q := tm(a[0]), tm(a[1])
			nan := CF(0x7ff8000000000001, FP64)
			neg := func(t *Term) *Term { return Not(Eq(Extract(FToBits(t), 63, 63), C(0, 1))) }
			lt := FCmp(OFLt, p, q)
			eq := FCmp(OFEq, p, q)
			var r *Term
			if max {
				r = Ite(eq, Ite(neg(p), q, p), Ite(lt, q, p))
			} else {
				r = Ite(eq, Ite(neg(p), p, q), Ite(lt, p, q))
			}
			inf := CF(math.Float64bits(math.Inf(1)), FP64)
			if !max {
				inf = CF(math.Float64bits(math.Inf(-1)), FP64)
			}
			isInf := Or(FCmp(OFEq, p, inf), FCmp(OFEq, q, inf))
			return Ite(isInf, inf, Ite(Or(FIsNaN(p), FIsNaN(q)), nan, r))
		}
	}
	pure("math.Max", mm(true))
	pure("math.Min", mm(false))
	pure("math.archMax", mm(true))
	pure("math.archMin", mm(false))

	// ---- bytes and strings ----
	byteSeq := func(x *exec, v Value) []*Term {
		switch s := v.(type) {
		case Slice:
			return x.sliceTerms(s)
		case Str:
			r := make([]*Term, s.Len())
			for i := range r {
				r[i] = s.At(i)
			}
			return r
		}
		panic(unsupported("byte sequence"))
	}
	indexByte := func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		r := CI(-1, 64)
		bs := byteSeq(x, a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			r = Ite(Eq(bs[i], tm(a[1])), C(uint64(i), 64), r)
		}
		return r, true
	}
	reg("internal/bytealg.IndexByte", indexByte)
	reg("internal/bytealg.IndexByteString", indexByte)
	reg("internal/bytealg.Equal", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		p, q := byteSeq(x, a[0]), byteSeq(x, a[1])
		return x.strEq(mkStr(p), mkStr(q)), true
	})
	intrinsics["bytes.Equal"] = intrinsics["internal/bytealg.Equal"]
	reg("internal/bytealg.CountString", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		r := C(0, 64)
		for _, b := range byteSeq(x, a[0]) {
			r = BVBin(OAdd, r, Ite(Eq(b, tm(a[1])), C(1, 64), C(0, 64)))
		}
		return r, true
	})
	intrinsics["internal/bytealg.Count"] = intrinsics["internal/bytealg.CountString"]
	reg("internal/bytealg.Compare", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		p, q := mkStr(byteSeq(x, a[0])), mkStr(byteSeq(x, a[1]))
		lt := x.strop(token.LSS, p, q).(*Term)
		return Ite(lt, CI(-1, 64), Ite(x.strEq(p, q), C(0, 64), C(1, 64))), true
	})
	reg("internal/bytealg.IndexString", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		return CI(int64(strings.Index(x.str(a[0]), x.str(a[1]))), 64), true
	})
	for _, n := range []string{"Contains", "HasPrefix", "HasSuffix"} {
		n := n
		reg("strings."+n, func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
			p, q := a[0].(Str), a[1].(Str)
			if n == "Contains" {
				return CB(strings.Contains(x.str(p), x.str(q))), true
			}
			if q.Len() > p.Len() {
				return tFalse, true
			}
			if n == "HasPrefix" {
				return x.strEq(p.Sub(0, q.Len()), q), true
			}
			return x.strEq(p.Sub(p.Len()-q.Len(), p.Len()), q), true
		})
	}
	reg("internal/bytealg.MakeNoZero", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		return x.mkslice(types.Typ[types.Uint8], tm(a[0]), tm(a[0]), false, "MakeNoZero"), true
	})
	reg("(*strings.Builder).String", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		p := a[0].(Ptr)
		s := x.s.heap.get(p.obj).slots[p.off+1].(Slice)
		return mkStr(x.sliceTerms(s)), true
	})
	reg("strings.Clone", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) { return a[0], true })
	reg("internal/abi.NoEscape", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) { return a[0], true })

	// ---- fmt, errors ----
	opaque := func(k int) intrinsic {
		return func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
			s := "fmt"
			if k >= 0 {
				if t, ok := a[k].(Str); ok && t.b == nil {
					s = t.s
				}
			}
			return Str{s: s}, true
		}
	}
	reg("fmt.Sprintf", opaque(0))
	reg("fmt.Sprint", opaque(-1))
	reg("fmt.Sprintln", opaque(-1))
	reg("fmt.Errorf", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		msg := "fmt.Errorf"
		if s, ok := a[0].(Str); ok && s.b == nil {
			msg = s.s
		}
		if strings.Contains(msg, "%w") && x.e.wrapErrType != nil {
			sl := a[1].(Slice)
			n := x.cint(sl.len)
			for i := 0; i < n; i++ {
				v := x.s.heap.get(sl.obj).slots[sl.off+i].(Iface)
				if v.t != nil && x.e.implements(v.t, x.e.errIface) {
					id := x.allocSlots([]Value{Str{s: msg}, v}, "wrapError")
					return Iface{t: x.e.wrapErrType, v: Ptr{obj: id}}, true
				}
			}
		}
		return x.mkError(msg), true
	})
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		reg(n, func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) { return Tuple{C(0, 64), Iface{}}, true })
	}
	reg("errors.Is", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		e, t := a[0].(Iface), a[1].(Iface)
		r := tFalse
		for k := 0; k < 20; k++ {
			if e.t == nil || t.t == nil {
				return CB(e.t == nil && t.t == nil), true
			}
			if types.Comparable(e.t) {
				r = Or(r, x.equal(e, t))
			}
			n, ok := x.unwrap(e)
			if !ok {
				break
			}
			e = n
		}
		return r, true
	})
	reg("errors.Unwrap", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		n, ok := x.unwrap(a[0].(Iface))
		if !ok {
			return Iface{}, true
		}
		return n, true
	})
	reg("internal/reflectlite.TypeOf", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) { return Iface{}, true })
	reg("time.Now", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) {
		return zeroVal(fn.fn.Signature.Results().At(0).Type()), true
	})
	reg("time.Since", func(x *exec, f *Frame, a []Value, fn Fn) (Value, bool) { return C(0, 64), true })
}

// vname is the solver name of an input; the sort keeps different declarations apart.
func vname(name string, k int, s Sort) string { return fmt.Sprintf("%s#%d@%d.%d", name, k, s.K, s.W) }
