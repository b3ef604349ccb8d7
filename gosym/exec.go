package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// control flow inside the interpreter
type pathEnd struct{ kind, msg string } // done, assume, infeasible, inconclusive, violation
type bail struct{}                      // leave a merged region

type goPanic struct{ v Value } // a Go panic raised by an instruction

type Violation struct {
	Harness string
	Kind    string // assert, panic, race, deadlock
	Msg     string
	Pos     string
	Model   *Model  `json:"-"`
	Vars    []*Term `json:"-"`
	Vals    map[string]uint64
	Reach   []string
}

type exec struct {
	e      *Engine
	s      *State
	sol    *Solver
	noFork bool
	rpc    *Term // region path condition while merging
	depthM int
	ge     *gexec
}

func (x *exec) g() *G         { return x.s.gs[x.s.cur] }
func (x *exec) frame() *Frame { g := x.g(); return g.frames[len(g.frames)-1] }

// ---- solver interaction ----

func (x *exec) ensureModel() {
	s := x.s
	if s.model != nil {
		return
	}
	r, m := x.sol.check(s.pc, nil, true)
	if r == RUnknown {
		r, m, _ = oneShot(&x.e.st, s.pc, nil, x.e.hardLimit())
	}
	switch r {
	case RUnsat:
		panic(pathEnd{"infeasible", ""})
	case RUnknown:
		panic(pathEnd{"inconclusive", "path feasibility unknown (solver limit)"})
	}
	s.model = m
	s.maybe = false
}

// decide returns the truth of c on this path, forking when both are possible.
func (x *exec) decide(c *Term) bool {
	if c.isC() {
		return c.val != 0
	}
	s := x.s
	if v, ok := s.lookup(c); ok {
		return v
	}
	if x.noFork {
		// only a proof that c holds (in the region) lets us continue
		ex := Not(c)
		if x.rpc != nil {
			ex = And(x.rpc, ex)
		}
		if ex.isFalse() {
			return true
		}
		x.ensureModel()
		if s.model.Eval(ex) == 0 {
			if r, _ := x.proveFast(ex); r == RUnsat {
				return true
			}
		}
		panic(bail{})
	}
	if x.e.expired() {
		panic(pathEnd{"inconclusive", "time budget"})
	}
	x.ensureModel()
	v := s.model.Eval(c) != 0
	other := c
	if v {
		other = Not(c)
	}
	r, m := x.prove(other, false)
	if r == RUnsat {
		s.addKnown(c, v)
		return v
	}
	if profForks {
		x.e.mu.Lock()
		x.e.forks[x.posString()]++
		x.e.mu.Unlock()
	}
	sib := s.fork()
	sib.addPC(other)
	sib.model = m
	sib.maybe = r == RUnknown
	sib.depth++
	x.e.push(sib)
	if v {
		s.addPC(c)
	} else {
		s.addPC(Not(c))
	}
	return v
}

// concretize forks over all feasible values of t.
func (x *exec) concretize(t *Term) uint64 {
	for {
		if t.isC() {
			return t.val
		}
		if x.noFork {
			panic(bail{})
		}
		x.ensureModel()
		v := x.s.model.Eval(t)
		if x.decide(Eq(t, CF2(v, t.sort))) {
			return v
		}
	}
}

func CF2(v uint64, s Sort) *Term {
	switch s.K {
	case KBool:
		return CB(v != 0)
	case KBV:
		return C(v, int(s.W))
	}
	return CF(v, s)
}

func (x *exec) cint(t *Term) int { return int(signed(x.concretize(t), t.sort.W)) }

// ---- panics ----

func (x *exec) goPanicMsg(msg string) goPanic {
	if x.noFork {
		panic(bail{})
	}
	return goPanic{x.mkError("runtime error: " + msg)}
}

// mkError builds an *errors.errorString value.
func (x *exec) mkError(msg string) Value {
	o := &Object{owner: x.s.owner, slots: []Value{Str{s: msg}}, label: "error"}
	id := x.s.heap.add(o, x.s.owner)
	return Iface{t: x.e.errType, v: Ptr{obj: id}}
}

// ---- memory ----

func (x *exec) alloc(t types.Type, n int, label string) int {
	one := zeroSlots(t, nil)
	var slots []Value
	if n == 1 {
		slots = one
	} else {
		slots = make([]Value, 0, n*len(one))
		for i := 0; i < n; i++ {
			slots = append(slots, one...)
		}
	}
	return x.s.heap.add(&Object{owner: x.s.owner, slots: slots, label: label, typ: t}, x.s.owner)
}

func (x *exec) allocSlots(slots []Value, label string) int {
	return x.s.heap.add(&Object{owner: x.s.owner, slots: slots, label: label}, x.s.owner)
}

func hb(a access, clk []int) bool { return a.g < len(clk) && a.clk <= clk[a.g] }

func (x *exec) logAccess(id, off, n int, write bool) {
	if !x.s.raceOn {
		return
	}
	g := x.g()
	o := x.s.heap.mut(id, x.s.owner)
	if o.sh == nil {
		o.sh = map[int]*shadow{}
	}
	me := access{g.id, g.clk[g.id]}
	for i := off; i < off+n; i++ {
		sh := o.sh[i]
		if sh == nil {
			sh = &shadow{w: access{-1, 0}}
		}
		ns := &shadow{w: sh.w, rs: append([]access(nil), sh.rs...)}
		if sh.w.g >= 0 && sh.w.g != me.g && !hb(sh.w, g.clk) {
			x.race(o, i, "write", write)
		}
		if write {
			for _, r := range sh.rs {
				if r.g != me.g && !hb(r, g.clk) {
					x.race(o, i, "read", write)
				}
			}
			ns.w = me
			ns.rs = nil
		} else {
			found := false
			for k := range ns.rs {
				if ns.rs[k].g == me.g {
					ns.rs[k] = me
					found = true
				}
			}
			if !found {
				ns.rs = append(ns.rs, me)
			}
		}
		o.sh[i] = ns
	}
}

func (x *exec) race(o *Object, i int, other string, write bool) {
	w := "read"
	if write {
		w = "write"
	}
	x.report("race", fmt.Sprintf("data race: unordered %s after %s of %s", w, other, o.label))
	panic(pathEnd{"violation", "race"})
}

func (x *exec) load(p Ptr, t types.Type) Value {
	if p.obj == 0 {
		panic(x.goPanicMsg("invalid memory address or nil pointer dereference"))
	}
	o := x.s.heap.get(p.obj)
	if o.uninit {
		panic(unsupported("read of uninitialised package variable " + o.label))
	}
	n := sizeOf(t)
	agg := isAgg(t)
	if o.sparse {
		if p.sym != nil {
			p = x.concPtr(p)
		}
		x.logAccess(p.obj, p.off, n, false)
		if !agg {
			return o.spGet(p.off)
		}
		r := make(Agg, n)
		for i := range r {
			r[i] = o.spGet(p.off + i)
		}
		return r
	}
	if p.sym == nil {
		x.logAccess(p.obj, p.off, n, false)
		if !agg {
			return o.slots[p.off]
		}
		return Agg(append([]Value(nil), o.slots[p.off:p.off+n]...))
	}
	// symbolic index: build ite chains
	if p.n > x.e.maxIte {
		return x.load(x.concPtr(p), t)
	}
	x.logAccess(p.obj, p.off, p.n*p.scale, false)
	r := make(Agg, n)
	for j := 0; j < n; j++ {
		v := o.slots[p.off+(p.n-1)*p.scale+j]
		ok := true
		for i := p.n - 2; i >= 0 && ok; i-- {
			v, ok = iteVal(Eq(p.sym, C(uint64(i), 64)), o.slots[p.off+i*p.scale+j], v)
		}
		if !ok {
			return x.load(x.concPtr(p), t)
		}
		r[j] = v
	}
	if !agg {
		return r[0]
	}
	return r
}

func (o *Object) spGet(off int) Value {
	if v, ok := o.sp[off]; ok {
		return v
	}
	return o.zero[off%len(o.zero)]
}

func (x *exec) concPtr(p Ptr) Ptr {
	if p.sym == nil {
		return p
	}
	i := x.cint(p.sym)
	return Ptr{obj: p.obj, off: p.off + i*p.scale}
}

func (x *exec) store(p Ptr, t types.Type, v Value) {
	if p.obj == 0 {
		panic(x.goPanicMsg("invalid memory address or nil pointer dereference"))
	}
	if x.noFork {
		panic(bail{})
	}
	o := x.s.heap.get(p.obj)
	n := sizeOf(t)
	if o.sparse || p.sym != nil && p.n > x.e.maxIte {
		p = x.concPtr(p)
	}
	if p.sym != nil {
		// all-or-nothing merge
		nv := make([]Value, 0, p.n*n)
		for i := 0; i < p.n; i++ {
			c := Eq(p.sym, C(uint64(i), 64))
			for j := 0; j < n; j++ {
				var e Value = v
				if a, ok := v.(Agg); ok {
					e = a[j]
				}
				m, ok := iteVal(c, e, o.slots[p.off+i*p.scale+j])
				if !ok {
					x.store(x.concPtr(p), t, v)
					return
				}
				nv = append(nv, m)
			}
		}
		x.logAccess(p.obj, p.off, p.n*p.scale, true)
		o = x.s.heap.mut(p.obj, x.s.owner)
		k := 0
		for i := 0; i < p.n; i++ {
			for j := 0; j < n; j++ {
				o.slots[p.off+i*p.scale+j] = nv[k]
				k++
			}
		}
		return
	}
	x.logAccess(p.obj, p.off, n, true)
	o = x.s.heap.mut(p.obj, x.s.owner)
	o.uninit = false
	if o.sparse {
		if a, ok := v.(Agg); ok && isAgg(t) {
			for i := range a {
				o.sp[p.off+i] = a[i]
			}
		} else {
			o.sp[p.off] = v
		}
		return
	}
	if isAgg(t) {
		copy(o.slots[p.off:p.off+n], v.(Agg))
		return
	}
	o.slots[p.off] = v
}

// iteVal merges two values of the same type when representable.
func iteVal(c *Term, a, b Value) (Value, bool) {
	switch av := a.(type) {
	case *Term:
		bv, ok := b.(*Term)
		if !ok || av.sort != bv.sort {
			return nil, false
		}
		return Ite(c, av, bv), true
	case Agg:
		bv, ok := b.(Agg)
		if !ok || len(av) != len(bv) {
			return nil, false
		}
		r := make(Agg, len(av))
		for i := range av {
			if r[i], ok = iteVal(c, av[i], bv[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case Tuple:
		bv, ok := b.(Tuple)
		if !ok || len(av) != len(bv) {
			return nil, false
		}
		r := make(Tuple, len(av))
		for i := range av {
			if r[i], ok = iteVal(c, av[i], bv[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case Iface:
		bv, ok := b.(Iface)
		if !ok || (av.t == nil) != (bv.t == nil) {
			return nil, false
		}
		if av.t == nil {
			return av, true
		}
		if !types.Identical(av.t, bv.t) {
			return nil, false
		}
		v, ok := iteVal(c, av.v, bv.v)
		return Iface{av.t, v}, ok
	case Ptr:
		bv, ok := b.(Ptr)
		return a, ok && av == bv
	case Slice:
		bv, ok := b.(Slice)
		return a, ok && av == bv
	case MapV:
		bv, ok := b.(MapV)
		return a, ok && av == bv
	case ChanV:
		bv, ok := b.(ChanV)
		return a, ok && av == bv
	case Str:
		bv, ok := b.(Str)
		if !ok || av.Len() != bv.Len() {
			return nil, false
		}
		if av.b == nil && bv.b == nil && av.s == bv.s {
			return a, true
		}
		t := make([]*Term, av.Len())
		for i := range t {
			t[i] = Ite(c, av.At(i), bv.At(i))
		}
		return mkStr(t), true
	case Fn:
		bv, ok := b.(Fn)
		return a, ok && av.fn == bv.fn && len(av.env) == 0 && len(bv.env) == 0 && av.bi == bv.bi
	}
	return nil, false
}

// ---- operands ----

var fnInfos sync.Map

func infoOf(fn *ssa.Function) *FnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		fi.idx[p] = fi.n
		fi.n++
	}
	for _, p := range fn.FreeVars {
		fi.idx[p] = fi.n
		fi.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fi.ninstr++
			if v, ok := in.(ssa.Value); ok {
				fi.idx[v] = fi.n
				fi.n++
			}
		}
	}
	fi.computeRegions()
	v, _ := fnInfos.LoadOrStore(fn, fi)
	return v.(*FnInfo)
}

var constCache sync.Map

func constVal(c *ssa.Const) Value {
	if v, ok := constCache.Load(c); ok {
		return v
	}
	v := constVal1(c)
	// only cache leaf constants (terms survive within one process run)
	constCache.Store(c, v)
	return v
}

func constVal1(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{s: constant.StringVal(c.Value)}
		}
		s, _, ok := basicSort(u)
		if !ok {
			panic(unsupported("const " + c.String()))
		}
		switch s.K {
		case KBool:
			return CB(constant.BoolVal(c.Value))
		case KBV:
			cv := constant.ToInt(c.Value)
			if v, ok := constant.Int64Val(cv); ok {
				return CI(v, int(s.W))
			}
			v, _ := constant.Uint64Val(cv)
			return C(v, int(s.W))
		}
		f, _ := constant.Float64Val(c.Value)
		if s.W == 32 {
			f32, _ := constant.Float32Val(c.Value)
			return CF(uint64(math.Float32bits(f32)), s)
		}
		return CF(math.Float64bits(f), s)
	}
	panic(unsupported("const " + c.String()))
}

func (x *exec) get(f *Frame, v ssa.Value) Value {
	if i, ok := f.fi.idx[v]; ok {
		r := f.regs[i]
		if r == nil {
			panic(unsupported("undefined register " + v.Name() + " in " + f.fi.fn.String()))
		}
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Function:
		return Fn{fn: c}
	case *ssa.Global:
		id, ok := x.s.globals[c]
		if !ok {
			panic(unsupported("variable of package outside the encoded set: " + c.String()))
		}
		return Ptr{obj: id}
	case *ssa.Builtin:
		return Fn{bi: c.Name()}
	}
	panic(unsupported(fmt.Sprintf("operand %T", v)))
}

func (x *exec) set(f *Frame, v ssa.Value, val Value) { f.regs[f.fi.idx[v]] = val }

func (x *exec) term(f *Frame, v ssa.Value) *Term { return x.get(f, v).(*Term) }

// ---- calls ----

func (x *exec) pushFrame(g *G, fn *ssa.Function, args []Value, env []Value, ret ssa.Value) *Frame {
	if len(fn.Blocks) == 0 {
		panic(unsupported("function without body: " + fn.String()))
	}
	fi := infoOf(fn)
	x.e.noteFn(fi)
	f := &Frame{fi: fi, regs: make([]Value, fi.n), retTo: ret, block: fn.Blocks[0], env: env}
	for i, p := range fn.Params {
		_ = p
		f.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		f.regs[len(fn.Params)+i] = env[i]
	}
	if len(g.frames) > x.e.maxDepth {
		panic(pathEnd{"inconclusive", "call depth limit in " + fn.String()})
	}
	g.frames = append(g.frames, f)
	return f
}

// resolve finds the target function of a call.
func (x *exec) resolve(f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := x.get(f, c.Value).(Iface)
		if recv.t == nil {
			panic(x.goPanicMsg("invalid memory address or nil pointer dereference"))
		}
		fn := x.e.method(recv.t, c.Method)
		if fn == nil {
			panic(unsupported("method " + c.Method.FullName() + " on " + recv.t.String()))
		}
		args = append(args, recv.v)
		for _, a := range c.Args {
			args = append(args, x.get(f, a))
		}
		return Fn{fn: fn}, args
	}
	fv := x.get(f, c.Value)
	for _, a := range c.Args {
		args = append(args, x.get(f, a))
	}
	return fv, args
}

func (x *exec) doCall(f *Frame, in ssa.CallInstruction) {
	c := in.Common()
	fv, args := x.resolve(f, c)
	fn := fv.(Fn)
	var ret ssa.Value
	if v, ok := in.(*ssa.Call); ok {
		ret = v
	}
	if fn.bi != "" && fn.fn == nil {
		r := x.builtin(f, fn.bi, c, args)
		if ret != nil && r != nil {
			x.set(f, ret, r)
		}
		f.pc++
		return
	}
	x.callFn(f, fn, args, ret)
}

// callFn invokes a function value; advances f.pc.
func (x *exec) callFn(f *Frame, fn Fn, args []Value, ret ssa.Value) {
	if fn.fn == nil {
		panic(x.goPanicMsg("invalid memory address or nil pointer dereference"))
	}
	name := x.e.fnName(fn.fn)
	if h := intrinsics[name]; h != nil {
		r, done := h(x, f, args, fn)
		if !done {
			return // the intrinsic switched goroutine or pushed a frame
		}
		if ret != nil && r != nil {
			x.set(f, ret, r)
		}
		f.pc++
		return
	}
	if fn.fn.Synthetic != "" && fn.fn.Name() == "init" && fn.fn.Pkg != nil && fn.fn.Signature.Recv() == nil && fn.fn.Parent() == nil {
		if !x.e.initAllowed(fn.fn.Pkg.Pkg.Path()) {
			f.pc++
			return
		}
	}
	if fn.fn.Pkg != nil && x.e.bannedPkg(fn.fn.Pkg.Pkg.Path()) {
		panic(unsupported("call into " + fn.fn.String()))
	}
	// merge pure functions
	if x.e.mergeOn(x.s) && x.anySym(args) {
		fi := infoOf(fn.fn)
		if fi.isPure() {
			if r, ok := x.tryPure(fi, args, fn.env); ok {
				if ret != nil {
					x.set(f, ret, r)
				}
				f.pc++
				return
			}
		}
	}
	if x.noFork {
		panic(bail{})
	}
	f.pc++
	x.pushFrame(x.g(), fn.fn, args, fn.env, ret)
}

func (x *exec) anySym(args []Value) bool {
	for _, a := range args {
		if hasSym(a) {
			return true
		}
	}
	return false
}
func hasSym(v Value) bool {
	switch a := v.(type) {
	case *Term:
		return !a.isC()
	case Agg:
		for _, e := range a {
			if hasSym(e) {
				return true
			}
		}
	case Iface:
		return a.t != nil && hasSym(a.v)
	}
	return false
}

// ret returns from the top frame with the given results.
func (x *exec) doReturn(vals []Value) {
	g := x.g()
	f := x.frame()
	if len(f.defers) > 0 && !f.unwinding {
		// RunDefers precedes every return; nothing left normally
	}
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		x.endG(g)
		return
	}
	c := g.frames[len(g.frames)-1]
	if f.isDefer {
		if c.unwinding {
			x.continueUnwind()
		}
		return
	}
	if f.retTo != nil {
		switch len(vals) {
		case 0:
			x.set(c, f.retTo, Tuple{})
		case 1:
			x.set(c, f.retTo, vals[0])
		default:
			x.set(c, f.retTo, Tuple(vals))
		}
	}
}

func (x *exec) endG(g *G) {
	g.status = 2
	if g.id == 0 {
		panic(pathEnd{"done", ""})
	}
	x.schedule()
}

// schedule picks the next runnable goroutine.
func (x *exec) schedule() {
	n := len(x.s.gs)
	for i := 1; i <= n; i++ {
		j := (x.s.cur + i) % n
		if x.s.gs[j].status == 0 {
			x.s.cur = j
			return
		}
	}
	// wake goroutines whose condition may have changed is done by the sync ops themselves
	x.report("deadlock", "all goroutines are blocked")
	panic(pathEnd{"violation", "deadlock"})
}

// startPanic begins unwinding with value v.
func (x *exec) startPanic(v Value) {
	g := x.g()
	g.panics = append(g.panics, v)
	g.recov = false
	x.frame().unwinding = true
	x.continueUnwind()
}

func (x *exec) continueUnwind() {
	g := x.g()
	for {
		f := g.frames[len(g.frames)-1]
		if g.recov {
			// recovered by a deferred call of f
			g.recov = false
			f.unwinding = false
			if len(f.defers) > 0 {
				// run the remaining defers, then return through the recover block
				f.block = f.fi.fn.Recover
				f.pc = 0
			}
			if f.fi.fn.Recover != nil {
				f.prev = nil
				f.block = f.fi.fn.Recover
				f.pc = 0
				return
			}
			res := f.fi.fn.Signature.Results()
			vals := make([]Value, res.Len())
			for i := range vals {
				vals[i] = zeroVal(res.At(i).Type())
			}
			x.doReturn(vals)
			return
		}
		f.unwinding = true
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			x.invokeDeferred(f, d)
			return
		}
		if len(g.frames) == 1 {
			x.report("panic", x.panicText(g.panics[len(g.panics)-1]))
			panic(pathEnd{"violation", "panic"})
		}
		isDefer := f.isDefer
		g.frames = g.frames[:len(g.frames)-1]
		if isDefer {
			// a deferred call itself panicked: the new panic replaces the old one
		}
	}
}

func (x *exec) invokeDeferred(f *Frame, d deferred) {
	fn := d.fn.(Fn)
	if fn.fn == nil && fn.bi != "" {
		x.builtin(f, fn.bi, nil, d.args)
		if f.unwinding {
			x.continueUnwind()
		}
		return
	}
	if fn.fn == nil {
		panic(x.goPanicMsg("nil deferred function"))
	}
	if h := intrinsics[x.e.fnName(fn.fn)]; h != nil {
		pc := f.pc
		_, done := h(x, f, d.args, fn)
		if !done {
			panic(unsupported("blocking intrinsic in defer"))
		}
		f.pc = pc
		if f.unwinding {
			x.continueUnwind()
		}
		return
	}
	nf := x.pushFrame(x.g(), fn.fn, d.args, fn.env, nil)
	nf.isDefer = true
}

func (x *exec) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "panic(nil)"
		}
		switch p := i.v.(type) {
		case Str:
			if p.b == nil {
				return "panic: " + p.s
			}
		case Ptr:
			if p.obj != 0 {
				o := x.s.heap.get(p.obj)
				if len(o.slots) > 0 {
					if s, ok := o.slots[0].(Str); ok && s.b == nil {
						return s.s
					}
				}
			}
		}
		return "panic of type " + i.t.String()
	}
	return "panic"
}

func (x *exec) posString() string {
	// innermost position in code under test
	g := x.g()
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		if f.pc < len(f.block.Instrs) {
			for k := f.pc; k >= 0; k-- {
				p := x.e.prog.Fset.Position(f.block.Instrs[k].Pos())
				if p.IsValid() {
					return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, f.fi.fn.String())
				}
			}
		}
	}
	return "?"
}

func (x *exec) report(kind, msg string) {
	x.ensureModel()
	x.e.addViolation(&Violation{Harness: x.e.harness, Kind: kind, Msg: msg, Pos: x.posString(), Model: x.s.model, Vars: x.s.vars, Reach: x.s.reach})
}

// ---- main loop ----

// run executes the state until its path ends.
func (x *exec) run() (end pathEnd) {
	for {
		if e, stop := x.burst(); stop {
			return e
		}
	}
}

// burst executes instructions; Go panics raised by instructions unwind here.
func (x *exec) burst() (end pathEnd, stop bool) {
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case pathEnd:
				end, stop = p, true
			case goPanic:
				func() {
					defer func() {
						if r2 := recover(); r2 != nil {
							switch q := r2.(type) {
							case pathEnd:
								end, stop = q, true
							case unsupportedErr:
								end, stop = pathEnd{"inconclusive", "unsupported: " + q.msg}, true
							case goPanic:
								end, stop = pathEnd{"inconclusive", "panic while unwinding"}, true
							default:
								panic(r2)
							}
						}
					}()
					x.startPanic(p.v)
				}()
			case unsupportedErr:
				end, stop = pathEnd{"inconclusive", "unsupported: " + p.msg + " at " + x.posString()}, true
			default:
				fmt.Fprintln(os.Stderr, "internal error at", x.posString())
				panic(r)
			}
		}
	}()
	for {
		x.s.steps++
		if x.s.steps&0x3ff == 0 {
			if x.s.steps > x.e.maxSteps {
				return pathEnd{"inconclusive", "step limit (possible unbounded loop) at " + x.posString()}, true
			}
			if x.e.expired() {
				return pathEnd{"inconclusive", "time budget"}, true
			}
		}
		f := x.frame()
		x.step(f, f.block.Instrs[f.pc])
	}
}

func (x *exec) jump(f *Frame, to *ssa.BasicBlock) {
	f.prev = f.block
	f.block = to
	f.pc = 0
	// evaluate phis simultaneously
	var vals []Value
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == f.prev {
				vals = append(vals, x.get(f, phi.Edges[i]))
				break
			}
		}
		n++
	}
	for i := 0; i < n; i++ {
		x.set(f, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.pc = n
}

func (x *exec) step(f *Frame, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.If:
		c := x.term(f, i.Cond)
		if !c.isC() && x.e.mergeOn(x.s) {
			if _, ok := x.s.lookup(c); !ok {
				if rg := f.fi.merge[f.block]; rg != nil && x.tryRegion(f, rg, c) {
					return
				}
			}
		}
		if x.decide(c) {
			x.jump(f, f.block.Succs[0])
		} else {
			x.jump(f, f.block.Succs[1])
		}
	case *ssa.Jump:
		x.jump(f, f.block.Succs[0])
	case *ssa.Return:
		vals := make([]Value, len(i.Results))
		for k, r := range i.Results {
			vals[k] = x.get(f, r)
		}
		x.doReturn(vals)
	case *ssa.Call:
		x.doCall(f, i)
	case *ssa.Defer:
		fv, args := x.resolve(f, &i.Call)
		f.defers = append(f.defers, deferred{fn: fv, args: args})
		f.pc++
	case *ssa.Go:
		fv, args := x.resolve(f, &i.Call)
		x.spawn(fv.(Fn), args)
		f.pc++
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		x.invokeDeferred(f, d)
	case *ssa.Panic:
		v := x.get(f, i.X)
		panic(goPanic{v})
	case *ssa.Store:
		x.store(x.get(f, i.Addr).(Ptr), i.Val.Type(), x.get(f, i.Val))
		f.pc++
	case *ssa.MapUpdate:
		m := x.get(f, i.Map).(MapV)
		x.mapSet(m, x.get(f, i.Key), x.get(f, i.Value))
		f.pc++
	case *ssa.Send:
		x.chanSend(f, x.get(f, i.Chan).(ChanV), x.get(f, i.X))
	case *ssa.DebugRef:
		f.pc++
	case ssa.Value:
		v := x.eval(f, i)
		if v == nil {
			return // blocked; re-execute
		}
		x.set(f, i, v)
		f.pc++
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (x *exec) spawn(fn Fn, args []Value) {
	s := x.s
	parent := x.g()
	id := len(s.gs)
	clk := make([]int, id+1)
	copy(clk, parent.clk)
	clk[id] = 1
	ng := &G{id: id, clk: clk}
	parent.clk[parent.id]++
	s.gs = append(s.gs, ng)
	s.ngo++
	if x.e.raceDetect {
		s.raceOn = true
	}
	if fn.fn == nil {
		panic(x.goPanicMsg("go of nil func"))
	}
	if intrinsics[x.e.fnName(fn.fn)] != nil {
		panic(unsupported("go of intrinsic " + fn.fn.String()))
	}
	x.pushFrame(ng, fn.fn, args, fn.env, nil)
}

// eval computes the value of a value-producing instruction.
func (x *exec) eval(f *Frame, in ssa.Value) Value {
	switch i := in.(type) {
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		if x.noFork {
			panic(bail{})
		}
		return Ptr{obj: x.alloc(t, 1, i.Comment+" ("+t.String()+")")}
	case *ssa.BinOp:
		return x.binop(i.Op, i.X.Type(), x.get(f, i.X), x.get(f, i.Y), i.Y.Type())
	case *ssa.UnOp:
		return x.unop(f, i)
	case *ssa.ChangeInterface:
		return x.get(f, i.X)
	case *ssa.ChangeType:
		return x.get(f, i.X)
	case *ssa.Convert:
		return x.convert(i.X.Type(), i.Type(), x.get(f, i.X))
	case *ssa.Extract:
		return x.get(f, i.Tuple).(Tuple)[i.Index]
	case *ssa.Field:
		st := i.X.Type().Underlying().(*types.Struct)
		a := x.get(f, i.X).(Agg)
		o := fieldOff(st, i.Field)
		ft := st.Field(i.Field).Type()
		if isAgg(ft) {
			return Agg(a[o : o+sizeOf(ft) : o+sizeOf(ft)])
		}
		return a[o]
	case *ssa.FieldAddr:
		p := x.get(f, i.X).(Ptr)
		if p.obj == 0 {
			panic(x.goPanicMsg("invalid memory address or nil pointer dereference"))
		}
		st := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p.off += fieldOff(st, i.Field)
		return p
	case *ssa.Index:
		return x.index(f, i)
	case *ssa.IndexAddr:
		return x.indexAddr(f, i)
	case *ssa.Lookup:
		return x.mapLookup(f, i)
	case *ssa.MakeInterface:
		return Iface{t: i.X.Type(), v: x.get(f, i.X)}
	case *ssa.MakeClosure:
		env := make([]Value, len(i.Bindings))
		for k, b := range i.Bindings {
			env[k] = x.get(f, b)
		}
		return Fn{fn: i.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		if x.noFork {
			panic(bail{})
		}
		return MapV{x.s.heap.add(&Object{owner: x.s.owner, isMap: true, label: "map"}, x.s.owner)}
	case *ssa.MakeChan:
		n := x.cint(x.asInt(x.get(f, i.Size), i.Size.Type()))
		return ChanV{x.s.heap.add(&Object{owner: x.s.owner, isChan: true, capn: n, label: "chan"}, x.s.owner)}
	case *ssa.MakeSlice:
		return x.makeSlice(f, i)
	case *ssa.Slice:
		return x.slice(f, i)
	case *ssa.SliceToArrayPointer:
		s := x.get(f, i.X).(Slice)
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !x.decide(ULe(C(uint64(n), 64), s.len)) {
			panic(x.goPanicMsg("cannot convert slice to array pointer: length too short"))
		}
		return Ptr{obj: s.obj, off: s.off}
	case *ssa.TypeAssert:
		return x.typeAssert(f, i)
	case *ssa.Range:
		return x.rangeStart(f, i)
	case *ssa.Next:
		return x.rangeNext(f, i)
	case *ssa.Select:
		return x.doSelect(f, i)
	case *ssa.MultiConvert:
		return x.convert(i.X.Type(), i.Type(), x.get(f, i.X))
	}
	panic(unsupported(fmt.Sprintf("instruction %T", in)))
}

// asInt widens an integer value to 64 bits according to its type.
func (x *exec) asInt(v Value, t types.Type) *Term {
	tm := v.(*Term)
	_, sg, _ := basicSort(t.Underlying().(*types.Basic))
	if sg {
		return SExt(tm, 64)
	}
	return ZExt(tm, 64)
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	_, sg, _ := basicSort(b)
	return sg
}

func (x *exec) unop(f *Frame, i *ssa.UnOp) Value {
	v := x.get(f, i.X)
	switch i.Op {
	case token.MUL:
		return x.load(v.(Ptr), i.Type())
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.sort.K == KFP {
			return FUn(OFNeg, t, 0)
		}
		return Neg(t)
	case token.XOR:
		return BVNot(v.(*Term))
	case token.ARROW:
		return x.chanRecv(f, v.(ChanV), i)
	}
	panic(unsupported("unop " + i.Op.String()))
}

func (x *exec) binop(op token.Token, t types.Type, a, b Value, bt types.Type) Value {
	switch op {
	case token.EQL:
		return x.equal(a, b)
	case token.NEQ:
		return Not(x.equal(a, b))
	}
	if s, ok := a.(Str); ok {
		return x.strop(op, s, b.(Str))
	}
	p, q := a.(*Term), b.(*Term)
	if p.sort.K == KFP {
		switch op {
		case token.ADD:
			return FBin(OFAdd, p, q)
		case token.SUB:
			return FBin(OFSub, p, q)
		case token.MUL:
			return FBin(OFMul, p, q)
		case token.QUO:
			return FBin(OFDiv, p, q)
		case token.LSS:
			return FCmp(OFLt, p, q)
		case token.LEQ:
			return FCmp(OFLe, p, q)
		case token.GTR:
			return FCmp(OFLt, q, p)
		case token.GEQ:
			return FCmp(OFLe, q, p)
		}
		panic(unsupported("float op " + op.String()))
	}
	if p.sort.K == KBool {
		switch op {
		case token.AND:
			return And(p, q)
		case token.OR:
			return Or(p, q)
		case token.XOR:
			return Not(Eq(p, q))
		}
	}
	sg := isSigned(t)
	switch op {
	case token.ADD:
		return BVBin(OAdd, p, q)
	case token.SUB:
		return BVBin(OSub, p, q)
	case token.MUL:
		return BVBin(OMul, p, q)
	case token.QUO, token.REM:
		if !x.decide(Not(Eq(q, C(0, int(q.sort.W))))) {
			panic(x.goPanicMsg("integer divide by zero"))
		}
		if p.isC() && p.val == 0 {
			return p
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if sg {
			o++ // OSDiv / OSRem follow
			if op == token.QUO {
				o = OSDiv
			} else {
				o = OSRem
			}
		}
		return BVBin(o, p, q)
	case token.AND:
		return BVBin(OBAnd, p, q)
	case token.OR:
		return BVBin(OBOr, p, q)
	case token.XOR:
		return BVBin(OBXor, p, q)
	case token.AND_NOT:
		return BVBin(OBAnd, p, BVNot(q))
	case token.SHL, token.SHR:
		if isSigned(bt) {
			if !x.decide(Not(SLt(q, C(0, int(q.sort.W))))) {
				panic(x.goPanicMsg("negative shift amount"))
			}
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if sg {
				o = OAShr
			}
		}
		return shift(o, p, q)
	case token.LSS:
		if sg {
			return SLt(p, q)
		}
		return ULt(p, q)
	case token.LEQ:
		if sg {
			return SLe(p, q)
		}
		return ULe(p, q)
	case token.GTR:
		if sg {
			return SLt(q, p)
		}
		return ULt(q, p)
	case token.GEQ:
		if sg {
			return SLe(q, p)
		}
		return ULe(q, p)
	}
	panic(unsupported("binop " + op.String()))
}

func shift(o Op, p, q *Term) *Term {
	w, qw := p.sort.W, q.sort.W
	if qw == w {
		return BVBin(o, p, q)
	}
	if qw < w {
		return BVBin(o, p, ZExt(q, int(w)))
	}
	if q.hi < uint64(1)<<w && w < 64 || q.isC() && q.val <= mask(w) {
		return BVBin(o, p, Extract(q, int(w)-1, 0))
	}
	big := Not(ULt(q, C(uint64(w), int(qw))))
	var over *Term
	if o == OAShr {
		over = BVBin(OAShr, p, C(uint64(w)-1, int(w)))
	} else {
		over = C(0, int(w))
	}
	return Ite(big, over, BVBin(o, p, Extract(q, int(w)-1, 0)))
}

func (x *exec) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return tFalse
	}
	if a.b == nil && b.b == nil {
		return CB(a.s == b.s)
	}
	r := tTrue
	for i := 0; i < a.Len(); i++ {
		r = And(r, Eq(a.At(i), b.At(i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (x *exec) strop(op token.Token, a, b Str) Value {
	switch op {
	case token.ADD:
		if a.b == nil && b.b == nil {
			return Str{s: a.s + b.s}
		}
		t := make([]*Term, 0, a.Len()+b.Len())
		for i := 0; i < a.Len(); i++ {
			t = append(t, a.At(i))
		}
		for i := 0; i < b.Len(); i++ {
			t = append(t, b.At(i))
		}
		return mkStr(t)
	}
	if a.b == nil && b.b == nil {
		switch op {
		case token.LSS:
			return CB(a.s < b.s)
		case token.LEQ:
			return CB(a.s <= b.s)
		case token.GTR:
			return CB(a.s > b.s)
		case token.GEQ:
			return CB(a.s >= b.s)
		}
	}
	// lexicographic on symbolic bytes
	lt, eq := tFalse, tTrue
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	for i := 0; i < n; i++ {
		lt = Or(lt, And(eq, ULt(a.At(i), b.At(i))))
		eq = And(eq, Eq(a.At(i), b.At(i)))
	}
	if a.Len() < b.Len() {
		lt = Or(lt, eq)
	}
	full := eq
	if a.Len() != b.Len() {
		full = tFalse
	}
	switch op {
	case token.LSS:
		return lt
	case token.LEQ:
		return Or(lt, full)
	case token.GTR:
		return Not(Or(lt, full))
	case token.GEQ:
		return Not(lt)
	}
	panic(unsupported("string op"))
}

func (x *exec) equal(a, b Value) *Term {
	switch p := a.(type) {
	case *Term:
		q := b.(*Term)
		if p.sort.K == KFP {
			return FCmp(OFEq, p, q)
		}
		return Eq(p, q)
	case Str:
		return x.strEq(p, b.(Str))
	case Ptr:
		q := b.(Ptr)
		if p.obj != q.obj {
			return tFalse
		}
		if p.sym == nil && q.sym == nil {
			return CB(p.off == q.off)
		}
		p, q = x.concPtr(p), x.concPtr(q)
		return CB(p == q)
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			panic(unsupported("iface compare"))
		}
		if p.t == nil || q.t == nil {
			return CB(p.t == nil && q.t == nil)
		}
		if !types.Identical(p.t, q.t) {
			return tFalse
		}
		if !types.Comparable(p.t) {
			panic(x.goPanicMsg("comparing uncomparable type " + p.t.String()))
		}
		return x.equal(p.v, q.v)
	case Agg:
		q := b.(Agg)
		r := tTrue
		for i := range p {
			r = And(r, x.equal(p[i], q[i]))
		}
		return r
	case Slice:
		q := b.(Slice) // one of them nil
		return CB(p.obj == 0 && q.obj == 0)
	case MapV:
		return CB(p == b.(MapV))
	case ChanV:
		return CB(p == b.(ChanV))
	case Fn:
		q := b.(Fn)
		return CB(p.fn == nil && p.bi == "" && q.fn == nil && q.bi == "")
	}
	panic(unsupported(fmt.Sprintf("compare %T", a)))
}

func (x *exec) convert(from, to types.Type, v Value) Value {
	ft, tt := from.Underlying(), to.Underlying()
	if tb, ok := tt.(*types.Basic); ok {
		if fb, ok := ft.(*types.Basic); ok {
			if tb.Info()&types.IsString != 0 {
				if fb.Info()&types.IsString != 0 {
					return v
				}
				// integer to string
				return mkStr(x.encodeRune(nil, x.asRune(v.(*Term), fb)))
			}
			if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
				panic(unsupported("unsafe pointer conversion"))
			}
			return x.convNum(v.(*Term), fb, tb)
		}
		if tb.Info()&types.IsString != 0 {
			s, ok := v.(Slice)
			if !ok {
				panic(unsupported("convert to string"))
			}
			et := ft.(*types.Slice).Elem().Underlying().(*types.Basic)
			els := x.sliceTerms(s)
			if et.Kind() == types.Uint8 {
				return mkStr(els)
			}
			var out []*Term
			for _, r := range els {
				out = x.encodeRune(out, r)
			}
			return mkStr(out)
		}
	}
	if ts, ok := tt.(*types.Slice); ok {
		if s, ok := v.(Str); ok {
			eb := ts.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				sl := make([]Value, s.Len())
				for i := range sl {
					sl[i] = s.At(i)
				}
				id := x.allocSlots(sl, "[]byte(string)")
				n := C(uint64(len(sl)), 64)
				return Slice{obj: id, len: n, cap: n, es: 1}
			}
			if s.b != nil {
				panic(unsupported("[]rune of symbolic string"))
			}
			var sl []Value
			for _, r := range s.s {
				sl = append(sl, C(uint64(r), 32))
			}
			id := x.allocSlots(sl, "[]rune(string)")
			n := C(uint64(len(sl)), 64)
			return Slice{obj: id, len: n, cap: n, es: 1}
		}
		return v
	}
	if _, ok := tt.(*types.Pointer); ok {
		if _, ok := ft.(*types.Basic); ok {
			panic(unsupported("unsafe pointer conversion"))
		}
		return v
	}
	if isAgg(to) && isAgg(from) {
		return v
	}
	if b, ok := tt.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		panic(unsupported("unsafe pointer conversion"))
	}
	if types.Identical(ft, tt) {
		return v
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

func (x *exec) asRune(t *Term, fb *types.Basic) *Term {
	if t.sort.W < 32 {
		if isSigned(fb) {
			return SExt(t, 32)
		}
		return ZExt(t, 32)
	}
	if t.sort.W > 32 {
		if t.isC() {
			v := signed(t.val, t.sort.W)
			if v < 0 || v > 0x10ffff {
				return C(0xfffd, 32)
			}
		} else {
			panic(unsupported("wide int to string"))
		}
		return Extract(t, 31, 0)
	}
	return t
}

func (x *exec) encodeRune(out []*Term, r *Term) []*Term {
	b := func(v *Term) *Term { return Extract(v, 7, 0) }
	sh := func(n uint64) *Term { return BVBin(OLShr, r, C(n, 32)) }
	or := func(v *Term, c uint64) *Term { return BVBin(OBOr, b(v), C(c, 8)) }
	lo := func(v *Term) *Term { return or(BVBin(OBAnd, v, C(0x3f, 32)), 0x80) }
	if x.decide(ULt(r, C(0x80, 32))) {
		return append(out, b(r))
	}
	if x.decide(ULt(r, C(0x800, 32))) {
		return append(out, or(sh(6), 0xc0), lo(r))
	}
	bad := Or(Not(ULt(r, C(0x110000, 32))), And(ULe(C(0xd800, 32), r), ULe(r, C(0xdfff, 32))))
	if x.decide(bad) {
		return append(out, C(0xef, 8), C(0xbf, 8), C(0xbd, 8))
	}
	if x.decide(ULt(r, C(0x10000, 32))) {
		return append(out, or(sh(12), 0xe0), lo(sh(6)), lo(r))
	}
	return append(out, or(sh(18), 0xf0), lo(sh(12)), lo(sh(6)), lo(r))
}

func (x *exec) convNum(t *Term, fb, tb *types.Basic) Value {
	fs, fsg, ok1 := basicSort(fb)
	ts, tsg, ok2 := basicSort(tb)
	if !ok1 || !ok2 {
		panic(unsupported("numeric conversion " + fb.String() + "->" + tb.String()))
	}
	switch {
	case fs.K == KBV && ts.K == KBV:
		if ts.W <= fs.W {
			return Extract(t, int(ts.W)-1, 0)
		}
		if fsg {
			return SExt(t, int(ts.W))
		}
		return ZExt(t, int(ts.W))
	case fs.K == KBV && ts.K == KFP:
		return IntToF(t, fsg, ts)
	case fs.K == KFP && ts.K == KFP:
		return FToFP(t, ts)
	case fs.K == KFP && ts.K == KBV:
		switch {
		case tsg && ts.W == 64:
			return FToInt(t, 64)
		case tsg && ts.W == 32:
			return FToInt(t, 32)
		case ts.W == 64: // uint64
			lim := CF(fbits(math.Ldexp(1, 63), t.sort.W), t.sort)
			return Ite(FCmp(OFLt, t, lim), FToInt(t, 64),
				BVBin(OBXor, FToInt(FBin(OFSub, t, lim), 64), C(1<<63, 64)))
		case ts.W == 32: // uint32
			return Extract(FToInt(t, 64), 31, 0)
		default:
			return Extract(FToInt(t, 32), int(ts.W)-1, 0)
		}
	}
	if fs == ts {
		return t
	}
	panic(unsupported("numeric conversion"))
}

// ---- slices, arrays, strings ----

func (x *exec) boundsCheck(idx, n *Term) {
	if !x.decide(ULt(idx, n)) {
		panic(x.goPanicMsg("index out of range"))
	}
}

func (x *exec) index(f *Frame, i *ssa.Index) Value {
	idx := x.asInt(x.get(f, i.Index), i.Index.Type())
	switch b := x.get(f, i.X).(type) {
	case Str:
		x.boundsCheck(idx, C(uint64(b.Len()), 64))
		if idx.isC() {
			return b.At(int(idx.val))
		}
		if b.Len() <= x.e.maxIte {
			v := b.At(b.Len() - 1)
			for k := b.Len() - 2; k >= 0; k-- {
				v = Ite(Eq(idx, C(uint64(k), 64)), b.At(k), v)
			}
			return v
		}
		return b.At(x.cint(idx))
	case Agg:
		at := i.X.Type().Underlying().(*types.Array)
		n := int(at.Len())
		es := sizeOf(at.Elem())
		x.boundsCheck(idx, C(uint64(n), 64))
		pick := func(k int) Value {
			if isAgg(at.Elem()) {
				return Agg(b[k*es : (k+1)*es : (k+1)*es])
			}
			return b[k]
		}
		if !idx.isC() && n <= x.e.maxIte {
			v := pick(n - 1)
			ok := true
			for k := n - 2; k >= 0 && ok; k-- {
				v, ok = iteVal(Eq(idx, C(uint64(k), 64)), pick(k), v)
			}
			if ok {
				return v
			}
		}
		return pick(x.cint(idx))
	}
	panic(unsupported("index"))
}

func (x *exec) indexAddr(f *Frame, i *ssa.IndexAddr) Value {
	idx := x.asInt(x.get(f, i.Index), i.Index.Type())
	switch b := x.get(f, i.X).(type) {
	case Slice:
		x.boundsCheck(idx, b.len)
		if idx.isC() {
			return Ptr{obj: b.obj, off: b.off + int(idx.val)*b.es}
		}
		// "concindex" explores each index of slices of up to that length separately
		if !b.len.isC() || b.len.val <= uint64(x.s.opts["concindex"]) {
			return Ptr{obj: b.obj, off: b.off + x.cint(idx)*b.es}
		}
		return x.symPtr(Ptr{obj: b.obj, off: b.off}, idx, b.es, int(b.len.val))
	case Ptr:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if b.obj == 0 {
			panic(x.goPanicMsg("invalid memory address or nil pointer dereference"))
		}
		x.boundsCheck(idx, C(uint64(at.Len()), 64))
		es := sizeOf(at.Elem())
		if idx.isC() {
			b.off += int(idx.val) * es
			return b
		}
		if b.sym != nil {
			b = x.concPtr(b)
		}
		return x.symPtr(b, idx, es, int(at.Len()))
	}
	panic(unsupported("indexaddr"))
}

// symPtr narrows a symbolic index using its static bounds.
func (x *exec) symPtr(p Ptr, idx *Term, es, n int) Ptr {
	lo, hi := 0, n
	if idx.hi < uint64(n) {
		hi = int(idx.hi) + 1
	}
	if idx.lo > 0 && idx.lo < uint64(n) {
		lo = int(idx.lo)
	}
	p.off += lo * es
	if lo > 0 {
		idx = BVBin(OSub, idx, C(uint64(lo), 64))
	}
	p.sym, p.scale, p.n = idx, es, hi-lo
	return p
}

const maxAlloc = 1 << 47

func (x *exec) makeSlice(f *Frame, i *ssa.MakeSlice) Value {
	if x.noFork {
		panic(bail{})
	}
	et := i.Type().Underlying().(*types.Slice).Elem()
	ln := x.asInt(x.get(f, i.Len), i.Len.Type())
	cp := x.asInt(x.get(f, i.Cap), i.Cap.Type())
	return x.mkslice(et, ln, cp, i.Len != i.Cap, fmt.Sprintf("make([]%s)", et))
}

func goSize(t types.Type) int64 { return stdSizes.Sizeof(t) }

var stdSizes = types.SizesFor("gc", "amd64")

func (x *exec) mkslice(et types.Type, ln, cp *Term, diff bool, label string) Value {
	bsz := uint64(goSize(et))
	lim := uint64(maxAlloc)
	if bsz > 0 {
		lim = maxAlloc/bsz + 1
	}
	if !x.decide(ULt(ln, C(lim, 64))) {
		panic(x.goPanicMsg("makeslice: len out of range"))
	}
	if diff {
		if !x.decide(And(ULt(cp, C(lim, 64)), ULe(ln, cp))) {
			panic(x.goPanicMsg("makeslice: cap out of range"))
		}
	} else {
		cp = ln
	}
	es := sizeOf(et)
	maxDense := x.s.opts["maxmake"]
	if maxDense == 0 {
		maxDense = 64
	}
	if cp.isC() && (cp.val*uint64(es) <= 1<<20) {
		if !ln.isC() {
			ln = C(uint64(x.cint(ln)), 64)
		}
		id := x.alloc(et, int(cp.val), label)
		return Slice{obj: id, len: ln, cap: cp, es: es}
	}
	if !cp.isC() && x.decide(ULe(cp, C(uint64(maxDense), 64))) {
		n := x.cint(cp)
		l := n
		if diff {
			l = x.cint(ln)
		}
		id := x.alloc(et, n, label)
		return Slice{obj: id, len: C(uint64(l), 64), cap: C(uint64(n), 64), es: es}
	}
	// large: sparse object
	zero := zeroSlots(et, nil)
	o := &Object{owner: x.s.owner, sparse: true, slen: cp, zero: zero, sp: map[int]Value{}, label: label + " (large)", typ: et}
	id := x.s.heap.add(o, x.s.owner)
	x.e.noteLarge()
	return Slice{obj: id, len: ln, cap: cp, es: es}
}

func (x *exec) slice(f *Frame, i *ssa.Slice) Value {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.asInt(x.get(f, v), v.Type())
	}
	zero := C(0, 64)
	switch b := x.get(f, i.X).(type) {
	case Str:
		n := C(uint64(b.Len()), 64)
		lo, hi := opt(i.Low, zero), opt(i.High, n)
		if !x.decide(And(ULe(lo, hi), ULe(hi, n))) {
			panic(x.goPanicMsg("slice bounds out of range"))
		}
		return b.Sub(x.cint(lo), x.cint(hi))
	case Slice:
		lo, hi := opt(i.Low, zero), opt(i.High, b.len)
		mx := opt(i.Max, b.cap)
		return x.reslice(b, lo, hi, mx, i.Max != nil)
	case Ptr:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if b.obj == 0 {
			panic(x.goPanicMsg("invalid memory address or nil pointer dereference"))
		}
		b = x.concPtr(b)
		n := C(uint64(at.Len()), 64)
		s := Slice{obj: b.obj, off: b.off, len: n, cap: n, es: sizeOf(at.Elem())}
		return x.reslice(s, opt(i.Low, zero), opt(i.High, n), opt(i.Max, n), i.Max != nil)
	}
	panic(unsupported("slice"))
}

func (x *exec) reslice(b Slice, lo, hi, mx *Term, hasMax bool) Value {
	ok := And(ULe(lo, hi), ULe(hi, mx))
	if hasMax {
		ok = And(ok, ULe(mx, b.cap))
	}
	if !x.decide(ok) {
		panic(x.goPanicMsg("slice bounds out of range"))
	}
	if b.obj == 0 {
		return b
	}
	l := x.cint(lo)
	r := Slice{obj: b.obj, off: b.off + l*b.es, es: b.es}
	if b.cap.isC() {
		m := x.cint(mx)
		if !hi.isC() {
			r.len, r.cap = BVBin(OSub, hi, C(uint64(l), 64)), C(uint64(m-l), 64)
			return r
		}
		h := x.cint(hi)
		r.len, r.cap = C(uint64(h-l), 64), C(uint64(m-l), 64)
		return r
	}
	r.len = BVBin(OSub, hi, C(uint64(l), 64))
	r.cap = BVBin(OSub, mx, C(uint64(l), 64))
	return r
}

// sliceTerms returns the scalar elements of a slice with concrete length.
func (x *exec) sliceTerms(s Slice) []*Term {
	n := x.cint(s.len)
	if n == 0 {
		return nil
	}
	o := x.s.heap.get(s.obj)
	x.logAccess(s.obj, s.off, n*s.es, false)
	o = x.s.heap.get(s.obj)
	out := make([]*Term, n)
	for i := range out {
		if o.sparse {
			out[i] = o.spGet(s.off + i).(*Term)
		} else {
			out[i] = o.slots[s.off+i].(*Term)
		}
	}
	return out
}

func (x *exec) copySlots(dst, src Slice, n int) {
	if n == 0 {
		return
	}
	so := x.s.heap.get(src.obj)
	cnt := n * src.es
	tmp := make([]Value, cnt)
	for i := range tmp {
		if so.sparse {
			tmp[i] = so.spGet(src.off + i)
		} else {
			tmp[i] = so.slots[src.off+i]
		}
	}
	x.logAccess(src.obj, src.off, cnt, false)
	x.writeSlots(dst, tmp)
}

func (x *exec) writeSlots(dst Slice, tmp []Value) {
	if len(tmp) == 0 {
		return
	}
	x.logAccess(dst.obj, dst.off, len(tmp), true)
	do := x.s.heap.mut(dst.obj, x.s.owner)
	for i, v := range tmp {
		if do.sparse {
			do.sp[dst.off+i] = v
		} else {
			do.slots[dst.off+i] = v
		}
	}
}

func umin(a, b *Term) *Term {
	if a == b {
		return a
	}
	return Ite(ULt(a, b), a, b)
}

func (x *exec) builtin(f *Frame, name string, c *ssa.CallCommon, args []Value) Value {
	if x.noFork {
		switch name {
		case "len", "cap", "min", "max":
		default:
			panic(bail{})
		}
	}
	switch name {
	case "len":
		switch v := args[0].(type) {
		case Str:
			return C(uint64(v.Len()), 64)
		case Slice:
			return v.len
		case MapV:
			if v.obj == 0 {
				return C(0, 64)
			}
			return C(uint64(len(x.s.heap.get(v.obj).keys)), 64)
		case ChanV:
			if v.obj == 0 {
				return C(0, 64)
			}
			return C(uint64(len(x.s.heap.get(v.obj).queue)), 64)
		case Ptr:
			at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return C(uint64(at.Len()), 64)
		case Agg:
			at := c.Args[0].Type().Underlying().(*types.Array)
			return C(uint64(at.Len()), 64)
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return v.cap
		case ChanV:
			return C(uint64(x.s.heap.get(v.obj).capn), 64)
		}
	case "copy":
		dst := args[0].(Slice)
		if s, ok := args[1].(Str); ok {
			n := x.cint(umin(dst.len, C(uint64(s.Len()), 64)))
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = s.At(i)
			}
			x.writeSlots(dst, tmp)
			return C(uint64(n), 64)
		}
		src := args[1].(Slice)
		n := x.cint(umin(dst.len, src.len))
		x.copySlots(dst, src, n)
		return C(uint64(n), 64)
	case "append":
		s := args[0].(Slice)
		var add []Value
		es := s.es
		if a, ok := args[1].(Str); ok {
			for i := 0; i < a.Len(); i++ {
				add = append(add, a.At(i))
			}
		} else {
			a := args[1].(Slice)
			es = a.es
			n := x.cint(a.len)
			if n > 0 {
				x.logAccess(a.obj, a.off, n*es, false)
				o := x.s.heap.get(a.obj)
				for i := 0; i < n*es; i++ {
					if o.sparse {
						add = append(add, o.spGet(a.off+i))
					} else {
						add = append(add, o.slots[a.off+i])
					}
				}
			}
		}
		ln, cp := x.cint(s.len), x.cint(s.cap)
		k := len(add)
		if es > 0 {
			k /= es
		}
		if k == 0 {
			return s
		}
		if ln+k <= cp {
			x.writeSlots(Slice{obj: s.obj, off: s.off + ln*es, es: es}, add)
			s.len = C(uint64(ln+k), 64)
			return s
		}
		nc := 2 * cp
		if nc < ln+k {
			nc = ln + k
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		id := x.alloc(et, nc, "append")
		ns := Slice{obj: id, len: C(uint64(ln+k), 64), cap: C(uint64(nc), 64), es: es}
		if ln > 0 {
			x.copySlots(ns, s, ln)
		}
		x.writeSlots(Slice{obj: id, off: ln * es, es: es}, add)
		return ns
	case "delete":
		x.mapDelete(args[0].(MapV), args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case MapV:
			if v.obj != 0 {
				o := x.s.heap.mut(v.obj, x.s.owner)
				o.keys, o.vals = nil, nil
			}
			return nil
		case Slice:
			n := x.cint(v.len)
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			z := zeroSlots(et, nil)
			var tmp []Value
			for i := 0; i < n; i++ {
				tmp = append(tmp, z...)
			}
			x.writeSlots(v, tmp)
			return nil
		}
	case "print", "println":
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		g := x.g()
		// valid only when called by a deferred function during unwinding
		n := len(g.frames)
		if len(g.panics) > 0 && n >= 2 && g.frames[n-1].isDefer && g.frames[n-2].unwinding && !g.recov {
			v := g.panics[len(g.panics)-1]
			g.panics = g.panics[:len(g.panics)-1]
			g.recov = true
			return v
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if s, ok := r.(Str); ok {
				c := x.strop(token.LSS, a.(Str), s).(*Term)
				if name == "max" {
					c = x.strop(token.LSS, s, a.(Str)).(*Term)
				}
				if x.decide(c) {
					r = a
				}
				continue
			}
			p, q := r.(*Term), a.(*Term)
			if p.sort.K == KFP {
				panic(unsupported("float min/max"))
			}
			sg := isSigned(c.Args[0].Type())
			lt := func(a, b *Term) *Term {
				if sg {
					return SLt(a, b)
				}
				return ULt(a, b)
			}
			if name == "min" {
				r = Ite(lt(q, p), q, p)
			} else {
				r = Ite(lt(p, q), q, p)
			}
		}
		return r
	case "close":
		x.chanClose(args[0].(ChanV))
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if p.obj == 0 {
			panic(x.goPanicMsg("value method called using nil pointer"))
		}
		return p
	}
	panic(unsupported("builtin " + name))
}

// ---- interfaces ----

func (x *exec) typeAssert(f *Frame, i *ssa.TypeAssert) Value {
	v := x.get(f, i.X).(Iface)
	ok := false
	if v.t != nil {
		if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			ok = x.e.implements(v.t, it)
		} else {
			ok = types.Identical(v.t, i.AssertedType)
		}
	}
	var r Value
	if ok {
		if types.IsInterface(i.AssertedType) {
			r = v
		} else {
			r = v.v
		}
	} else {
		r = zeroVal(i.AssertedType)
	}
	if i.CommaOk {
		return Tuple{r, CB(ok)}
	}
	if !ok {
		panic(x.goPanicMsg("interface conversion failed: not " + i.AssertedType.String()))
	}
	return r
}

// ---- maps ----

func (x *exec) mapFind(o *Object, k Value) int {
	// resolve certain matches first so that later lookups do not fork needlessly
	for i := range o.keys {
		if x.equal(o.keys[i], k).isTrue() {
			return i
		}
	}
	for i := range o.keys {
		if x.decide(x.equal(o.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (x *exec) logMap(id int, write bool) {
	if x.s.raceOn {
		x.logAccess(id, 0, 1, write)
	}
}

func (x *exec) mapLookup(f *Frame, i *ssa.Lookup) Value {
	xv := x.get(f, i.X)
	if s, ok := xv.(Str); ok {
		idx := x.asInt(x.get(f, i.Index), i.Index.Type())
		x.boundsCheck(idx, C(uint64(s.Len()), 64))
		if !idx.isC() && s.Len() <= x.e.maxIte {
			v := s.At(s.Len() - 1)
			for k := s.Len() - 2; k >= 0; k-- {
				v = Ite(Eq(idx, C(uint64(k), 64)), s.At(k), v)
			}
			return v
		}
		return s.At(x.cint(idx))
	}
	m := xv.(MapV)
	mt := i.X.Type().Underlying().(*types.Map)
	var r Value
	ok := false
	if m.obj != 0 {
		x.logMap(m.obj, false)
		o := x.s.heap.get(m.obj)
		if k := x.mapFind(o, x.get(f, i.Index)); k >= 0 {
			r, ok = o.vals[k], true
		}
	}
	if !ok {
		r = zeroVal(mt.Elem())
	}
	if i.CommaOk {
		return Tuple{r, CB(ok)}
	}
	return r
}

func (x *exec) mapSet(m MapV, k, v Value) {
	if m.obj == 0 {
		panic(x.goPanicMsg("assignment to entry in nil map"))
	}
	if x.noFork {
		panic(bail{})
	}
	i := x.mapFind(x.s.heap.get(m.obj), k)
	x.logMap(m.obj, true)
	o := x.s.heap.mut(m.obj, x.s.owner)
	if i >= 0 {
		o.vals[i] = v
		return
	}
	o.keys = append(o.keys, k)
	o.vals = append(o.vals, v)
}

func (x *exec) mapDelete(m MapV, k Value) {
	if m.obj == 0 {
		return
	}
	i := x.mapFind(x.s.heap.get(m.obj), k)
	x.logMap(m.obj, true)
	if i < 0 {
		return
	}
	o := x.s.heap.mut(m.obj, x.s.owner)
	o.keys = append(o.keys[:i:i], o.keys[i+1:]...)
	o.vals = append(o.vals[:i:i], o.vals[i+1:]...)
}

func (x *exec) rangeStart(f *Frame, i *ssa.Range) Value {
	switch v := x.get(f, i.X).(type) {
	case MapV:
		it := MapIter{}
		if v.obj != 0 {
			x.logMap(v.obj, false)
			o := x.s.heap.get(v.obj)
			it.keys = append([]Value(nil), o.keys...)
			it.vals = append([]Value(nil), o.vals...)
			if x.s.opts["maporder"] == 1 { // reverse
				for a, b := 0, len(it.keys)-1; a < b; a, b = a+1, b-1 {
					it.keys[a], it.keys[b] = it.keys[b], it.keys[a]
					it.vals[a], it.vals[b] = it.vals[b], it.vals[a]
				}
			}
		}
		id := x.allocSlots([]Value{it, v}, "iter")
		return Ptr{obj: id}
	case Str:
		s := v
		id := x.allocSlots([]Value{MapIter{str: &s}, MapV{}}, "iter")
		return Ptr{obj: id}
	}
	panic(unsupported("range"))
}

func (x *exec) rangeNext(f *Frame, i *ssa.Next) Value {
	p := x.get(f, i.Iter).(Ptr)
	o := x.s.heap.get(p.obj)
	it := o.slots[0].(MapIter)
	tt := i.Type().(*types.Tuple)
	zero := func(k int) Value {
		t := tt.At(k).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return C(0, 64)
		}
		return zeroVal(t)
	}
	if it.str != nil {
		if it.str.b != nil {
			// only ASCII / concrete prefixes are supported symbolically
			if it.pos >= it.str.Len() {
				return Tuple{tFalse, zero(1), zero(2)}
			}
			c := it.str.At(it.pos)
			if !x.decide(ULt(c, C(0x80, 8))) {
				panic(unsupported("range over symbolic non-ASCII string"))
			}
			pos := it.pos
			it.pos++
			x.s.heap.mut(p.obj, x.s.owner).slots[0] = it
			return Tuple{tTrue, C(uint64(pos), 64), ZExt(c, 32)}
		}
		if it.pos >= len(it.str.s) {
			return Tuple{tFalse, zero(1), zero(2)}
		}
		pos := it.pos
		var r rune
		next := len(it.str.s)
		first := true
		for k, c := range it.str.s[pos:] {
			if first {
				r = c
				first = false
				continue
			}
			next = pos + k
			break
		}
		it.pos = next
		x.s.heap.mut(p.obj, x.s.owner).slots[0] = it
		return Tuple{tTrue, C(uint64(pos), 64), C(uint64(r), 32)}
	}
	m := o.slots[1].(MapV)
	for it.pos < len(it.keys) {
		k := it.keys[it.pos]
		// entry may have been deleted or changed meanwhile
		mo := x.s.heap.get(m.obj)
		idx := -1
		for j := range mo.keys {
			if x.equal(mo.keys[j], k).isTrue() {
				idx = j
			}
		}
		it.pos++
		if idx < 0 {
			continue
		}
		x.s.heap.mut(p.obj, x.s.owner).slots[0] = it
		return Tuple{tTrue, k, mo.vals[idx]}
	}
	x.s.heap.mut(p.obj, x.s.owner).slots[0] = it
	return Tuple{tFalse, zero(1), zero(2)}
}
