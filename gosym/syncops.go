package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- vector clocks ----

func joinClk(a, b []int) []int {
	if len(b) > len(a) {
		a = append(append([]int(nil), a...), make([]int, len(b)-len(a))...)
	} else {
		a = append([]int(nil), a...)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

func (x *exec) release(dst []int) []int {
	g := x.g()
	r := joinClk(dst, g.clk)
	g.clk = append([]int(nil), g.clk...)
	g.clk[g.id]++
	return r
}

func (x *exec) acquire(src []int) {
	g := x.g()
	g.clk = joinClk(g.clk, src)
}

func (x *exec) sync(k syncKey) *syncState {
	s := x.s.syncs[k]
	if s == nil {
		s = &syncState{n: C(0, 64)}
		x.s.syncs[k] = s
	}
	return s
}

// block parks the current goroutine; its instruction is executed again when woken.
func (x *exec) block(why string) {
	if x.noFork {
		panic(bail{})
	}
	g := x.g()
	g.status = 1
	g.why = why
	x.schedule()
}

func (x *exec) wakeAll() {
	for _, g := range x.s.gs {
		if g.status == 1 {
			g.status = 0
		}
	}
}

// ---- channels ----

func (x *exec) waiting(obj int) *G {
	for _, g := range x.s.gs {
		if g.hand != nil || g.status == 2 || g.id == x.g().id {
			continue
		}
		for _, o := range g.waitOn {
			if o == obj {
				return g
			}
		}
	}
	return nil
}

func (x *exec) canSend(ch ChanV) bool {
	if ch.obj == 0 {
		return false
	}
	o := x.s.heap.get(ch.obj)
	return o.closed || len(o.queue) < o.capn || x.waiting(ch.obj) != nil
}

func (x *exec) send(ch ChanV, v Value) {
	o := x.s.heap.get(ch.obj)
	if o.closed {
		panic(x.goPanicMsg("send on closed channel"))
	}
	if g := x.waiting(ch.obj); g != nil {
		if x.s.heap.get(ch.obj).capn == 0 {
			x.acquire(g.clk)
		}
		g.hand = &handoff{obj: ch.obj, msg: chanMsg{v: v, clk: x.release(nil)}}
		g.waitOn = nil
		g.status = 0
		return
	}
	o = x.s.heap.mut(ch.obj, x.s.owner)
	o.queue = append(o.queue, chanMsg{v: v, clk: x.release(nil)})
	x.wakeAll()
}

func (x *exec) chanSend(f *Frame, ch ChanV, v Value) {
	if x.noFork {
		panic(bail{})
	}
	if !x.canSend(ch) {
		x.block("send")
		return
	}
	x.send(ch, v)
	f.pc++
}

// tryRecv returns (value, ok, ready).
func (x *exec) tryRecv(ch ChanV, et types.Type) (Value, bool, bool) {
	if ch.obj == 0 {
		return nil, false, false
	}
	g := x.g()
	if g.hand != nil && g.hand.obj == ch.obj {
		h := g.hand
		g.hand = nil
		g.waitOn = nil
		if h.closed {
			x.acquire(h.msg.clk)
			return zeroVal(et), false, true
		}
		x.acquire(h.msg.clk)
		return h.msg.v, true, true
	}
	o := x.s.heap.get(ch.obj)
	if len(o.queue) > 0 {
		o = x.s.heap.mut(ch.obj, x.s.owner)
		m := o.queue[0]
		o.queue = append([]chanMsg(nil), o.queue[1:]...)
		x.acquire(m.clk)
		x.wakeAll()
		return m.v, true, true
	}
	if o.closed {
		x.acquire(o.cclk)
		return zeroVal(et), false, true
	}
	return nil, false, false
}

func (x *exec) chanRecv(f *Frame, ch ChanV, i *ssa.UnOp) Value {
	if x.noFork {
		panic(bail{})
	}
	et := i.X.Type().Underlying().(*types.Chan).Elem()
	v, ok, ready := x.tryRecv(ch, et)
	if !ready {
		x.g().waitOn = []int{ch.obj}
		x.wakeAll()
		x.block("receive")
		return nil
	}
	x.g().waitOn = nil
	if i.CommaOk {
		return Tuple{v, CB(ok)}
	}
	return v
}

func (x *exec) chanClose(ch ChanV) {
	if ch.obj == 0 {
		panic(x.goPanicMsg("close of nil channel"))
	}
	o := x.s.heap.mut(ch.obj, x.s.owner)
	if o.closed {
		panic(x.goPanicMsg("close of closed channel"))
	}
	o.closed = true
	o.cclk = x.release(nil)
	x.wakeAll()
}

func (x *exec) doSelect(f *Frame, i *ssa.Select) Value {
	if x.noFork {
		panic(bail{})
	}
	tt := i.Type().(*types.Tuple)
	mk := func(idx int, ok bool, recv Value, recvIdx int) Value {
		t := Tuple{CI(int64(idx), 64), CB(ok)}
		k := 0
		for _, st := range i.States {
			if st.Dir == types.RecvOnly {
				if k == recvIdx {
					t = append(t, recv)
				} else {
					t = append(t, zeroVal(tt.At(2+k).Type()))
				}
				k++
			}
		}
		return t
	}
	n := len(i.States)
	// a handed-over message fixes the choice
	start := 0
	if x.s.opts["selectlast"] == 1 {
		start = n - 1
	}
	var waits []int
	g := x.g()
	for pass := 0; pass < 2; pass++ {
		if pass == 0 && g.hand == nil {
			continue
		}
		for q := 0; q < n; q++ {
			k := (start + q) % n
			st := i.States[k]
			ch := x.get(f, st.Chan).(ChanV)
			if st.Dir == types.SendOnly {
				if pass == 1 && x.canSend(ch) {
					x.send(ch, x.get(f, st.Send))
					g.waitOn = nil
					return mk(k, false, nil, -1)
				}
				continue
			}
			if pass == 0 && g.hand.obj != ch.obj {
				continue
			}
			ri := 0
			for _, s2 := range i.States[:k] {
				if s2.Dir == types.RecvOnly {
					ri++
				}
			}
			et := st.Chan.Type().Underlying().(*types.Chan).Elem()
			if v, ok, ready := x.tryRecv(ch, et); ready {
				g.waitOn = nil
				return mk(k, ok, v, ri)
			}
		}
	}
	if !i.Blocking {
		return mk(-1, false, nil, -1)
	}
	for _, st := range i.States {
		if st.Dir == types.RecvOnly {
			if ch := x.get(f, st.Chan).(ChanV); ch.obj != 0 {
				waits = append(waits, ch.obj)
			}
		}
	}
	same := len(waits) == len(g.waitOn)
	for k := range waits {
		same = same && waits[k] == g.waitOn[k]
	}
	if !same {
		g.waitOn = waits
		x.wakeAll()
	}
	x.block("select")
	return nil
}

// ---- sync package ----

func keyOf(v Value) syncKey {
	p := v.(Ptr)
	return syncKey{p.obj, p.off}
}

func init() {
	reg := func(name string, h intrinsic) { intrinsics[name] = h }
	lock := func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		s := x.sync(keyOf(args[0]))
		if s.n.val != 0 {
			x.block("lock")
			return nil, false
		}
		s.n = C(1, 64)
		x.acquire(s.clk)
		return Tuple{}, true
	}
	unlock := func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		s := x.sync(keyOf(args[0]))
		if s.n.val != 1 {
			panic(unsupported("unlock of unlocked mutex"))
		}
		s.n = C(0, 64)
		s.clk = x.release(s.clk)
		x.wakeAll()
		return Tuple{}, true
	}
	trylock := func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		s := x.sync(keyOf(args[0]))
		if s.n.val != 0 {
			return tFalse, true
		}
		s.n = C(1, 64)
		x.acquire(s.clk)
		return tTrue, true
	}
	// RW mutexes: n = 1 means write-locked, 2+k means k readers
	rlock := func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		s := x.sync(keyOf(args[0]))
		if s.n.val == 1 {
			x.block("rlock")
			return nil, false
		}
		if s.n.val == 0 {
			s.n = C(2, 64)
		}
		s.n = C(s.n.val+1, 64)
		x.acquire(s.clk)
		return Tuple{}, true
	}
	runlock := func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		s := x.sync(keyOf(args[0]))
		if s.n.val < 3 {
			panic(unsupported("runlock of unlocked mutex"))
		}
		s.n = C(s.n.val-1, 64)
		if s.n.val == 2 {
			s.n = C(0, 64)
		}
		// readers release into a clock only writers need; joining it everywhere
		// would hide reader/reader orders but never invents a race
		s.clk = x.release(s.clk)
		x.wakeAll()
		return Tuple{}, true
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", trylock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", rlock)
	reg("(*sync.RWMutex).RUnlock", runlock)

	wgAdd := func(x *exec, p Value, d int64) {
		s := x.sync(keyOf(p))
		v := int64(s.n.val) + d
		if v < 0 {
			panic(x.goPanicMsg("sync: negative WaitGroup counter"))
		}
		if d < 0 {
			s.clk = x.release(s.clk)
		}
		s.n = CI(v, 64)
		if v == 0 {
			x.wakeAll()
		}
	}
	reg("(*sync.WaitGroup).Add", func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		d := x.cint(args[1].(*Term))
		wgAdd(x, args[0], int64(d))
		return Tuple{}, true
	})
	reg("(*sync.WaitGroup).Done", func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		wgAdd(x, args[0], -1)
		return Tuple{}, true
	})
	reg("(*sync.WaitGroup).Wait", func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		s := x.sync(keyOf(args[0]))
		if s.n.val != 0 {
			x.block("wait")
			return nil, false
		}
		x.acquire(s.clk)
		return Tuple{}, true
	})
	reg("(*sync.Pool).Get", func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		s := x.sync(keyOf(args[0]))
		if n := len(s.pool); n > 0 {
			v := s.pool[n-1]
			s.pool = s.pool[:n-1]
			x.acquire(s.clk)
			return v, true
		}
		p := args[0].(Ptr)
		// field New is the last slot of the struct
		o := x.s.heap.get(p.obj)
		pt := fn.fn.Signature.Recv().Type().(*types.Pointer).Elem()
		nf := o.slots[p.off+sizeOf(pt)-1].(Fn)
		if nf.fn == nil {
			return Iface{}, true
		}
		in := f.block.Instrs[f.pc]
		var ret ssa.Value
		if v, ok := in.(*ssa.Call); ok {
			ret = v
		}
		f.pc++
		x.pushFrame(x.g(), nf.fn, nil, nf.env, ret)
		return nil, false
	})
	reg("(*sync.Pool).Put", func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		s := x.sync(keyOf(args[0]))
		s.clk = x.release(s.clk)
		s.pool = append(s.pool, args[1])
		return Tuple{}, true
	})

	// sync/atomic on plain words
	at := func(op string, kind string) intrinsic {
		return func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
			p := args[0].(Ptr)
			if p.obj == 0 {
				panic(x.goPanicMsg("invalid memory address or nil pointer dereference"))
			}
			s := x.sync(syncKey{p.obj, -1 - p.off})
			race := x.s.raceOn
			x.s.raceOn = false
			defer func() { x.s.raceOn = race }()
			t := fn.fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
			x.acquire(s.clk)
			cur := x.load(p, t)
			rel := func() { s.clk = x.release(s.clk) }
			switch op {
			case "Load":
				return cur, true
			case "Store":
				x.store(p, t, args[1])
				rel()
				return Tuple{}, true
			case "Add":
				n := x.binop(token.ADD, t, cur, args[1], t)
				x.store(p, t, n)
				rel()
				return n, true
			case "Swap":
				x.store(p, t, args[1])
				rel()
				return cur, true
			case "CompareAndSwap":
				if x.decide(x.equal(cur, args[1])) {
					x.store(p, t, args[2])
					rel()
					return tTrue, true
				}
				return tFalse, true
			case "And":
				x.store(p, t, x.binop(token.AND, t, cur, args[1], t))
				rel()
				return cur, true
			case "Or":
				x.store(p, t, x.binop(token.OR, t, cur, args[1], t))
				rel()
				return cur, true
			}
			panic(unsupported("atomic " + op))
		}
	}
	for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
		for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
			reg("sync/atomic."+op+k, at(op, k))
		}
	}
	reg("(*sync/atomic.Value).Load", func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		p := args[0].(Ptr)
		s := x.sync(syncKey{p.obj, -1 - p.off})
		x.acquire(s.clk)
		return x.s.heap.get(p.obj).slots[p.off], true
	})
	reg("(*sync/atomic.Value).Store", func(x *exec, f *Frame, args []Value, fn Fn) (Value, bool) {
		p := args[0].(Ptr)
		s := x.sync(syncKey{p.obj, -1 - p.off})
		s.clk = x.release(s.clk)
		x.s.heap.mut(p.obj, x.s.owner).slots[p.off] = args[1]
		return Tuple{}, true
	})
}
