package main

import (
	"go/token"
	"go/types"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: an acyclic, side-effect-light piece of the control-flow graph
// is executed once with guards instead of forking the path at every branch.
// Stores inside become guarded stores (ite(guard, new, old)).

type region struct {
	join   *ssa.BasicBlock
	blocks []*ssa.BasicBlock // topological order, without the head and the join
	bails  int32
	oks    int32
}

func allowedInRegion(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract, *ssa.Field, *ssa.FieldAddr,
		*ssa.Index, *ssa.IndexAddr, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.MakeInterface, *ssa.DebugRef, *ssa.Store,
		*ssa.Alloc, *ssa.Panic, *ssa.Slice, *ssa.MakeClosure:
		return true
	case *ssa.TypeAssert:
		return true
	case *ssa.Lookup:
		_, isMap := i.X.Type().Underlying().(*types.Map)
		return !isMap
	case *ssa.UnOp:
		return i.Op != token.ARROW
	case *ssa.Call:
		return true
	}
	return false
}

func (fi *FnInfo) computeRegions() {
	fn := fi.fn
	fi.merge = map[*ssa.BasicBlock]*region{}
	if len(fn.Blocks) < 3 {
		return
	}
	n := len(fn.Blocks)
	// post-dominators over the reversed graph; index n is the virtual exit
	order := make([]int, 0, n+1)
	seen := make([]bool, n+1)
	preds := make([][]int, n+1) // in reversed graph: successors
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			preds[b.Index] = append(preds[b.Index], s.Index)
		}
		if len(b.Succs) == 0 {
			preds[b.Index] = append(preds[b.Index], n)
		}
	}
	rsucc := make([][]int, n+1)
	for b, ps := range preds {
		for _, p := range ps {
			rsucc[p] = append(rsucc[p], b)
		}
	}
	var dfs func(int)
	dfs = func(v int) {
		seen[v] = true
		for _, w := range rsucc[v] {
			if !seen[w] {
				dfs(w)
			}
		}
		order = append(order, v)
	}
	dfs(n)
	num := make([]int, n+1)
	for i, v := range order {
		num[v] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[n] = n
	for ch := true; ch; {
		ch = false
		for k := len(order) - 2; k >= 0; k-- {
			v := order[k]
			nd := -1
			for _, p := range preds[v] {
				if idom[p] < 0 {
					continue
				}
				if nd < 0 {
					nd = p
					continue
				}
				a, b := p, nd
				for a != b {
					for num[a] < num[b] {
						a = idom[a]
					}
					for num[b] < num[a] {
						b = idom[b]
					}
				}
				nd = a
			}
			if nd >= 0 && nd != idom[v] {
				idom[v] = nd
				ch = true
			}
		}
	}
	for _, b := range fn.Blocks {
		if len(b.Succs) != 2 || b.Succs[0] == b.Succs[1] {
			continue
		}
		j := idom[b.Index]
		if j < 0 || j == n {
			continue
		}
		if rg := buildRegion(b, fn.Blocks[j]); rg != nil {
			fi.merge[b] = rg
		}
	}
}

func buildRegion(head, join *ssa.BasicBlock) *region {
	st := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	ok := true
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if b == join || !ok {
			return
		}
		if b == head || st[b] == 1 {
			ok = false
			return
		}
		if st[b] == 2 {
			return
		}
		st[b] = 1
		for _, in := range b.Instrs {
			if !allowedInRegion(in) {
				ok = false
				return
			}
		}
		if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
			ok = false
			return
		}
		for _, s := range b.Succs {
			dfs(s)
		}
		st[b] = 2
		post = append(post, b)
	}
	for _, s := range head.Succs {
		dfs(s)
	}
	if !ok || len(post) > 200 {
		return nil
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return &region{join: join, blocks: post}
}

// isPure: acyclic body made of region instructions and returns.
func (fi *FnInfo) isPure() bool {
	switch atomic.LoadInt32(&fi.pure) {
	case 1:
		return true
	case -1:
		return false
	}
	ok := len(fi.fn.Blocks) > 0 && fi.fn.Recover == nil && fi.ninstr < 3000
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if !ok || state[b] == 2 {
			return
		}
		if state[b] == 1 {
			ok = false
			return
		}
		state[b] = 1
		for _, in := range b.Instrs {
			if _, r := in.(*ssa.Return); !r && !allowedInRegion(in) {
				ok = false
				return
			}
		}
		for _, s := range b.Succs {
			dfs(s)
		}
		state[b] = 2
		post = append(post, b)
	}
	if ok {
		dfs(fi.fn.Blocks[0])
	}
	if !ok {
		atomic.StoreInt32(&fi.pure, -1)
		return false
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	fi.topo.Store(&post)
	atomic.StoreInt32(&fi.pure, 1)
	return true
}

type edge struct {
	from *ssa.BasicBlock
	cond *Term
}

type undo struct {
	obj, slot int
	old       Value
}

// gexec is a guarded execution in progress (possibly nested through calls).
type gexec struct {
	x     *exec
	undos []undo
	fresh map[int]*Term // object -> guard of its allocation
}

func (x *exec) rollback(u []undo) {
	for i := len(u) - 1; i >= 0; i-- {
		o := x.s.heap.mut(u[i].obj, x.s.owner)
		o.slots[u[i].slot] = u[i].old
	}
}

func (x *exec) tryRegion(f *Frame, rg *region, c *Term) (ok bool) {
	if atomic.LoadInt32(&rg.bails) > 12+4*atomic.LoadInt32(&rg.oks) {
		return false
	}
	ge := &gexec{x: x, fresh: map[int]*Term{}}
	saved := append([]Value(nil), f.regs...)
	depth := len(x.g().frames)
	block, pc, prev := f.block, f.pc, f.prev
	x.noFork, x.rpc, x.ge = true, nil, ge
	defer func() {
		x.noFork, x.rpc, x.ge = false, nil, nil
		if r := recover(); r != nil {
			if _, isBail := r.(bail); !isBail {
				if ue, isU := r.(unsupportedErr); !isU {
					panic(r)
				} else {
					_ = ue
				}
			}
			x.rollback(ge.undos)
			f.regs = saved
			f.block, f.pc, f.prev = block, pc, prev
			x.g().frames = x.g().frames[:depth]
			atomic.AddInt32(&rg.bails, 1)
			ok = false
		}
	}()
	c = x.settle(tTrue, c)
	in := map[*ssa.BasicBlock][]edge{}
	in[f.block.Succs[0]] = append(in[f.block.Succs[0]], edge{f.block, c})
	in[f.block.Succs[1]] = append(in[f.block.Succs[1]], edge{f.block, Not(c)})
	for _, b := range rg.blocks {
		ge.block(f, b, in, nil)
	}
	ge.phis(f, rg.join, in[rg.join])
	n := 0
	for _, i := range rg.join.Instrs {
		if _, isPhi := i.(*ssa.Phi); !isPhi {
			break
		}
		n++
	}
	f.prev = f.block
	f.block = rg.join
	f.pc = n
	atomic.AddInt32(&rg.oks, 1)
	return true
}

func (x *exec) tryPure(fi *FnInfo, args []Value, env []Value) (res Value, ok bool) {
	if x.noFork {
		return x.ge.call(fi, args, env), true
	}
	if atomic.LoadInt32(&fi.pbails) > 12+4*atomic.LoadInt32(&fi.poks) {
		return nil, false
	}
	ge := &gexec{x: x, fresh: map[int]*Term{}}
	depth := len(x.g().frames)
	x.noFork, x.rpc, x.ge = true, nil, ge
	defer func() {
		x.noFork, x.rpc, x.ge = false, nil, nil
		if r := recover(); r != nil {
			if _, isBail := r.(bail); !isBail {
				if _, isU := r.(unsupportedErr); !isU {
					panic(r)
				}
			}
			x.rollback(ge.undos)
			x.g().frames = x.g().frames[:depth]
			atomic.AddInt32(&fi.pbails, 1)
			res, ok = nil, false
		}
	}()
	x.e.noteFn(fi)
	r := ge.call(fi, args, env)
	atomic.AddInt32(&fi.poks, 1)
	return r, true
}

// call runs a pure function under the current guard and merges its returns.
func (ge *gexec) call(fi *FnInfo, args []Value, env []Value) Value {
	x := ge.x
	if !fi.isPure() {
		panic(bail{})
	}
	x.e.noteFn(fi)
	x.depthM++
	defer func() { x.depthM-- }()
	if x.depthM > 30 {
		panic(bail{})
	}
	f := &Frame{fi: fi, regs: make([]Value, fi.n), env: env}
	copy(f.regs, args)
	copy(f.regs[len(fi.fn.Params):], env)
	outer := x.rpc
	in := map[*ssa.BasicBlock][]edge{}
	g0 := outer
	if g0 == nil {
		g0 = tTrue
	}
	in[fi.fn.Blocks[0]] = []edge{{nil, g0}}
	type rv struct {
		cond *Term
		v    Value
	}
	var rets []rv
	for _, b := range *fi.topo.Load() {
		ge.block(f, b, in, func(cond *Term, r *ssa.Return) {
			var v Value
			switch len(r.Results) {
			case 0:
				v = Tuple{}
			case 1:
				v = x.get(f, r.Results[0])
			default:
				t := make(Tuple, len(r.Results))
				for k, y := range r.Results {
					t[k] = x.get(f, y)
				}
				v = t
			}
			rets = append(rets, rv{cond, v})
		})
	}
	x.rpc = outer
	if len(rets) == 0 {
		panic(bail{})
	}
	v := rets[len(rets)-1].v
	for k := len(rets) - 2; k >= 0; k-- {
		var ok bool
		if v, ok = iteVal(rets[k].cond, rets[k].v, v); !ok {
			panic(bail{})
		}
	}
	return v
}

func (ge *gexec) phis(f *Frame, b *ssa.BasicBlock, es []edge) {
	x := ge.x
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Value
		for k := len(es) - 1; k >= 0; k-- {
			var ev Value
			for i, p := range b.Preds {
				if p == es[k].from {
					ev = x.get(f, phi.Edges[i])
					break
				}
			}
			if v == nil {
				v = ev
				continue
			}
			var ok bool
			if v, ok = iteVal(es[k].cond, ev, v); !ok {
				panic(bail{})
			}
		}
		vals = append(vals, v)
		ps = append(ps, phi)
	}
	for i, p := range ps {
		x.set(f, p, vals[i])
	}
}

func (ge *gexec) block(f *Frame, b *ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, onRet func(*Term, *ssa.Return)) {
	x := ge.x
	es := in[b]
	live := es[:0:0]
	guard := tFalse
	for _, e := range es {
		if e.cond.isFalse() {
			continue
		}
		if v, known := x.s.lookup(e.cond); known && !v {
			continue
		}
		live = append(live, e)
		guard = Or(guard, e.cond)
	}
	if len(live) == 0 {
		in[b] = nil
		return
	}
	if b != f.fi.fn.Blocks[0] {
		ge.phis(f, b, live)
	}
	save := x.rpc
	x.rpc = guard
	defer func() { x.rpc = save }()
	add := func(to *ssa.BasicBlock, c *Term) {
		if !c.isFalse() {
			in[to] = append(in[to], edge{b, c})
		}
	}
	for _, instr := range b.Instrs {
		x.s.steps++
		switch i := instr.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.term(f, i.Cond)
			if v, ok := x.s.lookup(c); ok {
				c = CB(v)
			}
			if !c.isC() {
				// resolve under the guard when it is implied syntactically
				if And(guard, c).isFalse() {
					c = tFalse
				} else if And(guard, Not(c)).isFalse() {
					c = tTrue
				}
			}
			c = x.settle(guard, c)
			add(b.Succs[0], And(guard, c))
			add(b.Succs[1], And(guard, Not(c)))
		case *ssa.Jump:
			add(b.Succs[0], guard)
		case *ssa.Return:
			if onRet == nil {
				panic(bail{})
			}
			onRet(guard, i)
		case *ssa.Panic:
			x.decide(Not(guard)) // leaves the region unless the block is proved dead
			return
		case *ssa.Store:
			ge.store(x.get(f, i.Addr).(Ptr), i.Val.Type(), x.get(f, i.Val), guard)
		case *ssa.Alloc:
			t := i.Type().Underlying().(*types.Pointer).Elem()
			id := x.alloc(t, 1, i.Comment)
			ge.fresh[id] = guard
			x.set(f, i, Ptr{obj: id})
		case *ssa.Call:
			c := i.Common()
			fv, args := x.resolve(f, c)
			fn := fv.(Fn)
			if fn.bi != "" && fn.fn == nil {
				r := x.builtin(f, fn.bi, c, args)
				if r != nil {
					x.set(f, i, r)
				}
				continue
			}
			if fn.fn == nil {
				panic(bail{})
			}
			name := x.e.fnName(fn.fn)
			if h := intrinsics[name]; h != nil {
				if !pureIntrinsics[name] {
					panic(bail{})
				}
				r, _ := h(x, f, args, fn)
				x.set(f, i, r)
				continue
			}
			if fn.fn.Pkg != nil && x.e.bannedPkg(fn.fn.Pkg.Pkg.Path()) || len(fn.fn.Blocks) == 0 {
				panic(bail{})
			}
			x.set(f, i, ge.call(infoOf(fn.fn), args, fn.env))
		case ssa.Value:
			x.set(f, i, x.eval(f, i))
		default:
			panic(bail{})
		}
	}
}

func (ge *gexec) store(p Ptr, t types.Type, v Value, guard *Term) {
	x := ge.x
	if p.obj == 0 || x.s.raceOn {
		panic(bail{})
	}
	o := x.s.heap.get(p.obj)
	if o.sparse || o.isMap || o.isChan || o.uninit || p.sym != nil && p.n > x.e.maxIte {
		panic(bail{})
	}
	if g, ok := ge.fresh[p.obj]; ok && g == guard {
		guard = tTrue
	}
	n := sizeOf(t)
	elem := func(j int) Value {
		if isAgg(t) {
			return v.(Agg)[j]
		}
		return v
	}
	put := func(slot int, c *Term, e Value) {
		old := x.s.heap.get(p.obj).slots[slot]
		m, ok := e, true
		if !c.isTrue() {
			m, ok = iteVal(c, e, old)
		}
		if !ok {
			panic(bail{})
		}
		oo := x.s.heap.mut(p.obj, x.s.owner)
		ge.undos = append(ge.undos, undo{p.obj, slot, old})
		oo.slots[slot] = m
	}
	if p.sym == nil {
		for j := 0; j < n; j++ {
			put(p.off+j, guard, elem(j))
		}
		return
	}
	for i := 0; i < p.n; i++ {
		c := And(guard, Eq(p.sym, C(uint64(i), 64)))
		for j := 0; j < n; j++ {
			put(p.off+i*p.scale+j, c, elem(j))
		}
	}
}
