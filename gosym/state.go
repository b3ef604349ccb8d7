package main

import (
	"go/types"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type FnInfo struct {
	fn     *ssa.Function
	idx    map[ssa.Value]int
	n      int
	ninstr int
	merge  map[*ssa.BasicBlock]*region
	pure   int32 // 0 unknown, 1 yes, -1 no
	topo   atomic.Pointer[[]*ssa.BasicBlock]
	pbails int32
	poks   int32
	noted  int32
}

type deferred struct {
	fn   Value
	args []Value
	inv  *types.Func // interface method when invoked
}

type Frame struct {
	fi        *FnInfo
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	regs      []Value
	env       []Value
	defers    []deferred
	retTo     ssa.Value // register in the caller that receives the result
	isDefer   bool      // called by RunDefers / unwinding
	unwinding bool      // this frame is being unwound; running its defers
	iters     map[*ssa.BasicBlock]int
}

type G struct {
	id     int
	frames []*Frame
	status int // 0 runnable, 1 blocked, 2 done
	why    string
	clk    []int
	panics []Value // active panic values
	recov  bool
	waitOn []int // channels this goroutine is blocked receiving from
	hand   *handoff
}

type handoff struct {
	obj    int
	msg    chanMsg
	closed bool
}

type syncState struct {
	n    *Term // waitgroup counter / mutex state (concrete)
	clk  []int
	pool []Value
	done bool
}

type outVal struct {
	name string
	t    *Term
}

type syncKey struct{ obj, off int }

type State struct {
	id      uint64
	owner   uint64
	heap    Heap
	gs      []*G
	cur     int
	pc      []*Term
	known   map[*Term]bool
	model   *Model
	names   map[string]int
	vars    []*Term
	syncs   map[syncKey]*syncState
	procs   *Term
	raceOn  bool
	ngo     int
	steps   int64
	depth   int
	globals map[*ssa.Global]int
	maybe   bool // feasibility not established
	reach   []string
	outs    []outVal
	trace   []string
	opts    map[string]int
}

var ownerCtr uint64

func newOwner() uint64 { return atomic.AddUint64(&ownerCtr, 1) }

func (s *State) fork() *State {
	n := *s
	n.id = atomic.AddUint64(&ownerCtr, 1)
	s.owner = newOwner()
	n.owner = newOwner()
	n.heap.chunks = append([]*chunk(nil), s.heap.chunks...)
	n.gs = make([]*G, len(s.gs))
	for i, g := range s.gs {
		ng := *g
		ng.clk = append([]int(nil), g.clk...)
		ng.panics = append([]Value(nil), g.panics...)
		ng.frames = make([]*Frame, len(g.frames))
		for j, f := range g.frames {
			nf := *f
			nf.regs = append([]Value(nil), f.regs...)
			nf.defers = append([]deferred(nil), f.defers...)
			ng.frames[j] = &nf
		}
		n.gs[i] = &ng
	}
	n.pc = append([]*Term(nil), s.pc...)
	n.known = make(map[*Term]bool, len(s.known)+4)
	for k, v := range s.known {
		n.known[k] = v
	}
	n.names = make(map[string]int, len(s.names))
	for k, v := range s.names {
		n.names[k] = v
	}
	n.opts = make(map[string]int, len(s.opts))
	for k, v := range s.opts {
		n.opts[k] = v
	}
	n.vars = append([]*Term(nil), s.vars...)
	n.reach = append([]string(nil), s.reach...)
	n.outs = append([]outVal(nil), s.outs...)
	n.trace = append([]string(nil), s.trace...)
	n.syncs = make(map[syncKey]*syncState, len(s.syncs))
	for k, v := range s.syncs {
		nv := *v
		nv.clk = append([]int(nil), v.clk...)
		nv.pool = append([]Value(nil), v.pool...)
		n.syncs[k] = &nv
	}
	return &n
}

func (s *State) addPC(c *Term) {
	if c.isTrue() {
		return
	}
	if c.op == OAnd {
		s.addPC(c.a[0])
		s.addPC(c.a[1])
		return
	}
	s.pc = append(s.pc, c)
	s.addKnown(c, true)
}

func (s *State) addKnown(c *Term, v bool) {
	for c.op == ONot {
		c = c.a[0]
		v = !v
	}
	s.known[c] = v
	if v && c.op == OAnd {
		s.addKnown(c.a[0], true)
		s.addKnown(c.a[1], true)
	}
	if !v && c.op == OOr {
		s.addKnown(c.a[0], false)
		s.addKnown(c.a[1], false)
	}
	n := Not(c)
	if n.op != ONot {
		s.known[n] = !v
	}
}

func (s *State) lookup(c *Term) (bool, bool) {
	neg := false
	for c.op == ONot {
		c = c.a[0]
		neg = !neg
	}
	v, ok := s.known[c]
	return v != neg, ok
}
