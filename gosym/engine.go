package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	st          Stats
	prog        *ssa.Program
	pkgs        []*ssa.Package // in dependency order is not needed
	errType     types.Type
	wrapErrType types.Type
	errIface    *types.Interface

	// settings
	hardTimeout time.Duration
	maxIte      int
	maxDepth    int
	maxSteps    int64
	raceDetect  bool
	noMerge     bool
	workers     int
	solTmo      int
	splitDepth  int
	params      map[string]int

	// run state
	harness   string
	deadline  time.Time
	mu        sync.Mutex
	cond      *sync.Cond
	work      []*State
	active    int
	stop      bool
	viols     []*Violation
	vseen     map[string]bool
	fnMu      sync.Mutex
	fns       map[*FnInfo]bool
	res       HarnessResult
	base      *State
	methods   sync.Map
	names     sync.Map
	impls     sync.Map
	maxViol   int
	maxTraces int
	traceRng  uint64
	repo      string
	forks     map[string]int
}

var profForks = os.Getenv("GOSYM_FORKS") != ""

type HarnessResult struct {
	Name                                                     string
	Paths, Done, Assumed, Infeasible, Inconclusive, Violated int64
	Steps                                                    int64
	Asserts, AssertsTrivial                                  int64
	Inconc                                                   map[string]int
	Reach                                                    map[string]int
	ReachModel                                               map[string]map[string]uint64
	AssertMsgs                                               map[string]int
	Params                                                   map[string]int
	Vars                                                     int
	Large                                                    int64
	Seconds                                                  float64
	Violations                                               []*Violation
	Complete                                                 bool
	Traces                                                   []Trace
	Left                                                     int
}

func (e *Engine) push(s *State) {
	e.mu.Lock()
	e.work = append(e.work, s)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Engine) expired() bool { return time.Now().After(e.deadline) }

// hardLimit is the time for one hard query: what is left of the budget, within limits.
func (e *Engine) hardLimit() time.Duration {
	left := time.Until(e.deadline)
	if left < 2*time.Second {
		left = 2 * time.Second
	}
	if left > e.hardTimeout {
		left = e.hardTimeout
	}
	return left
}

func (e *Engine) noteFn(fi *FnInfo) {
	if atomic.LoadInt32(&fi.noted) == 1 {
		return
	}
	e.fnMu.Lock()
	e.fns[fi] = true
	e.fnMu.Unlock()
	atomic.StoreInt32(&fi.noted, 1)
}
func (e *Engine) noteLarge() { atomic.AddInt64(&e.res.Large, 1) }
func (e *Engine) noteAssert(msg string) {
	e.fnMu.Lock()
	e.res.AssertMsgs[msg]++
	e.fnMu.Unlock()
}
func (e *Engine) noteParam(n string, v int) {
	e.fnMu.Lock()
	e.res.Params[n] = v
	e.fnMu.Unlock()
}
func (e *Engine) countAssert(trivial bool) {
	atomic.AddInt64(&e.res.Asserts, 1)
	if trivial {
		atomic.AddInt64(&e.res.AssertsTrivial, 1)
	}
}
func (e *Engine) noteReach(l string, s *State) {
	e.fnMu.Lock()
	e.res.Reach[l]++
	if e.res.ReachModel[l] == nil && s.model != nil {
		e.res.ReachModel[l] = modelVars(s.model, s.vars)
	}
	e.fnMu.Unlock()
}

// Trace is one completed path with a concrete assignment, for comparison with
// the compiled code.
type Trace struct {
	Vals  map[string]uint64
	Reach []string
	Outs  []string
}

func (e *Engine) noteTrace(s *State) {
	e.fnMu.Lock()
	defer e.fnMu.Unlock()
	n := len(e.res.Traces)
	// spread the samples: keep early paths, then replace pseudo-randomly
	e.traceRng = e.traceRng*6364136223846793005 + 1442695040888963407
	slot := n
	if n >= e.maxTraces {
		slot = int(e.traceRng>>33) % int(e.res.Done)
		if slot >= e.maxTraces {
			return
		}
	}
	for _, v := range s.vars {
		if s.model.hasUF {
			return
		}
		_ = v
	}
	t := Trace{Vals: modelVars(s.model, s.vars), Reach: append([]string(nil), s.reach...)}
	for _, o := range s.outs {
		t.Outs = append(t.Outs, fmt.Sprintf("%s=%d", o.name, s.model.Eval(o.t)))
	}
	if slot == n {
		e.res.Traces = append(e.res.Traces, t)
	} else {
		e.res.Traces[slot] = t
	}
}

func (e *Engine) inconclusive(msg string) {
	e.fnMu.Lock()
	e.res.Inconc[msg]++
	e.fnMu.Unlock()
}
func (e *Engine) addViolation(v *Violation) {
	v.Vals = modelVars(v.Model, v.Vars)
	e.mu.Lock()
	defer e.mu.Unlock()
	key := v.Kind + v.Msg + v.Pos
	n := 0
	for _, o := range e.viols {
		if o.Kind+o.Msg+o.Pos == key {
			n++
		}
	}
	if n >= 3 || len(e.viols) > 40 {
		return
	}
	e.viols = append(e.viols, v)
	if len(e.viols) >= e.maxViol {
		e.stop = true
		e.cond.Broadcast()
	}
}

func modelVars(m *Model, vars []*Term) map[string]uint64 {
	r := map[string]uint64{}
	for _, v := range vars {
		r[v.name[:strings.LastIndexByte(v.name, 0x40)]] = m.Eval(v)
	}
	return r
}

func (e *Engine) fnName(fn *ssa.Function) string {
	if v, ok := e.names.Load(fn); ok {
		return v.(string)
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	s := f.String()
	e.names.Store(fn, s)
	return s
}

type mkey struct {
	t types.Type
	m *types.Func
}

var methodMu sync.Mutex

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if v, ok := e.methods.Load(k); ok {
		return v.(*ssa.Function)
	}
	methodMu.Lock()
	defer methodMu.Unlock()
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methods.Store(k, fn)
	return fn
}

type ikey struct {
	t types.Type
	i *types.Interface
}

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	k := ikey{t, i}
	if v, ok := e.impls.Load(k); ok {
		return v.(bool)
	}
	methodMu.Lock()
	r := types.Implements(t, i)
	methodMu.Unlock()
	e.impls.Store(k, r)
	return r
}

var initPkgs = []string{"github.com/oov/psd", "github.com/oov/psd/color", "github.com/oov/psd/blend", "github.com/oov/psd/composite", "github.com/oov/downscale",
	"io", "io/ioutil", "image", "image/color", "image/draw", "image/color/palette", "bufio", "bytes", "strings", "strconv", "sort", "slices", "math", "math/bits", "unicode/utf16", "unicode/utf8",
	"hash/adler32", "compress/zlib", "compress/flate", "hash", "golang.org/x/image/draw", "golang.org/x/image/math/f64", "context", "github.com/pkg/errors", "encoding/binary", "unicode", "cmp", "maps", "iter",
	"golang.org/x/text/encoding", "golang.org/x/text/transform", "golang.org/x/text/encoding/internal/identifier"}

func (e *Engine) initAllowed(path string) bool {
	if strings.HasPrefix(path, "verif/harness") {
		return true
	}
	for _, p := range initPkgs {
		if p == path {
			return true
		}
	}
	return strings.HasPrefix(path, "github.com/oov/psd/")
}

func (e *Engine) bannedPkg(path string) bool {
	switch path {
	case "os", "reflect", "runtime", "syscall", "log", "net", "fmt", "time", "runtime/debug", "internal/reflectlite", "internal/poll", "internal/godebug":
		return true
	}
	return false
}

func (e *Engine) mergeOn(s *State) bool { return !e.noMerge && s.opts["nomerge"] == 0 }

func newEngine(prog *ssa.Program) *Engine {
	e := &Engine{prog: prog, hardTimeout: 20 * time.Second, maxIte: 300, maxDepth: 200, maxSteps: 30_000_000, workers: runtime.NumCPU(), solTmo: 4000, params: map[string]int{}, maxViol: 8, maxTraces: 6, raceDetect: true}
	e.cond = sync.NewCond(&e.mu)
	e.fns = map[*FnInfo]bool{}
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case "errors":
			e.errType = types.NewPointer(p.Type("errorString").Type())
		case "fmt":
			if t := p.Type("wrapError"); t != nil {
				e.wrapErrType = types.NewPointer(t.Type())
			}
		}
	}
	e.errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return e
}

// initState builds the state after package initialisation.
func (e *Engine) initState(main *ssa.Package) (*State, error) {
	resetTerms()
	constCache.Clear()
	s := &State{id: newOwner(), owner: newOwner(), known: map[*Term]bool{}, names: map[string]int{}, syncs: map[syncKey]*syncState{}, globals: map[*ssa.Global]int{}, opts: map[string]int{}}
	s.model = newModel()
	x := &exec{e: e, s: s, sol: newSolver(&e.st, e.solTmo)}
	defer x.sol.close()
	for _, p := range e.prog.AllPackages() {
		if pp := p.Pkg.Path(); !e.initAllowed(pp) && pp != "internal/cpu" {
			// zero-initialised variables only: reads are refused
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupportedErr); !ok {
							panic(r)
						}
					}
				}()
				s.globals[g] = x.alloc(g.Type().Underlying().(*types.Pointer).Elem(), 1, "variable "+g.String())
			}()
		}
	}
	s.gs = []*G{{id: 0, clk: []int{1}}}
	saveNM, saveMax, saveDL := e.noMerge, e.maxSteps, e.deadline
	e.noMerge = true
	e.maxSteps = 100_000_000
	e.deadline = time.Now().Add(5 * time.Minute)
	defer func() { e.noMerge, e.maxSteps, e.deadline = saveNM, saveMax, saveDL }()
	x.pushFrame(x.g(), main.Func("init"), nil, nil, nil)
	end := x.run()
	if end.kind != "done" {
		return nil, fmt.Errorf("package initialisation: %s %s", end.kind, end.msg)
	}
	s.gs = nil
	s.steps = 0
	return s, nil
}

// runHarness explores every path of fn.
func (e *Engine) runHarness(fn *ssa.Function, base *State, budget time.Duration) HarnessResult {
	e.harness = fn.Name()
	e.res = HarnessResult{Name: fn.Name(), Inconc: map[string]int{}, Reach: map[string]int{}, ReachModel: map[string]map[string]uint64{}, AssertMsgs: map[string]int{}, Params: map[string]int{}}
	for k, v := range e.params {
		e.res.Params[k] = v
	}
	e.viols = nil
	e.forks = map[string]int{}
	e.stop = false
	t0 := time.Now()
	e.deadline = t0.Add(budget)
	s := base.fork()
	s.gs = []*G{{id: 0, clk: []int{1}}}
	x := &exec{e: e, s: s}
	x.pushFrame(x.g(), fn, nil, nil, nil)
	s.model = newModel()
	e.work = []*State{s}
	e.active = 0
	var wg sync.WaitGroup
	for w := 0; w < e.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sol := newSolver(&e.st, e.solTmo)
			defer sol.close()
			for {
				e.mu.Lock()
				for len(e.work) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.work) == 0 {
					e.cond.Broadcast()
					e.mu.Unlock()
					return
				}
				st := e.work[len(e.work)-1]
				e.work = e.work[:len(e.work)-1]
				e.active++
				e.mu.Unlock()
				e.runPath(st, sol)
				e.mu.Lock()
				e.active--
				if e.expired() {
					e.stop = true
				}
				e.cond.Broadcast()
				e.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	e.res.Left = len(e.work)
	if len(e.work) > 0 && len(e.viols) < e.maxViol {
		e.inconclusive(fmt.Sprintf("time budget: paths left unexplored"))
	}
	e.work = nil
	if profForks {
		var ks []string
		for k := range e.forks {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return e.forks[ks[i]] > e.forks[ks[j]] })
		for i, k := range ks {
			if i < 25 {
				fmt.Fprintf(os.Stderr, "   forks %6d %s\n", e.forks[k], k)
			}
		}
	}
	e.res.Seconds = time.Since(t0).Seconds()
	e.res.Violations = e.viols
	e.res.Complete = len(e.res.Inconc) == 0 && len(e.viols) == 0 && e.res.Left == 0
	return e.res
}

func (e *Engine) runPath(st *State, sol *Solver) {
	x := &exec{e: e, s: st, sol: sol}
	atomic.AddInt64(&e.res.Paths, 1)
	s0 := st.steps
	end := x.run()
	atomic.AddInt64(&e.res.Steps, x.s.steps-s0)
	switch end.kind {
	case "done":
		if x.s.model == nil {
			// the last assumption must still be satisfiable for the path to count
			r, m := sol.check(x.s.pc, nil, true)
			if r == RUnsat {
				atomic.AddInt64(&e.res.Infeasible, 1)
				return
			}
			x.s.model = m
		}
		atomic.AddInt64(&e.res.Done, 1)
		if x.s.model != nil {
			e.noteReach("harness end", x.s)
			e.noteTrace(x.s)
		}
	case "assume":
		atomic.AddInt64(&e.res.Assumed, 1)
	case "infeasible":
		atomic.AddInt64(&e.res.Infeasible, 1)
	case "violation":
		atomic.AddInt64(&e.res.Violated, 1)
	case "inconclusive":
		atomic.AddInt64(&e.res.Inconclusive, 1)
		e.inconclusive(end.msg)
		if debug {
			fmt.Fprintln(os.Stderr, "inconclusive:", end.msg)
		}
	}
}

var debug = os.Getenv("GOSYM_DEBUG") != ""

var dumpN int32

func dumpQuery(pc []*Term, extra *Term) {
	em := newEmitter()
	for _, c := range pc {
		as := em.asserted(c)
		em.b.WriteString(as)
	}
	as := em.asserted(extra)
	em.b.WriteString(as + "(check-sat)\n")
	n := atomic.AddInt32(&dumpN, 1)
	os.WriteFile(fmt.Sprintf("%s/q%d.smt2", os.Getenv("GOSYM_DUMP"), n), []byte(em.b.String()), 0644)
}
