package main

// Case splitting for queries with hard arithmetic: one or more 8-bit
// variables are replaced by each of their values, the simplified residues are
// decided by the solver. Also a cache of refuted queries modulo renaming of
// variables.

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func rebuildAll(t *Term, a [3]*Term) *Term {
	if r := rebuild(t, a); r != nil {
		return r
	}
	switch t.op {
	case OBNot:
		return BVNot(a[0])
	case ONeg:
		return Neg(a[0])
	case OFAdd, OFSub, OFMul, OFDiv:
		return FBin(t.op, a[0], a[1])
	case OFNeg, OFAbs, OFSqrt, OFRound:
		return FUn(t.op, a[0], t.k)
	case OFLt, OFLe, OFEq:
		return FCmp(t.op, a[0], a[1])
	case OFIsNaN:
		return FIsNaN(a[0])
	case OFFromBits:
		return FFromBits(a[0])
	case OFToBits:
		return FToBits(a[0])
	case OFToFP:
		return FToFP(a[0], t.sort)
	case OSToF:
		return IntToF(a[0], true, t.sort)
	case OUToF:
		return IntToF(a[0], false, t.sort)
	case OFToS:
		return FToInt(a[0], int(t.sort.W))
	}
	return nil
}

// subst replaces variable v by c; nil when t holds an operator it cannot rebuild.
func subst(t, v, c *Term, memo map[*Term]*Term) *Term {
	if t == v {
		return c
	}
	if t.n == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var a [3]*Term
	same := true
	for i := 0; i < int(t.n); i++ {
		a[i] = subst(t.a[i], v, c, memo)
		if a[i] == nil {
			memo[t] = nil
			return nil
		}
		same = same && a[i] == t.a[i]
	}
	r := t
	if !same {
		if t.op == OSLt {
			r = SLt(a[0], a[1])
		} else if t.op == OSLe {
			r = SLe(a[0], a[1])
		} else {
			r = rebuildAll(t, a)
		}
	}
	memo[t] = r
	return r
}

// coneInfo describes the variables of a query.
type coneInfo struct {
	vars  []*Term
	mul   map[*Term]int // weight of a variable in hard operations
	ok    bool
	hard  bool
	sets  map[*Term]map[*Term]bool
	nodes int
}

func (ci *coneInfo) varsOf(t *Term) map[*Term]bool {
	if t.op == OConst {
		return nil
	}
	if s, ok := ci.sets[t]; ok {
		return s
	}
	ci.nodes++
	var s map[*Term]bool
	if t.op == OVar {
		s = map[*Term]bool{t: true}
		ci.vars = append(ci.vars, t)
		if t.sort.K == KFP {
			ci.ok = false
		}
	} else if t.op == OUF {
		ci.ok = false
	}
	for i := 0; i < int(t.n); i++ {
		u := ci.varsOf(t.a[i])
		if len(s) == 0 {
			s = u
			continue
		}
		add := false
		for v := range u {
			if !s[v] {
				add = true
				break
			}
		}
		if add {
			n := map[*Term]bool{}
			for v := range s {
				n[v] = true
			}
			for v := range u {
				n[v] = true
			}
			s = n
		}
	}
	ci.sets[t] = s
	w := 0
	switch t.op {
	case OMul:
		if !t.a[0].isC() && !t.a[1].isC() {
			w = 1
			ci.hard = true
		} else if t.sort.W > 8 {
			ci.hard = true
		}
	case OUDiv, OSDiv, OURem, OSRem:
		if !t.a[1].isC() {
			for v := range ci.sets[t.a[1]] {
				ci.mul[v] += 4
			}
		}
		ci.hard = true
	case OFAdd, OFSub, OFMul, OFDiv, OFSqrt:
		w = 8
		ci.hard = true
	}
	if w > 0 {
		for v := range s {
			ci.mul[v] += w
		}
	}
	return s
}

func newCone() *coneInfo {
	return &coneInfo{mul: map[*Term]int{}, sets: map[*Term]map[*Term]bool{}, ok: true}
}

// relevant returns the constraints of pc that share variables with neg.
func relevant(pc []*Term, neg *Term, ci *coneInfo) []*Term {
	in := map[*Term]bool{}
	for v := range ci.varsOf(neg) {
		in[v] = true
	}
	var out []*Term
	used := make([]bool, len(pc))
	pci := newCone()
	for ch := true; ch; {
		ch = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			vs := pci.varsOf(c)
			hit := false
			for v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for v := range vs {
					in[v] = true
				}
			}
		}
	}
	for i, c := range pc {
		if used[i] {
			ci.varsOf(c)
			out = append(out, c)
		}
	}
	return out
}

// canon writes the query modulo names of variables.
func canon(ts []*Term) string {
	var b strings.Builder
	ids := map[*Term]int{}
	var f func(t *Term)
	f = func(t *Term) {
		if t.op == OConst {
			fmt.Fprintf(&b, "c%d.%d.%d ", t.sort.K, t.sort.W, t.val)
			return
		}
		if i, ok := ids[t]; ok {
			fmt.Fprintf(&b, "@%d ", i)
			return
		}
		if t.op == OVar {
			ids[t] = len(ids)
			fmt.Fprintf(&b, "v%d.%d ", t.sort.K, t.sort.W)
			return
		}
		fmt.Fprintf(&b, "(%d.%d.%d.%d ", t.op, t.sort.K, t.sort.W, t.k)
		for i := 0; i < int(t.n); i++ {
			f(t.a[i])
		}
		b.WriteByte(')')
		ids[t] = len(ids)
	}
	for _, t := range ts {
		f(t)
		b.WriteByte('\n')
	}
	return b.String()
}

type unsatCache struct {
	mu    sync.Mutex
	m     map[string]chan bool // closed when decided
	ok    map[string]bool
	tried map[string]bool // not refuted within a short limit
}

var refuted = unsatCache{m: map[string]chan bool{}, ok: map[string]bool{}, tried: map[string]bool{}}

type splitQuery struct {
	ci  *coneInfo
	ts  []*Term
	key string
}

func (q *splitQuery) known() bool {
	refuted.mu.Lock()
	defer refuted.mu.Unlock()
	return refuted.ok[q.key]
}

// newSplit prepares a query for splitting; nil when it does not apply.
func (x *exec) newSplit(pc []*Term, neg *Term) *splitQuery {
	ci := newCone()
	rel := relevant(pc, neg, ci)
	if !ci.ok || len(ci.vars) == 0 {
		return nil
	}
	n := 0
	for _, v := range ci.vars {
		if v.sort.K != KBool && v.sort.W > 16 {
			return nil
		}
		if v.sort.K == KBV && v.sort.W <= 8 {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	ts := append([]*Term{neg}, rel...)
	return &splitQuery{ci, ts, canon(ts)}
}

// splitProve decides pc and neg by splitting; RUnknown when it does not apply.
func (x *exec) splitProve(q *splitQuery) (Result, *Model) {
	key := q.key
	// one worker decides, the others wait
	for {
		refuted.mu.Lock()
		if refuted.ok[key] {
			refuted.mu.Unlock()
			atomic.AddInt64(&x.e.st.CacheHits, 1)
			return RUnsat, nil
		}
		if ch, busy := refuted.m[key]; busy {
			refuted.mu.Unlock()
			<-ch
			refuted.mu.Lock()
			ok := refuted.ok[key]
			refuted.mu.Unlock()
			if ok {
				continue
			}
			if x.e.expired() {
				return RUnknown, nil
			}
			continue
		}
		ch := make(chan bool)
		refuted.m[key] = ch
		refuted.mu.Unlock()
		atomic.AddInt64(&x.e.st.Splits, 1)
		r, m := x.split(q.ts, q.ci, 0)
		refuted.mu.Lock()
		if r == RUnsat {
			refuted.ok[key] = true
		}
		delete(refuted.m, key)
		close(ch)
		refuted.mu.Unlock()
		return r, m
	}
}

var splitDebug = os.Getenv("GOSYM_SPLIT") != ""

func (x *exec) split(ts []*Term, ci *coneInfo, depth int) (Result, *Model) {
	// the variable that carries most of the hard operations
	var best *Term
	n8 := 0
	for _, v := range ci.vars {
		if v.sort.K != KBV || v.sort.W > 8 {
			continue
		}
		n8++
		if best == nil || ci.mul[v] > ci.mul[best] || ci.mul[v] == ci.mul[best] && v.id < best.id {
			best = v
		}
	}
	if best == nil || len(ci.vars) == 1 && !ci.hard {
		return RUnknown, nil
	}
	if splitDebug {
		fmt.Fprintf(os.Stderr, "split depth %d on %s of %d vars, %d nodes\n", depth, best.name, len(ci.vars), ci.nodes)
	}
	t0 := time.Now()
	decide := func(r *Term) (Result, *Model) {
		res, m := x.sol.nia().check([]*Term{r}, 2000)
		if res == RUnknown {
			res, m = x.sol.sub().check(nil, r, true)
		}
		return res, m
	}
	for v := uint64(0); v < 1<<best.sort.W; v++ {
		if x.e.expired() {
			return RUnknown, nil
		}
		memo := map[*Term]*Term{}
		c := C(v, int(best.sort.W))
		r := tTrue
		for _, t := range ts {
			u := subst(t, best, c, memo)
			if u == nil {
				return RUnknown, nil
			}
			r = And(r, u)
			if r.isFalse() {
				break
			}
		}
		if r.isFalse() {
			continue
		}
		if r.isTrue() {
			m := newModel()
			m.set(best, v)
			return RSat, m
		}
		cj := newCone()
		cj.varsOf(r)
		if depth < x.e.splitDepth && cj.hard && cj.nonlinear() {
			res, m := x.split([]*Term{r}, cj, depth+1)
			if res == RSat {
				m.set(best, v)
			}
			if res != RUnsat {
				return res, m
			}
			continue
		}
		if res, m := decide(r); res != RUnsat {
			if res == RSat {
				m.set(best, v)
			} else if splitDebug {
				fmt.Fprintf(os.Stderr, "split: %s=%d unknown after %v\n", best.name, v, time.Since(t0))
			}
			return res, m
		}
	}
	if splitDebug && depth == 0 {
		fmt.Fprintf(os.Stderr, "split done in %v\n", time.Since(t0))
	}
	return RUnsat, nil
}

// nonlinear: some operation still combines variables in a hard way.
func (ci *coneInfo) nonlinear() bool {
	for _, w := range ci.mul {
		if w > 0 {
			return true
		}
	}
	return false
}

func (s *Solver) sub() *Solver {
	if s.aux == nil {
		s.aux = newSolver(s.st, 10000)
	}
	return s.aux
}

func (m *Model) set(v *Term, val uint64) {
	m.vars[v.name] = val
	m.memo = map[*Term]uint64{}
}

func (s *Solver) nia() *intSolver {
	if s.niaS == nil {
		s.niaS = &intSolver{st: s.st}
	}
	return s.niaS
}

// merged is the current model with the values of m; nil when it does not
// satisfy the query.
func (x *exec) merged(m *Model, neg *Term) *Model {
	n := newModel()
	if x.s.model != nil {
		for k, v := range x.s.model.vars {
			n.vars[k] = v
		}
	}
	for k, v := range m.vars {
		n.vars[k] = v
	}
	if n.Eval(neg) == 0 {
		return nil
	}
	for _, c := range x.s.pc {
		if n.Eval(c) == 0 {
			return nil
		}
	}
	return n
}

// proveFast asks the cache of refuted queries, the integer encoding and, for a
// short time, the incremental solver.
func (x *exec) proveFast(neg *Term) (Result, *Model) {
	if !neg.arith {
		return x.sol.check(x.s.pc, neg, true)
	}
	r, m, _ := x.proveHard(neg)
	return r, m
}

func (x *exec) proveHard(neg *Term) (Result, *Model, *splitQuery) {
	q := x.newSplit(x.s.pc, neg)
	if q != nil {
		if q.known() {
			atomic.AddInt64(&x.e.st.CacheHits, 1)
			return RUnsat, nil, q
		}
		switch r, m := x.sol.nia().check(q.ts, 1000); r {
		case RUnsat:
			refuted.mu.Lock()
			refuted.ok[q.key] = true
			refuted.mu.Unlock()
			return RUnsat, nil, q
		case RSat:
			if n := x.merged(m, neg); n != nil {
				return RSat, n, q
			}
		}
		if !x.sol.nia().bad {
			x.sol.nextTmo = 500
		}
	}
	r, m := x.sol.check(x.s.pc, neg, true)
	return r, m, q
}

// prove is the solver call for hard questions: refuted queries of the same
// shape, the integer encoding, a short incremental check, case splitting, then
// the other strategies.
func (x *exec) prove(neg *Term, fpabs bool) (Result, *Model) {
	s := x.s
	var q *splitQuery
	var r Result
	var m *Model
	if neg.hard {
		r, m, q = x.proveHard(neg)
	} else if neg.arith {
		x.sol.nextTmo = 200
		if r, m = x.sol.check(s.pc, neg, true); r == RUnknown {
			r, m, q = x.proveHard(neg)
		}
	} else {
		r, m = x.sol.check(s.pc, neg, true)
	}
	if r != RUnknown || x.e.expired() {
		return r, m
	}
	if q == nil {
	} else if r, m := x.splitProve(q); r == RUnsat {
		return r, nil
	} else if r == RSat {
		if n := x.merged(m, neg); n != nil {
			return RSat, n
		}
	}
	if fpabs && proveFPAbs(x.sol, &x.e.st, s.pc, neg, x.e.hardLimit()) {
		return RUnsat, nil
	}
	r, m, _ = oneShot(&x.e.st, s.pc, neg, x.e.hardLimit())
	return r, m
}

// settle replaces a hard condition of a merged branch by its truth when the
// integer encoding shows that one side is impossible under the guard.
func (x *exec) settle(guard, c *Term) *Term {
	all := x.s.opts["settle"] != 0
	if !c.arith && !all || c.isC() {
		return c
	}
	for i, side := range []*Term{c, Not(c)} {
		ex := And(guard, side)
		if ex.isFalse() {
			return CB(i == 1)
		}
		x.ensureModel()
		if x.s.model.Eval(ex) != 0 {
			continue
		}
		q := x.newSplit(x.s.pc, ex)
		if q == nil {
			continue
		}
		refuted.mu.Lock()
		done, tried := refuted.ok[q.key], refuted.tried[q.key]
		refuted.mu.Unlock()
		if !done && !tried {
			r, _ := x.sol.nia().check(q.ts, 500)
			done = r == RUnsat
			refuted.mu.Lock()
			if done {
				refuted.ok[q.key] = true
			} else {
				refuted.tried[q.key] = true
			}
			refuted.mu.Unlock()
		}
		if done {
			return CB(i == 1)
		}
	}
	return c
}
