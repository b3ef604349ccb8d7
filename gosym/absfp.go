package main

// Abstraction of floating-point conversions for hard mixed queries: each
// bit-vector (or boolean) term computed from floats is replaced by a fresh
// variable constrained only by unsigned bounds that are proved first from the
// same path condition. Unsat of the abstraction implies unsat of the query.

import (
	"os"
	"time"
)

type fpAbs struct {
	cone map[*Term]bool
	sub  map[*Term]*Term
	lv   []*Term

	known map[*Term]*Term // set: only replace these comparisons
}

func (f *fpAbs) inCone(t *Term) bool {
	if v, ok := f.cone[t]; ok {
		return v
	}
	v := t.sort.K == KFP
	for i := 0; i < int(t.n) && !v; i++ {
		v = f.inCone(t.a[i])
	}
	f.cone[t] = v
	return v
}

// direct: the term takes a float (or a comparison of floats) as an operand.
func (f *fpAbs) leaf(t *Term) bool {
	if !f.inCone(t) || t.sort.K == KFP {
		return false
	}
	if f.directFP(t) {
		return true
	}
	return t.op == OIte && f.pureFP(t.a[0]) && f.conv(t.a[1]) && f.conv(t.a[2])
}

// conv: a constant or a converted float, possibly chosen by float comparisons.
func (f *fpAbs) conv(t *Term) bool {
	switch t.op {
	case OConst:
		return true
	case OFToS, OFToU, OFToBits:
		return true
	case OExtract, OZExt:
		return f.conv(t.a[0])
	case OIte:
		return f.pureFP(t.a[0]) && f.conv(t.a[1]) && f.conv(t.a[2])
	}
	return false
}

func (f *fpAbs) directFP(t *Term) bool {
	for i := 0; i < int(t.n); i++ {
		if t.a[i].sort.K == KFP {
			return true
		}
	}
	return false
}

func (f *fpAbs) rewrite(t *Term) *Term {
	if !f.inCone(t) {
		return t
	}
	if r, ok := f.sub[t]; ok {
		return r
	}
	var r *Term
	if f.known != nil {
		if k, ok := f.known[t]; ok {
			return k
		}
		if t.sort.K == KFP || f.directFP(t) {
			return t
		}
		var a [3]*Term
		for i := 0; i < int(t.n); i++ {
			a[i] = f.rewrite(t.a[i])
		}
		if r = rebuild(t, a); r == nil {
			r = t
		}
	} else if f.leaf(t) {
		r = V("fpabs!"+uitoa(t.id)+"@", t.sort)
		f.lv = append(f.lv, t)
	} else {
		var a [3]*Term
		for i := 0; i < int(t.n); i++ {
			a[i] = f.rewrite(t.a[i])
		}
		r = rebuild(t, a)
		if r == nil {
			r = V("fpabs!"+uitoa(t.id)+"@", t.sort)
		}
	}
	f.sub[t] = r
	return r
}

func uitoa(v uint64) string {
	if v == 0 {
		return "0"
	}
	var b []byte
	for ; v > 0; v /= 10 {
		b = append([]byte{byte('0' + v%10)}, b...)
	}
	return string(b)
}

// rebuild applies t's operator to other operands of the same sorts.
func rebuild(t *Term, a [3]*Term) *Term {
	switch t.op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a[0], a[1])
	case OOr:
		return Or(a[0], a[1])
	case OEq:
		return Eq(a[0], a[1])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OULt:
		return ULt(a[0], a[1])
	case OULe:
		return ULe(a[0], a[1])
	case OSLt, OSLe:
		n := *t
		n.a = a
		return mk(n)
	case OZExt:
		return ZExt(a[0], int(t.sort.W))
	case OSExt:
		return SExt(a[0], int(t.sort.W))
	case OExtract:
		return Extract(a[0], int(t.k)+int(t.sort.W)-1, int(t.k))
	case OConcat:
		return Concat(a[0], a[1])
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr:
		return BVBin(t.op, a[0], a[1])
	}
	return nil
}

// proveFPAbs tries to prove pc => not neg by abstraction.
func proveFPAbs(sol *Solver, st *Stats, pc []*Term, neg *Term, tmo time.Duration) bool {
	f := &fpAbs{cone: map[*Term]bool{}, sub: map[*Term]*Term{}}
	var all []*Term
	any := false
	// the negated assertion's conjuncts serve as assumptions of the bound lemmas
	var split func(t *Term)
	ctx := append([]*Term(nil), pc...)
	split = func(t *Term) {
		if t.op == OAnd {
			split(t.a[0])
			split(t.a[1])
			return
		}
		if t.op == ONot && t.a[0].op == OOr {
			split(Not(t.a[0].a[0]))
			split(Not(t.a[0].a[1]))
			return
		}
		ctx = append(ctx, t)
	}
	split(neg)
	for _, c := range ctx {
		any = any || f.inCone(c)
		f.rewrite(c)
	}
	if !any {
		return false
	}
	// assumptions for the lemmas: conjuncts whose float part is not mixed into arithmetic
	var lem []*Term
	for _, c := range ctx {
		if f.pureFP(c) {
			lem = append(lem, c)
		}
	}
	// decide the float comparisons first; a decided one selects its branch everywhere
	known := map[*Term]*Term{}
	for _, l := range f.lv {
		if l.sort.K == KBool {
			if provedFP(sol, lem, l) {
				known[l] = tTrue
			} else if provedFP(sol, lem, Not(l)) {
				known[l] = tFalse
			}
		}
	}
	g := &fpAbs{cone: f.cone, sub: map[*Term]*Term{}, known: known}
	for i, c := range ctx {
		if f.pureFP(c) {
			continue
		}
		ctx[i] = g.rewrite(c)
	}
	f = &fpAbs{cone: map[*Term]bool{}, sub: map[*Term]*Term{}}
	for _, c := range ctx {
		f.inCone(c)
		f.rewrite(c)
	}
	exact := map[*Term]*Term{}
	var lows []*Term
	for _, l := range f.lv {
		v := f.sub[l]
		exact[l] = v
		if l.sort.K != KBV {
			continue
		}
		if p := pruneIte(sol, lem, l); p != l {
			if p.op == OConst {
				exact[l] = p
				continue
			}
			// the pruned term equals l under the path condition
			lows = append(lows, f.boundsOf(sol, lem, p, l, exact)...)
			continue
		}
		lows = append(lows, f.boundsOf(sol, lem, l, l, exact)...)
	}
	f.sub = exact
	f.lv = nil
	all = lows
	for _, c := range ctx {
		all = append(all, f.rewrite(c))
	}
	if os.Getenv("GOSYM_DUMP") != "" {
		dumpQuery(all, tTrue)
	}
	r, _ := sol.check(all, nil, false)
	if r == RUnknown {
		r, _, _ = oneShot(st, all, nil, tmo)
	}
	return r == RUnsat
}

// pruneIte follows the choices the path condition decides.
func pruneIte(sol *Solver, lem []*Term, l *Term) *Term {
	for l.op == OIte {
		switch {
		case provedFP(sol, lem, l.a[0]):
			l = l.a[1]
		case provedFP(sol, lem, Not(l.a[0])):
			l = l.a[2]
		default:
			return l
		}
	}
	return l
}

// boundsOf proves bounds of p (equal to leaf l) and narrows l's variable.
func (f *fpAbs) boundsOf(sol *Solver, lem []*Term, p, l *Term, exact map[*Term]*Term) (lows []*Term) {
	w := int(l.sort.W)
	for _, k := range []int{0, 1, 8, 16} {
		lim := uint64(1)<<uint(k) - 1
		if k >= w {
			break
		}
		if provedFP(sol, lem, ULe(p, C(lim, w))) {
			if k == 0 {
				exact[l] = C(0, w)
			} else {
				exact[l] = ZExt(V("fpabs!"+uitoa(l.id)+"@n", BV(k)), w)
			}
			break
		}
	}
	for _, lim := range []uint64{0xffff, 0xff, 1} {
		if lim <= mask(l.sort.W) && provedFP(sol, lem, ULe(C(lim, w), p)) {
			lows = append(lows, ULe(C(lim, w), exact[l]))
			break
		}
	}
	return lows
}

func provedFP(sol *Solver, pc []*Term, c *Term) bool {
	if c.isTrue() {
		return true
	}
	r, _ := sol.check(pc, Not(c), false)
	return r == RUnsat
}

// pureFP: the conjunct compares floats only (no arithmetic on converted values).
func (f *fpAbs) pureFP(t *Term) bool {
	if !f.inCone(t) {
		return true
	}
	if f.leaf(t) {
		return t.sort.K == KBool
	}
	switch t.op {
	case ONot, OAnd, OOr:
		for i := 0; i < int(t.n); i++ {
			if !f.pureFP(t.a[i]) {
				return false
			}
		}
		return true
	}
	return false
}
