package main

import (
	"math"
	"sync"
)

// Model is an assignment of the input variables (and of uninterpreted
// applications); missing entries read as zero.
type Model struct {
	mu    sync.Mutex
	vars  map[string]uint64
	uf    map[*Term]uint64
	memo  map[*Term]uint64
	hasUF bool
}

func newModel() *Model {
	return &Model{vars: map[string]uint64{}, uf: map[*Term]uint64{}, memo: map[*Term]uint64{}}
}

func (m *Model) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.eval(t)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m.vars[t.name] & mask(t.sort.W)
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := m.eval1(t)
	m.memo[t] = v
	return v
}

func (m *Model) eval1(t *Term) uint64 {
	switch t.op {
	case OUF:
		if v, ok := m.uf[t]; ok {
			return v
		}
		if t.name == "pow" {
			// the real function satisfies the contract
			x, y := math.Float64frombits(m.eval(t.a[0])), math.Float64frombits(m.eval(t.a[1]))
			return math.Float64bits(math.Pow(x, y))
		}
		return 0
	case OIte:
		if m.eval(t.a[0]) != 0 {
			return m.eval(t.a[1])
		}
		return m.eval(t.a[2])
	case OAnd:
		return b2u(m.eval(t.a[0]) != 0 && m.eval(t.a[1]) != 0)
	case OOr:
		return b2u(m.eval(t.a[0]) != 0 || m.eval(t.a[1]) != 0)
	}
	var x, y uint64
	x = m.eval(t.a[0])
	if t.n > 1 {
		y = m.eval(t.a[1])
	}
	a := t.a[0]
	w := a.sort.W
	switch t.op {
	case ONot:
		return x ^ 1
	case OEq:
		if a.sort.K == KFP && fpIsNaNBits(x, w) && fpIsNaNBits(y, w) {
			return 1
		}
		return b2u(x == y)
	case OBNot:
		return ^x & mask(w)
	case OULt:
		return b2u(x < y)
	case OULe:
		return b2u(x <= y)
	case OSLt:
		return b2u(signed(x, w) < signed(y, w))
	case OSLe:
		return b2u(signed(x, w) <= signed(y, w))
	case OZExt:
		return x
	case OSExt:
		return uint64(signed(x, w)) & mask(t.sort.W)
	case OExtract:
		return x >> t.k & mask(t.sort.W)
	case OConcat:
		return x<<t.a[1].sort.W | y
	case OFAdd, OFSub, OFMul, OFDiv, OFNeg, OFAbs, OFSqrt, OFRound:
		return foldF(t.op, t.k, w, x, y)
	case OFLt, OFLe, OFEq:
		return b2u(cmpF(t.op, f64of(&Term{val: x, sort: a.sort}), f64of(&Term{val: y, sort: a.sort})))
	case OFIsNaN:
		return b2u(fpIsNaNBits(x, w))
	case OFFromBits, OFToBits:
		return x
	case OFToFP:
		return fbits(f64of(&Term{val: x, sort: a.sort}), t.sort.W)
	case OSToF, OUToF:
		return foldItoF(t.op, x, w, t.sort.W)
	case OFToS:
		return foldFtoI(f64of(&Term{val: x, sort: a.sort}), t.sort.W)
	}
	v, ok := foldBV(t.op, x, y, w)
	if !ok {
		panic("eval op")
	}
	return v
}

// realUF returns a model without assumed function values when the input values
// alone already satisfy the constraints under the real functions.
func (m *Model) realUF(pc []*Term, extra *Term) *Model {
	if m == nil || !m.hasUF {
		return m
	}
	n := newModel()
	n.vars = m.vars
	for _, c := range pc {
		if n.Eval(c) == 0 {
			return m
		}
	}
	if extra != nil && n.Eval(extra) == 0 {
		return m
	}
	return n
}
