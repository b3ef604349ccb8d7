package main

// Hash-consed SMT terms: booleans, bit-vectors up to 64 bits and IEEE floats.

import (
	"fmt"
	"math"
	"math/bits"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OZExt
	OSExt
	OExtract // k = lo
	OConcat
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFRound // k = mode (0 floor,1 ceil,2 trunc)
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFFromBits
	OFToBits // only left when the argument is not a constant / FFromBits
	OFToFP
	OSToF
	OUToF
	OFToS // saturates to integer indefinite
	OFToU
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFP
)

type Sort struct {
	K Kind
	W uint8
}

var (
	BoolS = Sort{KBool, 1}
	FP32  = Sort{KFP, 32}
	FP64  = Sort{KFP, 64}
)

func BV(w int) Sort { return Sort{KBV, uint8(w)} }

type Term struct {
	id     uint64
	op     Op
	sort   Sort
	k      uint8 // extract lo / rounding mode
	a      [3]*Term
	n      uint8
	val    uint64 // constant bits
	name   string
	lo, hi uint64 // unsigned bounds for bit-vectors
	hard   bool   // holds multiplications or divisions
	arith  bool   // hard, or multiplies by a constant
}

type tkey struct {
	op      Op
	sort    Sort
	k       uint8
	a, b, c uint64
	val     uint64
	name    string
}

const nshard = 64

type shard struct {
	mu sync.Mutex
	m  map[tkey]*Term
}

var shards [nshard]shard
var termID uint64

func resetTerms() {
	for i := range shards {
		shards[i].m = map[tkey]*Term{}
	}
	tTrue = mk(Term{op: OConst, sort: BoolS, val: 1})
	tFalse = mk(Term{op: OConst, sort: BoolS, val: 0})
}

var tTrue, tFalse *Term

func init() { resetTerms() }

func mk(t Term) *Term {
	key := tkey{op: t.op, sort: t.sort, k: t.k, val: t.val, name: t.name}
	if t.a[0] != nil {
		key.a = t.a[0].id
	}
	if t.a[1] != nil {
		key.b = t.a[1].id
	}
	if t.a[2] != nil {
		key.c = t.a[2].id
	}
	h := uint64(key.op)*0x9E3779B97F4A7C15 ^ key.a*0xC2B2AE3D27D4EB4F ^ key.b*0x165667B19E3779F9 ^ key.c*0x27D4EB2F165667C5 ^ key.val*0x85EBCA77C2B2AE63 ^ uint64(len(key.name))<<7
	for i := 0; i < len(key.name); i++ {
		h = h*31 + uint64(key.name[i])
	}
	h ^= h >> 29
	s := &shards[(h>>5)%nshard]
	s.mu.Lock()
	if r, ok := s.m[key]; ok {
		s.mu.Unlock()
		return r
	}
	r := new(Term)
	*r = t
	for i := range r.a {
		if r.a[i] != nil {
			r.n = uint8(i + 1)
			r.hard = r.hard || r.a[i].hard
			r.arith = r.arith || r.a[i].arith
		}
	}
	switch r.op {
	case OMul:
		r.hard = r.hard || !r.a[0].isC() && !r.a[1].isC()
	case OUDiv, OSDiv, OURem, OSRem, OFAdd, OFSub, OFMul, OFDiv, OFSqrt:
		r.hard = true
	}
	if r.op == OMul && r.sort.W >= 16 && !(r.a[1].isC() && r.a[1].val&(r.a[1].val-1) == 0) {
		r.arith = true
	}
	r.arith = r.arith || r.hard
	r.bounds()
	r.id = atomic.AddUint64(&termID, 1)
	s.m[key] = r
	s.mu.Unlock()
	return r
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (t *Term) isC() bool    { return t.op == OConst }
func (t *Term) isTrue() bool { return t == tTrue }
func (t *Term) isFalse() bool {
	return t == tFalse
}

func signed(v uint64, w uint8) int64 {
	s := 64 - w
	return int64(v<<s) >> s
}

func (t *Term) bounds() {
	if t.sort.K != KBV {
		return
	}
	m := mask(t.sort.W)
	t.lo, t.hi = 0, m
	a, b := t.a[0], t.a[1]
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
	case OZExt:
		t.lo, t.hi = a.lo, a.hi
	case OSExt:
		if a.hi < 1<<(a.sort.W-1) {
			t.lo, t.hi = a.lo, a.hi
		}
	case OAdd:
		h, c := bits.Add64(a.hi, b.hi, 0)
		if c == 0 && h <= m {
			t.lo, t.hi = a.lo+b.lo, h
		}
	case OSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		hh, h := bits.Mul64(a.hi, b.hi)
		if hh == 0 && h <= m {
			t.lo, t.hi = a.lo*b.lo, h
		}
	case OUDiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OURem:
		if b.lo > 0 {
			t.lo = 0
			t.hi = b.hi - 1
			if a.hi < t.hi {
				t.hi = a.hi
			}
		}
	case OSDiv:
		if b.lo > 0 && b.hi>>(t.sort.W-1) == 0 && a.hi>>(t.sort.W-1) == 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OBAnd:
		t.hi = a.hi
		if b.hi < t.hi {
			t.hi = b.hi
		}
	case OBOr:
		t.lo = a.lo
		if b.lo > t.lo {
			t.lo = b.lo
		}
		t.hi = mask(uint8(bits.Len64(a.hi | b.hi)))
	case OBXor:
		t.hi = mask(uint8(bits.Len64(a.hi | b.hi)))
	case OShl:
		if b.isC() && b.val < uint64(t.sort.W) {
			if bits.Len64(a.hi)+int(b.val) <= int(t.sort.W) {
				t.lo, t.hi = a.lo<<b.val, a.hi<<b.val
			}
		}
	case OLShr:
		if b.isC() {
			if b.val < 64 {
				t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
			} else {
				t.lo, t.hi = 0, 0
			}
		} else {
			t.hi = a.hi
		}
	case OAShr:
		if b.isC() && a.hi>>(t.sort.W-1) == 0 && b.val < 64 {
			t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
		}
	case OIte:
		xl, xh := refine(t.a[0], true, t.a[1], 3)
		yl, yh := refine(t.a[0], false, t.a[2], 3)
		if xl > xh { // the branch cannot be taken
			xl, xh = yl, yh
		} else if yl > yh {
			yl, yh = xl, xh
		}
		t.lo, t.hi = xl, xh
		if yl < t.lo {
			t.lo = yl
		}
		if yh > t.hi {
			t.hi = yh
		}
		if t.lo > t.hi {
			t.lo, t.hi = 0, m
		}
	case OExtract:
		if t.k == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		} else if t.k > 0 && a.hi>>t.k <= m {
			t.lo, t.hi = a.lo>>t.k, a.hi>>t.k
		}
	case OConcat:
		t.lo, t.hi = a.lo<<b.sort.W|b.lo, a.hi<<b.sort.W|b.hi
	}
}

// refine gives bounds of t where c has the given truth value.
func refine(c *Term, val bool, t *Term, d int) (uint64, uint64) {
	lo, hi := t.lo, t.hi
	for c.op == ONot {
		c, val = c.a[0], !val
	}
	if d == 0 || lo == hi {
		return lo, hi
	}
	core := func(x *Term) *Term {
		for x.op == OZExt {
			x = x.a[0]
		}
		return x
	}
	switch c.op {
	case OAnd, OOr:
		if (c.op == OAnd) == val {
			for i := 0; i < 2; i++ {
				l, h := refine(c.a[i], val, t, d-1)
				if l > lo {
					lo = l
				}
				if h < hi {
					hi = h
				}
			}
		}
	case OEq:
		k, x := c.a[0], c.a[1]
		if x.isC() {
			k, x = x, k
		}
		if k.isC() && k.sort.K == KBV && core(x) == core(t) {
			if val {
				return k.val, k.val
			}
			if k.val == lo {
				lo++
			}
			if k.val == hi {
				hi--
			}
		}
	case OULt:
		a, b := c.a[0], c.a[1]
		if b.isC() && core(a) == core(t) {
			if val && b.val > 0 && b.val-1 < hi {
				hi = b.val - 1
			}
			if !val && b.val > lo {
				lo = b.val
			}
		}
		if a.isC() && core(b) == core(t) {
			if val && a.val+1 > lo {
				lo = a.val + 1
			}
			if !val && a.val < hi {
				hi = a.val
			}
		}
	}
	return lo, hi
}

// under simplifies the choices in t knowing that c has the given truth value.
func under(t, c *Term, val bool, d int) *Term {
	if d == 0 || t.n == 0 {
		return t
	}
	if t.sort.K == KBool {
		if t == c {
			return CB(val)
		}
		switch t.op {
		case ONot:
			return Not(under(t.a[0], c, val, d))
		case OAnd, OOr:
			x, y := under(t.a[0], c, val, d-1), under(t.a[1], c, val, d-1)
			if x == t.a[0] && y == t.a[1] {
				return t
			}
			if t.op == OAnd {
				return And(x, y)
			}
			return Or(x, y)
		}
		if t.n == 2 && c.n == 2 && t.a[1].sort.K == KBV {
			// comparisons of the same value
			if t.op == OEq || t.op == OULt {
				for i := 0; i < 2; i++ {
					k, x := t.a[i], t.a[1-i]
					if !k.isC() {
						continue
					}
					l, h := refine(c, val, x, 2)
					if l == x.lo && h == x.hi || l > h {
						continue
					}
					switch {
					case t.op == OEq && (k.val < l || k.val > h):
						return tFalse
					case t.op == OEq && l == h && l == k.val:
						return tTrue
					case t.op == OULt && i == 0: // k < x
						if l > k.val {
							return tTrue
						} else if h <= k.val {
							return tFalse
						}
					case t.op == OULt && i == 1: // x < k
						if h < k.val {
							return tTrue
						} else if l >= k.val {
							return tFalse
						}
					}
				}
			}
		}
		return t
	}
	switch t.op {
	case OIte, OAdd, OSub, OMul, OUDiv, OURem, OZExt, OSExt, OExtract, OConcat, OSDiv, OSRem:
	default:
		return t
	}
	var a [3]*Term
	same := true
	for i := 0; i < int(t.n); i++ {
		a[i] = under(t.a[i], c, val, d-1)
		same = same && a[i] == t.a[i]
	}
	if same {
		return t
	}
	return rebuild(t, a)
}

// ---- constructors ----

func C(v uint64, w int) *Term { return mk(Term{op: OConst, sort: BV(w), val: v & mask(uint8(w))}) }
func CI(v int64, w int) *Term { return C(uint64(v), w) }
func CB(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func CF(bits uint64, s Sort) *Term { return mk(Term{op: OConst, sort: s, val: bits}) }
func V(name string, s Sort) *Term  { return mk(Term{op: OVar, sort: s, name: name}) }
func UF(name string, s Sort, a, b *Term) *Term {
	return mk(Term{op: OUF, sort: s, name: name, a: [3]*Term{a, b}})
}

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == ONot:
		return a.a[0]
	case a.op == OULt: // !(x<y) = y<=x
		return ULe(a.a[1], a.a[0])
	case a.op == OULe:
		return ULt(a.a[1], a.a[0])
	case a.op == OSLt:
		return SLe(a.a[1], a.a[0])
	case a.op == OSLe:
		return SLt(a.a[1], a.a[0])
	}
	return mk(Term{op: ONot, sort: BoolS, a: [3]*Term{a}})
}

func And(a, b *Term) *Term {
	switch {
	case a == tFalse || b == tFalse:
		return tFalse
	case a == tTrue:
		return b
	case b == tTrue, a == b:
		return a
	case Not(a) == b:
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OAnd, sort: BoolS, a: [3]*Term{a, b}})
}

func Or(a, b *Term) *Term {
	switch {
	case a == tTrue || b == tTrue:
		return tTrue
	case a == tFalse:
		return b
	case b == tFalse, a == b:
		return a
	case Not(a) == b:
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OOr, sort: BoolS, a: [3]*Term{a, b}})
}

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %v %v", a.sort, b.sort))
	}
	if a == b {
		return tTrue
	}
	if a.isC() && b.isC() {
		if a.sort.K == KFP {
			return CB(fpSame(a, b))
		}
		return tFalse
	}
	if a.sort.K == KBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if a.sort.K == KBV {
		if a.hi < b.lo || b.hi < a.lo {
			return tFalse
		}
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			switch a.op {
			case OZExt:
				return Eq(a.a[0], C(b.val, int(a.a[0].sort.W)))
			case OIte:
				if a.a[1].isC() || a.a[2].isC() {
					return Ite(a.a[0], Eq(a.a[1], b), Eq(a.a[2], b))
				}
			case OAdd:
				if a.a[1].isC() {
					return Eq(a.a[0], C(b.val-a.a[1].val, int(a.sort.W)))
				}
			case OBXor:
				if a.a[1].isC() {
					return Eq(a.a[0], C(b.val^a.a[1].val, int(a.sort.W)))
				}
			case OBNot:
				return Eq(a.a[0], C(^b.val, int(a.sort.W)))
			case OConcat:
				w := a.a[1].sort.W
				return And(Eq(a.a[0], C(b.val>>w, int(a.a[0].sort.W))), Eq(a.a[1], C(b.val, int(w))))
			}
		} else if a.op == OZExt && b.op == OZExt {
			if a.a[0].sort == b.a[0].sort {
				return Eq(a.a[0], b.a[0])
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OEq, sort: BoolS, a: [3]*Term{a, b}})
}

func fpIsNaNBits(v uint64, w uint8) bool {
	if w == 32 {
		return math.IsNaN(float64(math.Float32frombits(uint32(v))))
	}
	return math.IsNaN(math.Float64frombits(v))
}
func fpSame(a, b *Term) bool {
	if fpIsNaNBits(a.val, a.sort.W) && fpIsNaNBits(b.val, b.sort.W) {
		return true
	}
	return a.val == b.val
}

func Ite(c, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sorts %v %v", a.sort, b.sort))
	}
	switch {
	case c == tTrue:
		return a
	case c == tFalse:
		return b
	case a == b:
		return a
	}
	if c.op == ONot {
		return Ite(c.a[0], b, a)
	}
	if a.sort.K == KBool {
		switch {
		case a == tTrue:
			return Or(c, b)
		case a == tFalse:
			return And(Not(c), b)
		case b == tTrue:
			return Or(Not(c), a)
		case b == tFalse:
			return And(c, a)
		}
	}
	if a.hard {
		a = under(a, c, true, 5)
	}
	if b.hard {
		b = under(b, c, false, 5)
	}
	if a == b {
		return a
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	return mk(Term{op: OIte, sort: a.sort, a: [3]*Term{c, a, b}})
}

func bin(op Op, a, b *Term) *Term {
	return mk(Term{op: op, sort: a.sort, a: [3]*Term{a, b}})
}

func foldBV(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		x, y := signed(a, w), signed(b, w)
		if y == 0 {
			if x < 0 {
				return 1, true
			}
			return m, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSRem:
		x, y := signed(a, w), signed(b, w)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return a << b & m, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(signed(a, w)>>b) & m, true
	}
	return 0, false
}

// BVBin builds a binary bit-vector operation.
func BVBin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("BVBin %d sorts %v %v", op, a.sort, b.sort))
	}
	w := a.sort.W
	iw := int(w)
	if a.isC() && b.isC() {
		if v, ok := foldBV(op, a.val, b.val, w); ok {
			return C(v, iw)
		}
	}
	m := mask(w)
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor: // commutative
		if a.isC() || (!b.isC() && a.id > b.id) {
			a, b = b, a
		}
	}
	bc := b.isC()
	switch op {
	case OAdd:
		if bc {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isC() {
				return BVBin(OAdd, a.a[0], C(a.a[1].val+b.val, iw))
			}
			if a.op == OSub && a.a[0].isC() {
				return BVBin(OSub, C(a.a[0].val+b.val, iw), a.a[1])
			}
			if a.op == OIte && a.a[1].isC() && a.a[2].isC() {
				return Ite(a.a[0], BVBin(op, a.a[1], b), BVBin(op, a.a[2], b))
			}
		}
		// (x+c)+y -> (x+y)+c
		if a.op == OAdd && a.a[1].isC() {
			return BVBin(OAdd, BVBin(OAdd, a.a[0], b), a.a[1])
		}
		if b.op == OAdd && b.a[1].isC() {
			return BVBin(OAdd, BVBin(OAdd, a, b.a[0]), b.a[1])
		}
		if a.op == OSub && a.a[1] == b {
			return a.a[0]
		}
		if b.op == OSub && b.a[1] == a {
			return b.a[0]
		}
	case OSub:
		if a == b {
			return C(0, iw)
		}
		if bc {
			return BVBin(OAdd, a, C(-b.val, iw))
		}
		if a.op == OAdd {
			if a.a[0] == b {
				return a.a[1]
			}
			if a.a[1] == b {
				return a.a[0]
			}
			if a.a[1].isC() {
				return BVBin(OAdd, BVBin(OSub, a.a[0], b), a.a[1])
			}
		}
		if b.op == OAdd && b.a[1].isC() {
			return BVBin(OAdd, BVBin(OSub, a, b.a[0]), C(-b.a[1].val, iw))
		}
		if b.op == OAdd {
			if b.a[0] == a {
				return BVBin(OSub, C(0, iw), b.a[1])
			}
			if b.a[1] == a {
				return BVBin(OSub, C(0, iw), b.a[0])
			}
		}
	case OMul:
		if bc {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if a.op == OMul && a.a[1].isC() {
				return BVBin(OMul, a.a[0], C(a.a[1].val*b.val, iw))
			}
			if bits.OnesCount64(b.val) == 1 {
				return BVBin(OShl, a, C(uint64(bits.TrailingZeros64(b.val)), iw))
			}
		}
		// move constants outwards so that x*c*y and x*y*c coincide
		if a.op == OMul && a.a[1].isC() {
			return BVBin(OMul, BVBin(OMul, a.a[0], b), a.a[1])
		}
		if b.op == OMul && b.a[1].isC() {
			return BVBin(OMul, BVBin(OMul, a, b.a[0]), b.a[1])
		}
	case OUDiv, OSDiv:
		if bc && b.val == 1 {
			return a
		}
		if op == OSDiv && a.hi>>(w-1) == 0 && b.hi>>(w-1) == 0 {
			return BVBin(OUDiv, a, b)
		}
		if op == OUDiv {
			if b.lo > 0 && a.hi < b.lo {
				return C(0, iw)
			}
			if bc && bits.OnesCount64(b.val) == 1 {
				return BVBin(OLShr, a, C(uint64(bits.TrailingZeros64(b.val)), iw))
			}
			// (x*c)/c without overflow
			if bc && a.op == OMul && a.a[1].isC() && b.val != 0 && a.a[1].val%b.val == 0 {
				if hh, l := bits.Mul64(a.a[0].hi, a.a[1].val); hh == 0 && l <= m {
					return BVBin(OMul, a.a[0], C(a.a[1].val/b.val, iw))
				}
			}
		}
	case OURem, OSRem:
		if bc && b.val == 1 {
			return C(0, iw)
		}
		if op == OSRem && a.hi>>(w-1) == 0 && b.hi>>(w-1) == 0 {
			return BVBin(OURem, a, b)
		}
		if op == OURem {
			if b.lo > 0 && a.hi < b.lo {
				return a
			}
			if bc && bits.OnesCount64(b.val) == 1 {
				return BVBin(OBAnd, a, C(b.val-1, iw))
			}
		}
	case OBAnd:
		if a == b {
			return a
		}
		if bc {
			if b.val == 0 {
				return b
			}
			if b.val == m {
				return a
			}
			if bits.OnesCount64(b.val+1) <= 1 { // low mask
				n := bits.Len64(b.val)
				if a.hi <= b.val {
					return a
				}
				return ZExt(Extract(a, n-1, 0), iw)
			}
			if a.op == OBAnd && a.a[1].isC() {
				return BVBin(OBAnd, a.a[0], C(a.a[1].val&b.val, iw))
			}
		}
	case OBOr:
		if a == b {
			return a
		}
		if bc {
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return b
			}
		}
		if r := orConcat(a, b); r != nil {
			return r
		}
		if r := orConcat(b, a); r != nil {
			return r
		}
	case OBXor:
		if a == b {
			return C(0, iw)
		}
		if bc {
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return BVNot(a)
			}
			if a.op == OBXor && a.a[1].isC() {
				return BVBin(OBXor, a.a[0], C(a.a[1].val^b.val, iw))
			}
		}
	case OShl:
		if bc {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				return C(0, iw)
			}
			if a.op == OShl && a.a[1].isC() {
				return BVBin(OShl, a.a[0], C(satAdd(a.a[1].val, b.val), iw))
			}
		}
	case OLShr:
		if bc {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) || (b.val < 64 && a.hi>>b.val == 0) {
				return C(0, iw)
			}
			if a.op == OLShr && a.a[1].isC() {
				return BVBin(OLShr, a.a[0], C(satAdd(a.a[1].val, b.val), iw))
			}
			return ZExt(Extract(a, iw-1, int(b.val)), iw)
		}
	case OAShr:
		if bc && b.val == 0 {
			return a
		}
		if a.hi>>(w-1) == 0 {
			return BVBin(OLShr, a, b)
		}
	}
	return bin(op, a, b)
}

func satAdd(a, b uint64) uint64 {
	s, c := bits.Add64(a, b, 0)
	if c != 0 {
		return ^uint64(0)
	}
	return s
}

// orConcat recognises (x << k) | y with y < 2^k as a concatenation.
func orConcat(a, b *Term) *Term {
	w := int(a.sort.W)
	if a.op == OConcat && a.a[1].isC() && a.a[1].val == 0 { // concat(x, 0_k) | y
		k := int(a.a[1].sort.W)
		if bits.Len64(b.hi) <= k {
			return Concat(a.a[0], Extract(b, k-1, 0))
		}
	}
	if a.op == OShl && a.a[1].isC() {
		k := int(a.a[1].val)
		if k > 0 && k < w && bits.Len64(b.hi) <= k {
			return Concat(Extract(a.a[0], w-k-1, 0), Extract(b, k-1, 0))
		}
	}
	if a.op == OZExt {
		x := a.a[0]
		if x.op == OConcat && x.a[1].isC() && x.a[1].val == 0 {
			k := int(x.a[1].sort.W)
			if bits.Len64(b.hi) <= k {
				return ZExt(Concat(x.a[0], Extract(b, k-1, 0)), w)
			}
		}
	}
	return nil
}

func BVNot(a *Term) *Term {
	if a.isC() {
		return C(^a.val, int(a.sort.W))
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return mk(Term{op: OBNot, sort: a.sort, a: [3]*Term{a}})
}
func Neg(a *Term) *Term { return BVBin(OSub, C(0, int(a.sort.W)), a) }

func ULt(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return CB(a.val < b.val)
	}
	if a == b || a.lo >= b.hi {
		return tFalse
	}
	if a.hi < b.lo {
		return tTrue
	}
	if leFact(b, a, 6) {
		return tFalse
	}
	if b.isC() && b.val == 1 {
		return Eq(a, C(0, int(a.sort.W)))
	}
	if a.op == OZExt && b.isC() { // b within range, else decided above
		return ULt(a.a[0], C(b.val, int(a.a[0].sort.W)))
	}
	if b.op == OZExt && a.isC() {
		return ULt(C(a.val, int(b.a[0].sort.W)), b.a[0])
	}
	if a.op == OZExt && b.op == OZExt {
		x, y := a.a[0], b.a[0]
		if x.sort.W < y.sort.W {
			x = ZExt(x, int(y.sort.W))
		} else if y.sort.W < x.sort.W {
			y = ZExt(y, int(x.sort.W))
		}
		return ULt(x, y)
	}
	return mk(Term{op: OULt, sort: BoolS, a: [3]*Term{a, b}})
}

// leFact recognises unsigned a <= b from the shape of the terms: products
// divided by a bound of one factor (premultiplication), shifts, choices.
func leFact(a, b *Term, d int) bool {
	if a.hi <= b.lo {
		return true
	}
	if d == 0 {
		return false
	}
	for a.op == OZExt {
		a = a.a[0]
	}
	for b.op == OZExt {
		b = b.a[0]
	}
	if a == b {
		return true
	}
	if a.op == OIte && b.op == OIte && a.a[0] == b.a[0] {
		return leFact(a.a[1], b.a[1], d-1) && leFact(a.a[2], b.a[2], d-1)
	}
	switch a.op {
	case OIte:
		return leFact(a.a[1], b, d-1) && leFact(a.a[2], b, d-1)
	case OUDiv:
		if a.a[1].lo > 0 && leFact(a.a[0], b, d-1) {
			return true
		}
		if m := a.a[0]; m.op == OMul {
			p, q := m.a[0], m.a[1]
			if hh, l := bits.Mul64(p.hi, q.hi); hh == 0 && l <= mask(m.sort.W) {
				if p.hi <= a.a[1].lo && leFact(q, b, d-1) || q.hi <= a.a[1].lo && leFact(p, b, d-1) {
					return true
				}
			}
		}
	case OLShr:
		if leFact(a.a[0], b, d-1) {
			return true
		}
	case OURem:
		if leFact(a.a[0], b, d-1) {
			return true
		}
	case OBAnd:
		if leFact(a.a[0], b, d-1) || leFact(a.a[1], b, d-1) {
			return true
		}
	}
	if b.op == OIte {
		return leFact(a, b.a[1], d-1) && leFact(a, b.a[2], d-1)
	}
	return false
}

func ULe(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return CB(a.val <= b.val)
	}
	if a == b || a.hi <= b.lo {
		return tTrue
	}
	if a.lo > b.hi {
		return tFalse
	}
	if leFact(a, b, 6) {
		return tTrue
	}
	if b.isC() {
		return ULt(a, C(b.val+1, int(a.sort.W)))
	}
	if a.isC() && a.val == 1 {
		return Not(Eq(b, C(0, int(a.sort.W))))
	}
	if a.isC() { // a.val >= 1 here
		return ULt(C(a.val-1, int(a.sort.W)), b)
	}
	if a.op == OZExt && b.op == OZExt {
		x, y := a.a[0], b.a[0]
		if x.sort.W < y.sort.W {
			x = ZExt(x, int(y.sort.W))
		} else if y.sort.W < x.sort.W {
			y = ZExt(y, int(x.sort.W))
		}
		return ULe(x, y)
	}
	return mk(Term{op: OULe, sort: BoolS, a: [3]*Term{a, b}})
}

func sbounds(t *Term) (int64, int64) {
	w := t.sort.W
	if t.hi>>(w-1) == 0 {
		return int64(t.lo), int64(t.hi)
	}
	if t.lo>>(w-1) == 1 {
		return signed(t.lo, w), signed(t.hi, w)
	}
	if t.op == OSExt {
		return sbounds(t.a[0])
	}
	if t.op == OAdd && t.a[1].isC() {
		l, h := sbounds(t.a[0])
		c := signed(t.a[1].val, w)
		// keep only if no wrap possible within width
		lim := int64(1)<<(w-1) - 1
		if w == 64 {
			lim = math.MaxInt64
		}
		nl, nh := l+c, h+c
		if (c >= 0) == (nl >= l) && (c >= 0) == (nh >= h) && nl >= -lim-1 && nh <= lim {
			return nl, nh
		}
	}
	if t.op == OSub {
		l1, h1 := sbounds(t.a[0])
		l2, h2 := sbounds(t.a[1])
		if w <= 32 || (abs64(l1) < 1<<61 && abs64(h1) < 1<<61 && abs64(l2) < 1<<61 && abs64(h2) < 1<<61) {
			lim := int64(1)<<(w-1) - 1
			if w == 64 {
				lim = math.MaxInt64
			}
			nl, nh := l1-h2, h1-l2
			if nl >= -lim-1 && nh <= lim {
				return nl, nh
			}
		}
	}
	if t.op == OIte {
		l1, h1 := sbounds(t.a[1])
		l2, h2 := sbounds(t.a[2])
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	}
	if w == 64 {
		return math.MinInt64, math.MaxInt64
	}
	return -(int64(1) << (w - 1)), int64(1)<<(w-1) - 1
}
func abs64(x int64) int64 {
	if x < 0 {
		if x == math.MinInt64 {
			return math.MaxInt64
		}
		return -x
	}
	return x
}

func SLt(a, b *Term) *Term {
	w := a.sort.W
	if a.isC() && b.isC() {
		return CB(signed(a.val, w) < signed(b.val, w))
	}
	if a == b {
		return tFalse
	}
	al, ah := sbounds(a)
	bl, bh := sbounds(b)
	if ah < bl {
		return tTrue
	}
	if al >= bh {
		return tFalse
	}
	if al >= 0 && bl >= 0 {
		return ULt(a, b)
	}
	return mk(Term{op: OSLt, sort: BoolS, a: [3]*Term{a, b}})
}
func SLe(a, b *Term) *Term {
	w := a.sort.W
	if a.isC() && b.isC() {
		return CB(signed(a.val, w) <= signed(b.val, w))
	}
	if a == b {
		return tTrue
	}
	al, ah := sbounds(a)
	bl, bh := sbounds(b)
	if ah <= bl {
		return tTrue
	}
	if al > bh {
		return tFalse
	}
	if al >= 0 && bl >= 0 {
		return ULe(a, b)
	}
	return mk(Term{op: OSLe, sort: BoolS, a: [3]*Term{a, b}})
}

func ZExt(a *Term, w int) *Term {
	if int(a.sort.W) == w {
		return a
	}
	if a.isC() {
		return C(a.val, w)
	}
	if a.op == OZExt {
		return ZExt(a.a[0], w)
	}
	if a.op == OConcat && a.a[0].isC() && a.a[0].val == 0 {
		return ZExt(a.a[1], w)
	}
	return mk(Term{op: OZExt, sort: BV(w), a: [3]*Term{a}})
}
func SExt(a *Term, w int) *Term {
	if int(a.sort.W) == w {
		return a
	}
	if a.isC() {
		return C(uint64(signed(a.val, a.sort.W)), w)
	}
	if a.hi>>(a.sort.W-1) == 0 {
		return ZExt(a, w)
	}
	return mk(Term{op: OSExt, sort: BV(w), a: [3]*Term{a}})
}
func Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == int(a.sort.W) {
		return a
	}
	if a.isC() {
		return C(a.val>>uint(lo), w)
	}
	switch a.op {
	case OExtract:
		return Extract(a.a[0], hi+int(a.k), lo+int(a.k))
	case OZExt, OSExt:
		x := a.a[0]
		xw := int(x.sort.W)
		if hi < xw {
			return Extract(x, hi, lo)
		}
		if a.op == OZExt {
			if lo >= xw {
				return C(0, w)
			}
			return ZExt(Extract(x, xw-1, lo), w)
		}
		if lo == 0 {
			return SExt(x, w)
		}
	case OConcat:
		lw := int(a.a[1].sort.W)
		if hi < lw {
			return Extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return Extract(a.a[0], hi-lw, lo-lw)
		}
		return Concat(Extract(a.a[0], hi-lw, 0), Extract(a.a[1], lw-1, lo))
	case OBAnd, OBOr, OBXor:
		return BVBin(a.op, Extract(a.a[0], hi, lo), Extract(a.a[1], hi, lo))
	case OBNot:
		return BVNot(Extract(a.a[0], hi, lo))
	case OAdd, OSub, OMul:
		if a.op == OMul && a.sort.W >= 16 {
			// an 8-bit value doubled to 16 bits
			x, y := a.a[0], a.a[1]
			if x.isC() {
				x, y = y, x
			}
			if y.isC() && y.val == 0x101 && x.op == OZExt && x.a[0].sort.W == 8 {
				v := x.a[0]
				if hi < 8 {
					return Extract(v, hi, lo)
				}
				if lo >= 16 {
					return C(0, w)
				}
				if lo >= 8 {
					return ZExt(Extract(v, min(hi, 15)-8, lo-8), w)
				}
			}
		}
		if lo == 0 {
			x, y := a.a[0], a.a[1]
			if narrowable(x, w) && narrowable(y, w) {
				return BVBin(a.op, Extract(x, hi, 0), Extract(y, hi, 0))
			}
		}
	case OIte:
		if a.a[1].isC() || a.a[2].isC() {
			return Ite(a.a[0], Extract(a.a[1], hi, lo), Extract(a.a[2], hi, lo))
		}
	case OShl:
		if a.a[1].isC() {
			k := int(a.a[1].val)
			if lo >= k {
				return Extract(a.a[0], hi-k, lo-k)
			}
			if hi < k {
				return C(0, w)
			}
		}
	}
	return mk(Term{op: OExtract, sort: BV(w), k: uint8(lo), a: [3]*Term{a}})
}
func narrowable(x *Term, w int) bool {
	switch x.op {
	case OConst, OZExt, OSExt, OAdd, OSub, OConcat, OExtract:
		return true
	}
	return false
}
func Concat(a, b *Term) *Term {
	w := int(a.sort.W) + int(b.sort.W)
	if a.isC() && b.isC() {
		return C(a.val<<b.sort.W|b.val, w)
	}
	if a.isC() && a.val == 0 {
		return ZExt(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] && int(a.k) == int(b.k)+int(b.sort.W) {
		return Extract(a.a[0], int(a.k)+int(a.sort.W)-1, int(b.k))
	}
	if a.op == OZExt {
		return ZExt(Concat(a.a[0], b), w)
	}
	return mk(Term{op: OConcat, sort: BV(w), a: [3]*Term{a, b}})
}

// ---- floating point ----

func f64of(t *Term) float64 {
	if t.sort.W == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}
func fbits(v float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(v)
}

func foldF(op Op, k uint8, w uint8, av, bv uint64) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(av)), math.Float32frombits(uint32(bv))
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		case OFNeg:
			r = -a
		case OFAbs:
			r = math.Float32frombits(uint32(av) &^ (1 << 31))
		case OFSqrt:
			r = float32(math.Sqrt(float64(a)))
		case OFRound:
			r = float32(roundMode(float64(a), k))
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(av), math.Float64frombits(bv)
	var r float64
	switch op {
	case OFAdd:
		r = a + b
	case OFSub:
		r = a - b
	case OFMul:
		r = a * b
	case OFDiv:
		r = a / b
	case OFNeg:
		r = -a
	case OFAbs:
		r = math.Abs(a)
	case OFSqrt:
		r = math.Sqrt(a)
	case OFRound:
		r = roundMode(a, k)
	}
	return math.Float64bits(r)
}
func roundMode(a float64, k uint8) float64 {
	switch k {
	case 0:
		return math.Floor(a)
	case 1:
		return math.Ceil(a)
	}
	return math.Trunc(a)
}

func FBin(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return CF(foldF(op, 0, a.sort.W, a.val, b.val), a.sort)
	}
	if op == OFAdd || op == OFMul {
		if a.id > b.id {
			a, b = b, a
		}
	}
	if op == OFMul {
		if b.isC() && f64of(b) == 1 {
			return a
		}
		if a.isC() && f64of(a) == 1 {
			return b
		}
	}
	if op == OFDiv && b.isC() && f64of(b) == 1 {
		return a
	}
	return bin(op, a, b)
}
func FUn(op Op, a *Term, k uint8) *Term {
	if a.isC() {
		return CF(foldF(op, k, a.sort.W, a.val, 0), a.sort)
	}
	return mk(Term{op: op, sort: a.sort, k: k, a: [3]*Term{a}})
}
func FCmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return CB(cmpF(op, f64of(a), f64of(b)))
	}
	return mk(Term{op: op, sort: BoolS, a: [3]*Term{a, b}})
}
func cmpF(op Op, x, y float64) bool {
	switch op {
	case OFLt:
		return x < y
	case OFLe:
		return x <= y
	}
	return x == y
}
func FIsNaN(a *Term) *Term {
	if a.isC() {
		return CB(fpIsNaNBits(a.val, a.sort.W))
	}
	if a.op == OUToF || a.op == OSToF {
		return tFalse
	}
	return mk(Term{op: OFIsNaN, sort: BoolS, a: [3]*Term{a}})
}
func FFromBits(a *Term) *Term {
	s := Sort{KFP, a.sort.W}
	if a.isC() {
		return CF(a.val, s)
	}
	if a.op == OFToBits {
		return a.a[0]
	}
	return mk(Term{op: OFFromBits, sort: s, a: [3]*Term{a}})
}
func FToBits(a *Term) *Term {
	if a.isC() {
		return C(a.val, int(a.sort.W))
	}
	if a.op == OFFromBits {
		return a.a[0]
	}
	return mk(Term{op: OFToBits, sort: BV(int(a.sort.W)), a: [3]*Term{a}})
}
func FToFP(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.isC() {
		return CF(fbits(f64of(a), s.W), s)
	}
	return mk(Term{op: OFToFP, sort: s, a: [3]*Term{a}})
}
func IntToF(a *Term, sgn bool, s Sort) *Term {
	op := OUToF
	if sgn {
		op = OSToF
		if a.hi>>(a.sort.W-1) == 0 {
			op = OUToF
		}
	}
	if op == OUToF && a.op == OZExt {
		a = a.a[0]
	}
	if a.isC() {
		return CF(foldItoF(op, a.val, a.sort.W, s.W), s)
	}
	return mk(Term{op: op, sort: s, a: [3]*Term{a}})
}
func foldItoF(op Op, v uint64, w uint8, fw uint8) uint64 {
	if op == OSToF {
		x := signed(v, w)
		if fw == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	}
	if fw == 32 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(float64(v))
}

// FToInt is the raw amd64 conversion to a signed integer of width w (32 or
// 64): truncation, integer indefinite (min int) when out of range.
func FToInt(a *Term, w int) *Term {
	if a.isC() {
		return C(foldFtoI(f64of(a), uint8(w)), w)
	}
	return mk(Term{op: OFToS, sort: BV(w), a: [3]*Term{a}})
}
func foldFtoI(x float64, w uint8) uint64 {
	lim := math.Ldexp(1, int(w)-1)
	if math.IsNaN(x) || x >= lim || x <= -lim-1 || (w == 64 && x < -lim) {
		return 1 << (w - 1)
	}
	return uint64(int64(x)) & mask(w)
}

func (t *Term) size() int {
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		for i := 0; i < int(x.n); i++ {
			f(x.a[i])
		}
	}
	f(t)
	return len(seen)
}
