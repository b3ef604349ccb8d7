package main

// Integer encoding of bit-vector queries. Every bit-vector term becomes an
// integer expression that equals it modulo 2^w, together with a range of that
// expression; reduction to the unsigned or the signed reading happens only
// where an operator needs it and the range does not settle it. Products of
// variables stay products, division by a term is a fresh quotient with its
// defining inequalities. Exact; an operator without an arithmetic meaning makes
// the translation fail.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"math/bits"
	"os"
	osexec "os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type ival struct {
	s      string
	lo, hi *big.Int
}

type intEmitter struct {
	b     strings.Builder
	name  map[*Term]ival
	vars  []*Term
	n     int
	bad   bool
	fname map[*Term]fval
	fixed map[*Term]bool      // truth of conditions in this cell
	rng   map[*Term][2]uint64 // ranges of variables in this cell
}

func bi(v uint64) *big.Int                 { return new(big.Int).SetUint64(v) }
func bi2(k int) *big.Int                   { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
func (v ival) within(lo, hi *big.Int) bool { return v.lo.Cmp(lo) >= 0 && v.hi.Cmp(hi) <= 0 }

func lit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func konst(v *big.Int) ival { return ival{lit(v), v, v} }

func (e *intEmitter) fresh() string { e.n++; return fmt.Sprintf("i%d", e.n) }

func (e *intEmitter) def(srt, s string) string {
	if !strings.HasPrefix(s, "(") || strings.HasPrefix(s, "(- ") && strings.Count(s, " ") == 1 {
		return s
	}
	n := e.fresh()
	fmt.Fprintf(&e.b, "(define-fun %s () %s %s)\n", n, srt, s)
	return n
}

func (e *intEmitter) bound(v ival) {
	fmt.Fprintf(&e.b, "(assert (and (<= %s %s) (<= %s %s)))\n", lit(v.lo), v.s, v.s, lit(v.hi))
}

func (e *intEmitter) fail(t *Term) {
	if splitDebug && !e.bad {
		fmt.Fprintln(os.Stderr, "no integer encoding of operator", opNames[t.op], t.op, t.sort)
	}
	e.bad = true
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q // Euclidean division; b > 0, so it is the floor
}

// norm is the representative of v modulo 2^w within [lo, lo+2^w).
func (e *intEmitter) norm(v ival, lo *big.Int, w int) ival {
	p := bi2(w)
	kmin := floorDiv(new(big.Int).Sub(v.lo, lo), p)
	kmax := floorDiv(new(big.Int).Sub(v.hi, lo), p)
	top := new(big.Int).Add(lo, new(big.Int).Sub(p, big.NewInt(1)))
	sh := func(k *big.Int) string {
		o := new(big.Int).Mul(k, p)
		switch o.Sign() {
		case 0:
			return v.s
		case 1:
			return "(- " + v.s + " " + o.String() + ")"
		}
		return "(+ " + v.s + " " + o.Neg(o).String() + ")"
	}
	if kmin.Cmp(kmax) == 0 {
		o := new(big.Int).Mul(kmin, p)
		l, h := new(big.Int).Sub(v.lo, o), new(big.Int).Sub(v.hi, o)
		if l.Cmp(h) == 0 {
			return konst(l)
		}
		return ival{e.def("Int", sh(kmin)), l, h}
	}
	if new(big.Int).Sub(kmax, kmin).Cmp(big.NewInt(1)) == 0 {
		cut := new(big.Int).Add(lo, new(big.Int).Mul(kmax, p))
		return ival{e.def("Int", fmt.Sprintf("(ite (>= %s %s) %s %s)", v.s, lit(cut), sh(kmax), sh(kmin))), lo, top}
	}
	if lo.Sign() == 0 {
		return ival{e.def("Int", fmt.Sprintf("(mod %s %s)", v.s, p)), lo, top}
	}
	return ival{e.def("Int", fmt.Sprintf("(+ (mod (- %s %s) %s) %s)", v.s, lit(lo), p, lit(lo))), lo, top}
}

func clip(v ival, lo, hi *big.Int) ival {
	if v.lo.Cmp(lo) < 0 {
		v.lo = lo
	}
	if v.hi.Cmp(hi) > 0 {
		v.hi = hi
	}
	if v.lo.Cmp(v.hi) > 0 { // the cell is empty; keep the range consistent
		v.hi = v.lo
	}
	return v
}

func (e *intEmitter) unsignedOf(t *Term) ival {
	v := e.norm(e.num(t), new(big.Int), int(t.sort.W))
	return clip(v, bi(t.lo), bi(t.hi))
}

func (e *intEmitter) signedOf(t *Term) ival {
	w := int(t.sort.W)
	v := e.norm(e.num(t), new(big.Int).Neg(bi2(w-1)), w)
	if t.hi>>(w-1) == 0 {
		v = clip(v, bi(t.lo), bi(t.hi))
	}
	return v
}

// boolean is the encoding of a truth value.
func (e *intEmitter) boolean(t *Term) string {
	if e.bad {
		return "true"
	}
	if t.op == OConst {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	if v, ok := e.fixed[t]; ok {
		return fmt.Sprint(v)
	}
	if n, ok := e.name[t]; ok {
		return n.s
	}
	s := ""
	switch t.op {
	case OVar:
		s = "|" + t.name + "|"
		e.vars = append(e.vars, t)
		fmt.Fprintf(&e.b, "(declare-const %s Bool)\n", s)
	case ONot:
		s = "(not " + e.boolean(t.a[0]) + ")"
	case OAnd:
		s = "(and " + e.boolean(t.a[0]) + " " + e.boolean(t.a[1]) + ")"
	case OOr:
		s = "(or " + e.boolean(t.a[0]) + " " + e.boolean(t.a[1]) + ")"
	case OIte:
		s = "(ite " + e.boolean(t.a[0]) + " " + e.boolean(t.a[1]) + " " + e.boolean(t.a[2]) + ")"
	case OEq:
		switch t.a[0].sort.K {
		case KBool:
			s = "(= " + e.boolean(t.a[0]) + " " + e.boolean(t.a[1]) + ")"
		case KBV:
			a, b := e.unsignedOf(t.a[0]), e.unsignedOf(t.a[1])
			if a.hi.Cmp(b.lo) < 0 || b.hi.Cmp(a.lo) < 0 {
				s = "false"
			} else {
				s = "(= " + a.s + " " + b.s + ")"
			}
		default:
			e.fail(t)
		}
	case OFLt, OFLe, OFEq:
		a, b := e.aligned(t.a[0], t.a[1])
		op := "<"
		if t.op == OFLe {
			op = "<="
		} else if t.op == OFEq {
			op = "="
		}
		s = "(" + op + " " + a.s + " " + b.s + ")"
	case OULt, OULe, OSLt, OSLe:
		if t.a[0].sort.K != KBV {
			e.fail(t)
			break
		}
		var a, b ival
		if t.op == OULt || t.op == OULe {
			a, b = e.unsignedOf(t.a[0]), e.unsignedOf(t.a[1])
		} else {
			a, b = e.signedOf(t.a[0]), e.signedOf(t.a[1])
		}
		strict := t.op == OULt || t.op == OSLt
		switch {
		case a.hi.Cmp(b.lo) < 0 || !strict && a.hi.Cmp(b.lo) == 0:
			s = "true"
		case a.lo.Cmp(b.hi) > 0 || strict && a.lo.Cmp(b.hi) == 0:
			s = "false"
		case strict:
			s = "(< " + a.s + " " + b.s + ")"
		default:
			s = "(<= " + a.s + " " + b.s + ")"
		}
	default:
		e.fail(t)
		return "true"
	}
	s = e.def("Bool", s)
	e.name[t] = ival{s: s}
	return s
}

func minMax(vs ...*big.Int) (lo, hi *big.Int) {
	lo, hi = vs[0], vs[0]
	for _, v := range vs {
		if v.Cmp(lo) < 0 {
			lo = v
		}
		if v.Cmp(hi) > 0 {
			hi = v
		}
	}
	return
}

// divBy is floor(a/k) for a constant k > 0.
func (e *intEmitter) divBy(a ival, k *big.Int) ival {
	l, h := floorDiv(a.lo, k), floorDiv(a.hi, k)
	if l.Cmp(h) == 0 {
		return konst(l)
	}
	return ival{fmt.Sprintf("(div %s %s)", a.s, k), l, h}
}

// num is an integer expression equal to t modulo 2^w.
func (e *intEmitter) num(t *Term) ival {
	zero := ival{"0", new(big.Int), new(big.Int)}
	if e.bad || t.sort.K != KBV {
		e.fail(t)
		return zero
	}
	if v, ok := e.name[t]; ok {
		return v
	}
	w := int(t.sort.W)
	if t.op == OConst {
		if w >= 16 {
			return konst(big.NewInt(signed(t.val, t.sort.W)))
		}
		return konst(bi(t.val))
	}
	var v ival
	bin := func(op string) (a, b ival) {
		a, b = e.num(t.a[0]), e.num(t.a[1])
		v.s = "(" + op + " " + a.s + " " + b.s + ")"
		return
	}
	switch t.op {
	case OVar:
		n := "|" + t.name + "|"
		e.vars = append(e.vars, t)
		v = ival{n, bi(t.lo), bi(t.hi)}
		if r, ok := e.rng[t]; ok {
			v = clip(v, bi(r[0]), bi(r[1]))
		}
		fmt.Fprintf(&e.b, "(declare-const %s Int)\n", n)
		e.bound(v)
		if v.lo.Cmp(v.hi) == 0 {
			v = konst(v.lo)
		}
		e.name[t] = v
		return v
	case OIte:
		if f, ok := e.fixed[t.a[0]]; ok {
			i := 2
			if f {
				i = 1
			}
			v = e.num(t.a[i])
			break
		}
		c := e.boolean(t.a[0])
		switch c {
		case "true":
			v = e.num(t.a[1])
		case "false":
			v = e.num(t.a[2])
		default:
			a, b := e.num(t.a[1]), e.num(t.a[2])
			v.s = "(ite " + c + " " + a.s + " " + b.s + ")"
			v.lo, v.hi = minMax(a.lo, b.lo, a.hi, b.hi)
		}
	case OFToS:
		a := e.fp(t.a[0])
		p := bi2(a.k)
		if a.k == 0 {
			v = a.ival
		} else if a.lo.Sign() >= 0 {
			v = e.divBy(a.ival, p)
		} else {
			q := func(x *big.Int) *big.Int { return new(big.Int).Quo(x, p) }
			v = ival{fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a.s, a.s, p, a.s, p), q(a.lo), q(a.hi)}
		}
		h := bi2(w - 1)
		if w < 64 || !v.within(new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))) {
			e.bad = true // out-of-range conversions depend on the implementation
		}
	case OAdd:
		a, b := bin("+")
		v.lo, v.hi = new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)
	case OSub:
		a, b := bin("-")
		v.lo, v.hi = new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo)
	case ONeg, OBNot:
		a := e.num(t.a[0])
		v = ival{"(- " + a.s + ")", new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo)}
		if t.op == OBNot {
			one := big.NewInt(1)
			v = ival{"(- (- " + a.s + ") 1)", v.lo.Sub(v.lo, one), v.hi.Sub(v.hi, one)}
		}
	case OMul:
		a, b := bin("*")
		p := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
		v.lo, v.hi = minMax(p(a.lo, b.lo), p(a.lo, b.hi), p(a.hi, b.lo), p(a.hi, b.hi))
		if a.lo.Cmp(a.hi) != 0 && b.lo.Cmp(b.hi) != 0 {
			v.s = e.def("Int", v.s)
			e.bound(v)
		}
	case OUDiv, OSDiv:
		var a, b ival
		if t.op == OUDiv {
			a, b = e.unsignedOf(t.a[0]), e.unsignedOf(t.a[1])
		} else {
			a, b = e.signedOf(t.a[0]), e.signedOf(t.a[1])
			if b.lo.Sign() <= 0 {
				// truncating division with a divisor of either sign, or zero
				mx := new(big.Int).Abs(a.lo)
				if h := new(big.Int).Abs(a.hi); h.Cmp(mx) > 0 {
					mx = h
				}
				if mx.Sign() == 0 {
					mx = big.NewInt(1)
				}
				if mx.BitLen() >= w {
					e.fail(t)
					return zero
				}
				n := e.fresh()
				v = ival{n, new(big.Int).Neg(mx), mx}
				fmt.Fprintf(&e.b, "(declare-const %s Int)\n", n)
				e.bound(v)
				ab := e.def("Int", fmt.Sprintf("(ite (>= %s 0) %s (- %s))", b.s, b.s, b.s))
				r := e.def("Int", fmt.Sprintf("(- %s (* %s %s))", a.s, b.s, n))
				fmt.Fprintf(&e.b, "(assert (ite (= %s 0) (= %s (ite (>= %s 0) (- 1) 1)) (ite (>= %s 0) (and (<= 0 %s) (< %s %s)) (and (< (- %s) %s) (<= %s 0)))))\n", b.s, n, a.s, a.s, r, r, ab, ab, r, r)
				break
			}
		}
		if b.lo.Sign() > 0 && b.lo.Cmp(b.hi) == 0 {
			if a.lo.Sign() >= 0 {
				v = e.divBy(a, b.lo)
			} else {
				q := func(x *big.Int) *big.Int { return new(big.Int).Quo(x, b.lo) }
				v = ival{fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a.s, a.s, b.lo, a.s, b.lo), q(a.lo), q(a.hi)}
			}
			break
		}
		if a.lo.Sign() < 0 {
			e.fail(t)
			return zero
		}
		n := e.fresh()
		fmt.Fprintf(&e.b, "(declare-const %s Int)\n", n)
		def := fmt.Sprintf("(and (<= (* %s %s) %s) (< (- %s (* %s %s)) %s))", b.s, n, a.s, a.s, b.s, n, b.s)
		if b.lo.Sign() > 0 {
			v = ival{n, floorDiv(a.lo, b.hi), floorDiv(a.hi, b.lo)}
		} else {
			v = ival{n, new(big.Int), bi(mask(t.sort.W))}
			def = fmt.Sprintf("(ite (= %s 0) (= %s %d) %s)", b.s, n, mask(t.sort.W), def)
		}
		if v.within(new(big.Int), bi(mask(t.sort.W))) {
			v = clip(v, bi(t.lo), bi(t.hi))
		}
		e.bound(v)
		fmt.Fprintf(&e.b, "(assert %s)\n", def)
	case OURem:
		b := e.unsignedOf(t.a[1])
		if b.lo.Sign() <= 0 || b.lo.Cmp(b.hi) != 0 {
			e.fail(t)
			return zero
		}
		a := e.unsignedOf(t.a[0])
		v = ival{fmt.Sprintf("(mod %s %s)", a.s, b.lo), new(big.Int), new(big.Int).Sub(b.lo, big.NewInt(1))}
	case OZExt:
		v = e.unsignedOf(t.a[0])
	case OSExt:
		v = e.signedOf(t.a[0])
	case OExtract:
		if t.k == 0 {
			v = e.num(t.a[0])
		} else {
			v = e.divBy(e.unsignedOf(t.a[0]), bi2(int(t.k)))
		}
	case OConcat:
		a, b := e.num(t.a[0]), e.unsignedOf(t.a[1])
		k := int(t.a[1].sort.W)
		p := bi2(k)
		v.s = fmt.Sprintf("(+ (* %s %s) %s)", p, a.s, b.s)
		v.lo = new(big.Int).Add(new(big.Int).Mul(a.lo, p), b.lo)
		v.hi = new(big.Int).Add(new(big.Int).Mul(a.hi, p), b.hi)
		if t.a[0] == t.a[1] && a.within(new(big.Int), bi(mask(t.a[0].sort.W))) {
			q := new(big.Int).Add(p, big.NewInt(1))
			v = ival{fmt.Sprintf("(* %s %s)", q, a.s), new(big.Int).Mul(a.lo, q), new(big.Int).Mul(a.hi, q)}
		}
	case OBAnd:
		for i := 0; i < 2; i++ {
			if k := t.a[i]; k.isC() && k.val&(k.val+1) == 0 {
				a := e.num(t.a[1-i])
				v = e.norm(a, new(big.Int), bits.Len64(k.val))
				break
			}
		}
		if v.s == "" {
			e.fail(t)
			return zero
		}
	case OShl, OLShr, OAShr:
		if !t.a[1].isC() || t.a[1].val >= uint64(w) {
			e.fail(t)
			return zero
		}
		p := bi2(int(t.a[1].val))
		switch t.op {
		case OShl:
			a := e.num(t.a[0])
			v = ival{fmt.Sprintf("(* %s %s)", p, a.s), new(big.Int).Mul(a.lo, p), new(big.Int).Mul(a.hi, p)}
		case OLShr:
			v = e.divBy(e.unsignedOf(t.a[0]), p)
		default:
			v = e.divBy(e.signedOf(t.a[0]), p)
		}
	default:
		e.fail(t)
		return zero
	}
	if e.bad {
		return zero
	}
	v.s = e.def("Int", v.s)
	// structural bounds are about the unsigned reading
	if v.within(new(big.Int), bi(mask(t.sort.W))) {
		v = clip(v, bi(t.lo), bi(t.hi))
	} else if h := bi2(w - 1); t.hi>>(w-1) == 0 && v.within(new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))) {
		v = clip(v, bi(t.lo), bi(t.hi))
	}
	if v.lo.Cmp(v.hi) == 0 {
		v = konst(v.lo)
	} else if new(big.Int).Sub(v.hi, v.lo).BitLen() > 100 {
		v = e.norm(v, new(big.Int), w)
	}
	e.name[t] = v
	return v
}

// fval is the floating-point number s/2^k, exactly representable over its whole range.
type fval struct {
	ival
	k int
}

func sigBits(s Sort) int {
	if s.W == 32 {
		return 24
	}
	return 53
}

// fp encodes a floating-point term whose value is exact (no rounding for any
// value in range); the sign of zero is not tracked.
func (e *intEmitter) fp(t *Term) fval {
	zero := fval{konst(new(big.Int)), 0}
	if e.bad || t.sort.K != KFP {
		e.fail(t)
		return zero
	}
	if v, ok := e.fname[t]; ok {
		return v
	}
	var v fval
	switch t.op {
	case OConst:
		f := f64of(t)
		if f == 0 {
			return zero
		}
		r := new(big.Rat)
		if r.SetFloat64(f) == nil || r.Denom().BitLen() > 60 || r.Num().BitLen() > 90 {
			e.fail(t)
			return zero
		}
		return fval{konst(new(big.Int).Set(r.Num())), r.Denom().BitLen() - 1}
	case OSToF:
		v = fval{e.signedOf(t.a[0]), 0}
	case OUToF:
		v = fval{e.unsignedOf(t.a[0]), 0}
	case OFToFP:
		v = e.fp(t.a[0])
	case OFNeg:
		a := e.fp(t.a[0])
		v = fval{ival{"(- " + a.s + ")", new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo)}, a.k}
	case OFAdd, OFSub:
		a, b := e.aligned(t.a[0], t.a[1])
		v.k = a.k
		if t.op == OFAdd {
			v.ival = ival{"(+ " + a.s + " " + b.s + ")", new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)}
		} else {
			v.ival = ival{"(- " + a.s + " " + b.s + ")", new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo)}
		}
	case OFMul:
		a, b := e.fp(t.a[0]), e.fp(t.a[1])
		p := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
		v.k = a.k + b.k
		v.s = "(* " + a.s + " " + b.s + ")"
		v.lo, v.hi = minMax(p(a.lo, b.lo), p(a.lo, b.hi), p(a.hi, b.lo), p(a.hi, b.hi))
	case OFDiv:
		a, b := e.fp(t.a[0]), e.fp(t.a[1])
		if b.k != 0 || b.lo.Sign() <= 0 || b.lo.Cmp(b.hi) != 0 || b.lo.BitLen()-1 != int(b.lo.TrailingZeroBits()) {
			e.fail(t)
			return zero
		}
		v = fval{a.ival, a.k + b.lo.BitLen() - 1}
	case OIte:
		if f, ok := e.fixed[t.a[0]]; ok {
			i := 2
			if f {
				i = 1
			}
			v = e.fp(t.a[i])
			break
		}
		c := e.boolean(t.a[0])
		switch c {
		case "true":
			v = e.fp(t.a[1])
		case "false":
			v = e.fp(t.a[2])
		default:
			a, b := e.aligned(t.a[1], t.a[2])
			v.k = a.k
			v.s = "(ite " + c + " " + a.s + " " + b.s + ")"
			v.lo, v.hi = minMax(a.lo, b.lo, a.hi, b.hi)
		}
	default:
		e.fail(t)
	}
	if e.bad || v.lo.BitLen() > sigBits(t.sort) || v.hi.BitLen() > sigBits(t.sort) || v.k > 100 {
		e.fail(t)
		return zero
	}
	v.s = e.def("Int", v.s)
	e.fname[t] = v
	return v
}

// aligned gives two floating-point terms a common denominator.
func (e *intEmitter) aligned(x, y *Term) (a, b fval) {
	a, b = e.fp(x), e.fp(y)
	up := func(v fval, k int) fval {
		if v.k >= k {
			return v
		}
		p := bi2(k - v.k)
		s := "(* " + p.String() + " " + v.s + ")"
		if v.lo.Cmp(v.hi) == 0 {
			s = lit(new(big.Int).Mul(v.lo, p))
		}
		return fval{ival{s, new(big.Int).Mul(v.lo, p), new(big.Int).Mul(v.hi, p)}, k}
	}
	return up(a, b.k), up(b, a.k)
}

// cell is a part of the input space: the truth of conditions and variable ranges.
type cell struct {
	fixed map[*Term]bool
	rng   map[*Term][2]uint64
}

const maxCells = 48

// cells cuts the space where comparisons of a single small variable change truth.
func cells(ts []*Term) []cell {
	ci := newCone()
	for _, t := range ts {
		ci.varsOf(t)
	}
	atoms := map[*Term][]*Term{}
	var order []*Term
	for t, vs := range ci.sets {
		if t.sort.K != KBool || len(vs) != 1 || t.op == OVar {
			continue
		}
		switch t.op {
		case OEq, OULt, OULe, OSLt, OSLe:
			for v := range vs {
				if v.sort.K == KBV && v.sort.W <= 8 {
					atoms[v] = append(atoms[v], t)
				}
			}
		}
	}
	for _, v := range ci.vars {
		if len(atoms[v]) > 0 {
			order = append(order, v)
		}
	}
	out := []cell{{map[*Term]bool{}, map[*Term][2]uint64{}}}
	m := newModel()
	for _, v := range order {
		as := atoms[v]
		type run struct {
			lo, hi uint64
			tv     []bool
		}
		var runs []run
		for x := uint64(0); x <= mask(v.sort.W); x++ {
			m.set(v, x)
			tv := make([]bool, len(as))
			same := len(runs) > 0
			for i, a := range as {
				tv[i] = m.Eval(a) != 0
				same = same && runs[len(runs)-1].tv[i] == tv[i]
			}
			if same {
				runs[len(runs)-1].hi = x
			} else {
				runs = append(runs, run{x, x, tv})
			}
		}
		if len(out)*len(runs) > maxCells {
			continue
		}
		var next []cell
		for _, c := range out {
			for _, r := range runs {
				n := cell{map[*Term]bool{}, map[*Term][2]uint64{v: {r.lo, r.hi}}}
				for k, b := range c.fixed {
					n.fixed[k] = b
				}
				for k, b := range c.rng {
					n.rng[k] = b
				}
				for i, a := range as {
					n.fixed[a] = r.tv[i]
				}
				next = append(next, n)
			}
		}
		out = next
	}
	return out
}

// intSolver is a z3 process for integer queries.
type intSolver struct {
	cmd *osexec.Cmd
	in  *bufio.Writer
	inC io.WriteCloser
	out *bufio.Reader
	st  *Stats
	n   int
	bad bool // the last query had no integer encoding
}

func (s *intSolver) close() {
	if s != nil && s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *intSolver) start() bool {
	s.cmd = osexec.Command("z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if s.cmd.Start() != nil {
		s.cmd = nil
		return false
	}
	s.inC, s.in, s.out = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.n = 0
	return true
}

// check decides the conjunction of ts over the integers, cell by cell.
func (s *intSolver) check(ts []*Term, tmoMS int) (Result, *Model) {
	res := RUnsat
	s.bad = false
	for _, c := range cells(ts) {
		r, m := s.checkCell(ts, c, tmoMS)
		if r == RSat {
			return r, m
		}
		if r == RUnknown {
			return r, nil
		}
	}
	return res, nil
}

func (s *intSolver) checkCell(ts []*Term, c cell, tmoMS int) (Result, *Model) {
	e := &intEmitter{name: map[*Term]ival{}, fname: map[*Term]fval{}, fixed: c.fixed, rng: c.rng}
	var as []string
	for _, t := range ts {
		a := e.boolean(t)
		if e.bad {
			s.bad = true
			return RUnknown, nil
		}
		if a == "false" {
			return RUnsat, nil
		}
		if a != "true" {
			as = append(as, a)
		}
	}
	if d := os.Getenv("GOSYM_NIADUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/%p.%d.smt2", d, s, atomic.AddInt64(&s.st.IntQueries, 0)), []byte(e.b.String()+"(assert "+strings.Join(as, ")\n(assert ")+")\n(check-sat)\n"), 0644)
	}
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.st.TimeNS, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.st.Queries, 1)
	atomic.AddInt64(&s.st.IntQueries, 1)
	if s.cmd != nil && s.n > 2000 {
		s.close()
	}
	if s.cmd == nil && !s.start() {
		return RUnknown, nil
	}
	s.n++
	fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n", tmoMS)
	s.in.WriteString(e.b.String())
	for _, a := range as {
		s.in.WriteString("(assert " + a + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	wd := time.AfterFunc(time.Duration(tmoMS+3000)*time.Millisecond, func() { s.cmd.Process.Kill() })
	l := ""
	for l == "" {
		x, err := s.out.ReadString('\n')
		l = strings.TrimSpace(x)
		if err != nil {
			break
		}
	}
	wd.Stop()
	switch l {
	case "unsat":
		atomic.AddInt64(&s.st.Unsat, 1)
		return RUnsat, nil
	case "sat":
		m := newModel()
		if len(e.vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range e.vars {
				s.in.WriteString("|" + v.name + "| ")
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			t := &Solver{out: s.out}
			txt, err := t.readSexp()
			if err != nil || parseValues(txt, e.vars, m) != nil {
				s.close()
				return RUnknown, nil
			}
		}
		for v, r := range c.rng {
			if x, ok := m.vars[v.name]; !ok || x < r[0] || x > r[1] {
				m.set(v, r[0])
			}
		}
		for _, t := range ts {
			if m.Eval(t) == 0 {
				return RUnknown, nil
			}
		}
		atomic.AddInt64(&s.st.Sat, 1)
		return RSat, m
	case "unknown":
		atomic.AddInt64(&s.st.Unknown, 1)
	default:
		if l != "" && l != "timeout" {
			fmt.Println("int solver:", l)
		}
		s.close()
	}
	return RUnknown, nil
}
