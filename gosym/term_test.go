package main

import (
	"math"
	"math/rand"
	"testing"
)

// pair is a term and its value, computed with Go's operators, under one assignment.
type pair struct {
	t *Term
	v uint64
}

type builder struct {
	r    *rand.Rand
	vars map[string]uint64
	nia  bool // favour operators of the integer encoding
}

func (b *builder) pick(n int) int { return b.r.Intn(n) }

func (b *builder) constant(w int) uint64 {
	switch b.pick(5) {
	case 0:
		return uint64(b.pick(4)) & mask(uint8(w))
	case 1:
		return mask(uint8(w))
	case 2:
		return uint64(1) << uint(b.pick(w))
	case 3:
		return uint64(b.pick(300)) & mask(uint8(w))
	}
	return b.r.Uint64() & mask(uint8(w))
}

func sx(v uint64, w int) int64 { return signed(v, uint8(w)) }

func (b *builder) bv(w, d int) pair {
	m := mask(uint8(w))
	if d == 0 {
		if b.pick(3) == 0 {
			c := b.constant(w)
			return pair{C(c, w), c}
		}
		vw := []int{8, 8, 8, 16}[b.pick(4)]
		n := string(rune('a'+b.pick(3))) + map[int]string{8: "", 16: "w"}[vw]
		v := V(n, BV(vw))
		x, ok := b.vars[n]
		if !ok {
			x = b.constant(vw)
			b.vars[n] = x
		}
		switch {
		case w == vw:
			return pair{v, x}
		case w < vw:
			return pair{Extract(v, w-1, 0), x & m}
		}
		if b.pick(3) == 0 {
			return pair{SExt(v, w), uint64(sx(x, vw)) & m}
		}
		return pair{ZExt(v, w), x}
	}
	n := 17
	if b.nia {
		n = 15
	}
	switch b.pick(n) {
	case 0:
		x, y := b.bv(w, d-1), b.bv(w, d-1)
		return pair{BVBin(OAdd, x.t, y.t), (x.v + y.v) & m}
	case 1:
		x, y := b.bv(w, d-1), b.bv(w, d-1)
		return pair{BVBin(OSub, x.t, y.t), (x.v - y.v) & m}
	case 2:
		x, y := b.bv(w, d-1), b.bv(w, d-1)
		return pair{BVBin(OMul, x.t, y.t), (x.v * y.v) & m}
	case 3, 4:
		x, y := b.bv(w, d-1), b.bv(w, d-1)
		if b.pick(2) == 0 {
			c := b.constant(w)
			y = pair{C(c, w), c}
		}
		if y.v == 0 { // outside what the engine asks
			return x
		}
		if b.pick(2) == 0 {
			return pair{BVBin(OURem, x.t, y.t), x.v % y.v}
		}
		return pair{BVBin(OUDiv, x.t, y.t), x.v / y.v}
	case 5:
		x, y := b.bv(w, d-1), b.bv(w, d-1)
		if y.v == 0 {
			return x
		}
		if b.pick(2) == 0 {
			if sx(y.v, w) == -1 {
				return pair{BVBin(OSRem, x.t, y.t), 0}
			}
			return pair{BVBin(OSRem, x.t, y.t), uint64(sx(x.v, w)%sx(y.v, w)) & m}
		}
		if sx(y.v, w) == -1 {
			return pair{BVBin(OSDiv, x.t, y.t), -x.v & m}
		}
		return pair{BVBin(OSDiv, x.t, y.t), uint64(sx(x.v, w)/sx(y.v, w)) & m}
	case 6:
		x := b.bv(w, d-1)
		c := uint64(b.pick(w + 2))
		k := C(c, w)
		switch b.pick(3) {
		case 0:
			r := uint64(0)
			if c < 64 {
				r = x.v << c & m
			}
			return pair{BVBin(OShl, x.t, k), r}
		case 1:
			return pair{BVBin(OLShr, x.t, k), x.v >> c}
		}
		return pair{BVBin(OAShr, x.t, k), uint64(sx(x.v, w)>>c) & m}
	case 7:
		if w < 64 {
			x := b.bv(w*2, d-1)
			lo := b.pick(w + 1)
			return pair{Extract(x.t, lo+w-1, lo), x.v >> uint(lo) & m}
		}
		fallthrough
	case 8:
		if w > 8 {
			x := b.bv(w/2, d-1)
			if b.pick(2) == 0 {
				return pair{SExt(x.t, w), uint64(sx(x.v, w/2)) & m}
			}
			return pair{ZExt(x.t, w), x.v}
		}
		fallthrough
	case 9:
		if w > 8 {
			x, y := b.bv(w/2, d-1), b.bv(w/2, d-1)
			return pair{Concat(x.t, y.t), x.v<<uint(w/2) | y.v}
		}
		fallthrough
	case 10, 11:
		c, x, y := b.boolean(d-1), b.bv(w, d-1), b.bv(w, d-1)
		v := y.v
		if c.v != 0 {
			v = x.v
		}
		return pair{Ite(c.t, x.t, y.t), v}
	case 12:
		x := b.bv(w, d-1)
		return pair{Neg(x.t), -x.v & m}
	case 13:
		x := b.bv(w, d-1)
		return pair{BVNot(x.t), ^x.v & m}
	case 14:
		x := b.bv(w, d-1)
		c := uint64(1)<<uint(b.pick(w)+1) - 1
		if b.pick(3) == 0 {
			c = ^c & m
		}
		c &= m
		return pair{BVBin(OBAnd, x.t, C(c, w)), x.v & c}
	case 15:
		x, y := b.bv(w, d-1), b.bv(w, d-1)
		switch b.pick(3) {
		case 0:
			return pair{BVBin(OBAnd, x.t, y.t), x.v & y.v}
		case 1:
			return pair{BVBin(OBOr, x.t, y.t), x.v | y.v}
		}
		return pair{BVBin(OBXor, x.t, y.t), x.v ^ y.v}
	}
	x, y := b.bv(w, d-1), b.bv(w, d-1)
	switch b.pick(3) {
	case 0:
		r := uint64(0)
		if y.v < 64 {
			r = x.v << y.v & m
		}
		return pair{BVBin(OShl, x.t, y.t), r}
	case 1:
		r := uint64(0)
		if y.v < 64 {
			r = x.v >> y.v
		}
		return pair{BVBin(OLShr, x.t, y.t), r}
	}
	s := y.v
	if s > 63 {
		s = 63
	}
	return pair{BVBin(OAShr, x.t, y.t), uint64(sx(x.v, w)>>s) & m}
}

func (b *builder) boolean(d int) pair {
	if d <= 0 {
		d = 1
	}
	w := []int{8, 16, 32, 64}[b.pick(4)]
	switch b.pick(8) {
	case 0:
		x := b.boolean(d - 1)
		return pair{Not(x.t), 1 - x.v}
	case 1:
		if d > 1 {
			x, y := b.boolean(d-1), b.boolean(d-1)
			return pair{And(x.t, y.t), x.v & y.v}
		}
	case 2:
		if d > 1 {
			x, y := b.boolean(d-1), b.boolean(d-1)
			return pair{Or(x.t, y.t), x.v | y.v}
		}
	case 3:
		x, y := b.bv(w, d-1), b.bv(w, d-1)
		return pair{Eq(x.t, y.t), b2u(x.v == y.v)}
	}
	x, y := b.bv(w, d-1), b.bv(w, d-1)
	switch b.pick(4) {
	case 0:
		return pair{ULt(x.t, y.t), b2u(x.v < y.v)}
	case 1:
		return pair{ULe(x.t, y.t), b2u(x.v <= y.v)}
	case 2:
		return pair{SLt(x.t, y.t), b2u(sx(x.v, w) < sx(y.v, w))}
	}
	return pair{SLe(x.t, y.t), b2u(sx(x.v, w) <= sx(y.v, w))}
}

func (b *builder) model() *Model {
	m := newModel()
	for n, v := range b.vars {
		m.vars[n] = v
	}
	return m
}

// The simplifier: terms keep the value of the operators they were built with.
func TestSimplify(t *testing.T) {
	for seed := int64(0); seed < 400000; seed++ {
		b := &builder{r: rand.New(rand.NewSource(seed)), vars: map[string]uint64{}}
		w := []int{8, 16, 32, 64}[b.pick(4)]
		p := b.bv(w, 1+b.pick(4))
		m := b.model()
		if got := m.Eval(p.t); got != p.v {
			t.Fatalf("seed %d: got %#x want %#x: %v %v", seed, got, p.v, b.vars, p.t)
		}
		if p.v < p.t.lo || p.v > p.t.hi {
			t.Fatalf("seed %d: %#x outside %#x..%#x: %v", seed, p.v, p.t.lo, p.t.hi, p.t)
		}
		// substitution of constants for variables
		r, memo := p.t, map[*Term]*Term{}
		for n, v := range b.vars {
			vw := 8
			if len(n) > 1 {
				vw = 16
			}
			if r != nil && b.pick(2) == 0 {
				r = subst(r, V(n, BV(vw)), C(v, vw), map[*Term]*Term{})
			}
		}
		_ = memo
		if r != nil && m.Eval(r) != p.v {
			t.Fatalf("seed %d: substitution changed the value", seed)
		}
		if seed%20000 == 0 {
			resetTerms()
		}
	}
}

// The integer encoding never refutes a satisfiable query.
func TestIntegerEncoding(t *testing.T) {
	var st Stats
	s := &intSolver{st: &st}
	defer s.close()
	var sat, unknown, encoded int
	for seed := int64(0); seed < 6000; seed++ {
		b := &builder{r: rand.New(rand.NewSource(seed)), vars: map[string]uint64{}, nia: true}
		w := []int{8, 16, 32, 64}[b.pick(4)]
		p := b.bv(w, 1+b.pick(4))
		ts := []*Term{Eq(p.t, C(p.v, w))}
		for i := b.pick(3); i > 0; i-- {
			c := b.boolean(1 + b.pick(3))
			if c.v == 0 {
				c.t = Not(c.t)
			}
			ts = append(ts, c.t)
		}
		r, m := s.check(ts, 300)
		switch r {
		case RUnsat:
			t.Fatalf("seed %d: satisfiable query refuted: %v %v", seed, b.vars, ts)
		case RSat:
			sat++
			for _, x := range ts {
				if m.Eval(x) == 0 {
					t.Fatalf("seed %d: wrong model", seed)
				}
			}
		default:
			unknown++
		}
		encoded++
	}
	t.Logf("%d queries, %d satisfied, %d unknown", encoded, sat, unknown)
	if sat < encoded/3 {
		t.Error("too few answers to mean anything")
	}
}

// Exact floating point: sums and products of small integers and halves.
func TestIntegerEncodingFloat(t *testing.T) {
	var st Stats
	s := &intSolver{st: &st}
	defer s.close()
	n, sat := 0, 0
	for seed := int64(0); seed < 1500; seed++ {
		r := rand.New(rand.NewSource(seed))
		srt := []Sort{FP64, FP32}[r.Intn(2)]
		vals := map[string]uint64{"a": uint64(r.Intn(256)), "b": uint64(r.Intn(256))}
		type fp struct {
			t *Term
			v float64
		}
		round := func(v float64) float64 {
			if srt == FP32 {
				return float64(float32(v))
			}
			return v
		}
		var gen func(d int) fp
		gen = func(d int) fp {
			if d == 0 {
				if r.Intn(4) == 0 {
					c := float64(r.Intn(64)-32) / 8
					return fp{CF(fbits(c, srt.W), srt), c}
				}
				n := string(rune('a' + r.Intn(2)))
				return fp{IntToF(ZExt(V(n, BV(8)), 32), r.Intn(2) == 0, srt), float64(vals[n])}
			}
			x, y := gen(d-1), gen(d-1)
			switch r.Intn(6) {
			case 0:
				return fp{FBin(OFAdd, x.t, y.t), round(x.v + y.v)}
			case 1:
				return fp{FBin(OFSub, x.t, y.t), round(x.v - y.v)}
			case 2:
				return fp{FBin(OFMul, x.t, y.t), round(x.v * y.v)}
			case 3:
				return fp{FUn(OFNeg, x.t, 0), -x.v}
			case 4:
				v := y.v
				if x.v < y.v {
					v = x.v
				}
				return fp{Ite(FCmp(OFLt, x.t, y.t), x.t, y.t), v}
			}
			c := float64(int(1) << uint(r.Intn(4)))
			return fp{FBin(OFDiv, x.t, CF(fbits(c, srt.W), srt)), round(x.v / c)}
		}
		p, q := gen(1+r.Intn(3)), gen(r.Intn(3))
		m := newModel()
		m.vars["a"], m.vars["b"] = vals["a"], vals["b"]
		if got := m.Eval(FCmp(OFEq, p.t, CF(fbits(p.v, srt.W), srt))); got != 1 {
			t.Fatalf("seed %d: evaluation differs", seed)
		}
		var ts []*Term
		if math.Abs(p.v) < 1e6 {
			ts = append(ts, Eq(FToInt(p.t, 32), CI(int64(p.v), 32)))
		}
		c := FCmp(OFLe, p.t, q.t)
		if !(p.v <= q.v) {
			c = Not(c)
		}
		ts = append(ts, c)
		for _, x := range ts {
			if m.Eval(x) != 1 {
				t.Fatalf("seed %d: not a model", seed)
			}
		}
		n++
		switch res, _ := s.check(ts, 300); res {
		case RUnsat:
			t.Fatalf("seed %d: satisfiable query refuted: %v %v", seed, vals, ts)
		case RSat:
			sat++
		}
	}
	t.Logf("%d queries, %d satisfied", n, sat)
	if sat < n/4 {
		t.Error("too few answers to mean anything")
	}
}
