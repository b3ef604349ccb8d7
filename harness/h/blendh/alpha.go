package blendh

import (
	"image"
	"image/color"
	"image/draw"

	"verif/harness/sym"
)

// Alpha: the result's alpha is the source's times the mask over the destination's,
// with one of the source's alpha and the mask from a table.
func Alpha() {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", len(modes)-1))]
	dk, sk := kinds()
	sa, da, mv := sym.U8("sa"), sym.U8("da"), sym.U8("m")
	if t := opacities[sym.Choose("opacity", 0, sym.Param("n", 2))]; sym.Choose("which", 0, 1) == 0 {
		sa = t
	} else {
		mv = t
	}
	s, d := pixel{a: sa}, pixel{a: da}
	dst := img(dk, d)
	mask := maskOf(sym.Choose("mask", 0, 2), mv)
	if mask == nil {
		mv = 255
	}
	m.d.DrawMask(dst, one(), img(sk, s), image.Point{}, mask, image.Point{})
	t := int(sa) * int(mv) // in 65025ths
	want := 255*t + 65025*int(da) - t*int(da)
	sym.Assert(near(65025*int(got(dst).a), want, 65025*sym.Param("tol", 3)), "alpha over with opacity")
}

var opacities = []uint8{255, 128, 1, 254, 85, 37, 200, 3, 170, 127}

// alphas are concrete source alpha, mask and destination alpha values.
var alphas = [][3]uint8{
	{255, 128, 255}, {100, 255, 200}, {255, 255, 90}, {77, 190, 33}, {254, 255, 254}, {130, 60, 255},
	{3, 255, 250}, {255, 2, 255}, {255, 255, 1}, {128, 128, 128}, {1, 255, 1}, {200, 255, 20},
}

// alphasAt continues the table with every pair of nine source and destination alphas.
func alphasAt(i int) [3]uint8 {
	if i < len(alphas) {
		return alphas[i]
	}
	i -= len(alphas)
	g := [9]uint8{1, 3, 37, 85, 128, 170, 200, 254, 255}
	return [3]uint8{g[i%9], g[(i*4+i/9)%9], g[i/9%9]}
}

// steep modes amplify the rounding of colours that are divided by their alpha
func steep(m mode) bool {
	switch m.name {
	case "color burn", "color dodge", "vivid light", "divide":
		return true
	}
	return m.f == nil
}

// paths chooses image types and kind of mask: every specific drawing function with
// a uniform mask and without one, the generic one with a mask image and with
// 16-bit images.
func paths() (dk, sk, mk int) {
	k := sym.Choose("path", 0, sym.Param("paths", 13))
	if k >= 12 {
		return k - 10, k - 10, 0
	}
	return k & 1, k >> 1 & 1, k >> 2
}

func premultiplied(kind int) bool { return kind == kRGBA || kind == kRGBA64 }

// stored makes the stored pixel of a straight colour.
func stored(kind int, c [3]uint8, a uint8) pixel {
	if premultiplied(kind) {
		for i := range c {
			c[i] = uint8((int(c[i])*int(a) + 127) / 255)
		}
	}
	return pixel{c, a}
}

// weights checks the premultiplied result of colour s over d against the W3C
// compositing formula; f is the blended colour.
func weights(m mode, dk, sk, mk int, s, d, f [3]int, sc, dc [3]uint8, t [3]uint8, tol int) {
	dst := img(dk, stored(dk, dc, t[2]))
	mask := maskOf(mk, t[1])
	m.d.DrawMask(dst, one(), img(sk, stored(sk, sc, t[0])), image.Point{}, mask, image.Point{})
	mv := int(t[1])
	if mask == nil {
		mv = 255
	}
	p := got(dst)
	sa, da := int(t[0])*mv/255, int(t[2])
	for i := 0; i < 3; i++ {
		want := sa*(255-da)*s[i] + (255-sa)*da*d[i] + sa*da*f[i] // 255³ths
		if m.name == "add" {
			want = min(want, 65025*int(p.a))
		}
		x := 255 * int(p.c[i])
		if !premultiplied(dk) {
			x = int(p.c[i]) * int(p.a)
		}
		sym.Assert(near(255*x, want, 65025*tol), m.name+" weights")
	}
}

func ints(c [3]uint8) [3]int { return [3]int{int(c[0]), int(c[1]), int(c[2])} }

// Weights: every mode with a formula.
func Weights() {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", separable-1))]
	dk, sk, mk := paths()
	k := sym.Choose("alphas", 0, sym.Param("n", 5))
	t := alphasAt(k)
	if steep(m) && (k > sym.Param("nsteep", 1) || premultiplied(dk) && t[2] < 255 || premultiplied(sk) && t[0] < 255) {
		sym.Assume(false)
	}
	sv, dv := sym.U8("s"), sym.U8("d")
	slow := steep(m) || m.name == "overlay" || m.name == "hard light" || m.name == "linear light" || m.name == "exclusion"
	if slow && sym.Param("both", 0) == 0 { // one colour from a table
		v := [8]uint8{0, 1, 40, 100, 127, 128, 210, 255}[sym.Choose("other", 0, 7)]
		if sym.Choose("which", 0, 1) == 0 {
			sv = v
		} else {
			dv = v
		}
	}
	s, d := [3]uint8{sv, sv, 0}, [3]uint8{dv, 0, dv}
	var f [3]int
	for i := range f {
		f[i] = m.f(int(s[i]), int(d[i]))
		if m.name == "add" { // only the weighted sum is clipped
			f[i] = int(s[i]) + int(d[i])
		}
	}
	weights(m, dk, sk, mk, ints(s), ints(d), f, s, d, t, sym.Param("tol", 3))
}

// WeightsOther: the modes without a per-channel formula, against their own
// opaque results; one symbolic channel.
func WeightsOther() {
	m := modes[sym.Choose("mode", sym.Param("lo", separable), sym.Param("hi", len(modes)-1))]
	dk, sk, mk := paths()
	t := alphasAt(sym.Choose("alphas", 0, sym.Param("n", 5)))
	if premultiplied(dk) && t[2] < 255 || premultiplied(sk) && t[0] < 255 {
		sym.Assume(false)
	}
	k := sym.Choose("which", 0, 1)
	s, d := some("s", k == 0), some("d", k == 1)
	ok := kNRGBA64
	if dk == kNRGBA && sk == kNRGBA && mk != 1 {
		ok = kNRGBA // the 8-bit kernel, whose rounding the clipping of colours amplifies
	}
	o := img(ok, pixel{d, 255})
	m.d.Draw(o, one(), img(ok, pixel{s, 255}), image.Point{})
	switch m.name { // not at the jumps
	case "hard mix":
		for i := range s {
			sym.Assume(!near(int(s[i])+int(d[i]), 255, 1))
		}
	case "darker color", "lighter color":
		sym.Assume(!near(lum(s), lum(d), 150))
	}
	weights(m, dk, sk, mk, ints(s), ints(d), ints(got(o).c), s, d, t, sym.Param("tol", 3))
}

var pairs = [][2][3]uint8{
	{{255, 0, 255}, {0, 0, 255}},
	{{255, 255, 0}, {255, 0, 0}},
	{{200, 40, 130}, {100, 30, 230}},
	{{60, 220, 5}, {251, 90, 128}},
}

// WeightsSource: any alpha of the source.
func WeightsSource() { anyAlpha(0) }

// WeightsDest: any alpha of the destination.
func WeightsDest() { anyAlpha(2) }

// WeightsMask: any value of the mask.
func WeightsMask() { anyAlpha(1) }

// anyAlpha checks the weighted sum with one symbolic alpha and colours from a
// table. Modes that amplify rounding get colours that premultiply exactly. The
// 8-bit kernels cut four fractions, of three weights and of the result.
func anyAlpha(which int) {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", len(modes)-1))]
	dk, sk, mk := paths()
	k := sym.Choose("pair", 0, sym.Param("pairs", 3))
	s, d := pairs[k][0], pairs[k][1]
	if k > 1 && steep(m) && (premultiplied(dk) || premultiplied(sk)) {
		sym.Assume(false)
	}
	t := [][3]uint8{{255, 255, 255}, {150, 100, 220}}[sym.Choose("alphas", 0, sym.Param("n", 1))]
	t[which] = sym.U8("a")
	if mk == 2 {
		if which == 1 {
			sym.Assume(false)
		}
		t[1] = 255
	}
	var f [3]int
	if m.f != nil {
		for i := range f {
			f[i] = m.f(int(s[i]), int(d[i]))
			if m.name == "add" {
				f[i] = int(s[i]) + int(d[i])
			}
		}
	} else {
		for i := range s {
			if m.name == "hard mix" && near(int(s[i])+int(d[i]), 255, 1) {
				sym.Assume(false)
			}
		}
		ok := kNRGBA64
		if dk == kNRGBA && sk == kNRGBA && mk != 1 {
			ok = kNRGBA
		}
		o := img(ok, pixel{d, 255})
		m.d.Draw(o, one(), img(ok, pixel{s, 255}), image.Point{})
		f = ints(got(o).c)
	}
	weights(m, dk, sk, mk, ints(s), ints(d), f, s, d, t, sym.Param("tol", 4))
}

// Valid: premultiplied destinations stay premultiplied.
func Valid() {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", len(modes)-1))]
	dk := sym.Choose("dst", 0, 1)*2 + 1
	sk := sym.Choose("src", 0, 1)
	t := alphasAt(sym.Choose("alphas", 0, sym.Param("n", 3)))
	s, d := pixel{colour("s"), t[0]}, pixel{colour("d"), t[2]}
	if m.f == nil {
		s.c, d.c = some("s", true), [3]uint8{t[2], 0, t[2] / 2}
	}
	valid(sk, s)
	valid(dk, d)
	dst := img(dk, d)
	m.d.DrawMask(dst, one(), img(sk, s), image.Point{}, &image.Uniform{C: color.Alpha{A: t[1]}}, image.Point{})
	p := got(dst)
	for i := 0; i < 3; i++ {
		sym.Assert(p.c[i] <= p.a, m.name+" result is a valid premultiplied colour")
	}
}

// Sources of Porter-Duff operators beyond the four image kinds.
const (
	kAlpha = iota + 4
	kUniform
)

func source(kind int, p pixel) image.Image {
	switch kind {
	case kAlpha:
		return &image.Alpha{Pix: []uint8{p.a}, Stride: 1, Rect: one()}
	case kUniform:
		return &image.Uniform{C: color.RGBA{p.c[0], p.c[1], p.c[2], p.a}}
	}
	return img(kind, p)
}

// OperatorAlpha: the result alpha of every operator.
func OperatorAlpha() {
	operate(0, 0, sym.U8("sa"), sym.U8("da"), false)
}

// OperatorColour: the result colours of every operator, with concrete alphas.
func OperatorColour() {
	t := alphasAt(sym.Choose("alphas", 0, sym.Param("n", 5)))
	operate(sym.U8("s"), sym.U8("d"), t[0], t[2], true)
}

// OperatorSource: the result colours with any source pixel over some destinations.
func OperatorSource() {
	t := dots[sym.Choose("dest", 0, sym.Param("n", 1))]
	operate(sym.U8("s"), t[0], sym.U8("sa"), t[1], true)
}

// OperatorDest: the result colours with any destination pixel under some sources.
func OperatorDest() {
	t := dots[sym.Choose("source", 0, sym.Param("n", 1))]
	operate(t[0], sym.U8("d"), t[1], sym.U8("da"), true)
}

var dots = [][2]uint8{{200, 230}, {90, 100}, {17, 255}, {0, 40}, {3, 3}}

func operate(sv, dv, sA, dA uint8, colours bool) {
	o := sym.Choose("operator", sym.Param("lo", 0), sym.Param("hi", len(operators)-1))
	dk, sk := sym.Choose("dst", sym.Param("dlo", 0), sym.Param("dhi", 3)), sym.Choose("src", sym.Param("slo", 0), sym.Param("shi", 5))
	s, d := pixel{[3]uint8{sv, 0, sv}, sA}, pixel{[3]uint8{dv, dv, 0}, dA}
	switch sk {
	case kRGBA, kRGBA64, kUniform:
		sym.Assume(sv <= sA)
	case kAlpha:
		s.c = [3]uint8{}
	}
	valid(dk, d)
	dst := img(dk, d)
	operators[o].d.Draw(dst, one(), source(sk, s), image.Point{})
	p := got(dst)
	sa, da := int(sA), int(dA)
	// an alpha image is black under its alpha to the specific drawing functions (as
	// in the reference pictures), and white, as its At says, to the generic one
	if sk == kAlpha && dk >= kNRGBA64 {
		for i := range s.c {
			s.c[i] = sA
		}
	}
	var fa, fb int
	switch operators[o].name {
	case "copy":
		fa = 255
	case "dest":
		fb = 255
	case "src over":
		fa, fb = 255, 255-sa
	case "dest over":
		fa, fb = 255-da, 255
	case "src in":
		fa = da
	case "dest in":
		fb = sa
	case "src out":
		fa = 255 - da
	case "dest out":
		fb = 255 - sa
	case "src atop":
		fa, fb = da, 255-sa
	case "dest atop":
		fa, fb = 255-da, sa
	case "xor":
		fa, fb = 255-da, 255-sa
	}
	tol := sym.Param("tol", 2)
	sym.Assert(near(255*int(p.a), sa*fa+da*fb, 255*sym.Param("atol", 1)), operators[o].name+" alpha")
	if !colours {
		return
	}
	if operators[o].name == "copy" && dk == sk && dk <= kRGBA {
		exact := sym.And(sym.And(p.c[0] == s.c[0], p.c[1] == s.c[1]), p.c[2] == s.c[2])
		sym.Assert(sym.And(p.a == s.a, sym.Or(s.a == 0, exact)), "copying pixels of the same type is exact")
	}
	if op := operators[o].name; dk == kNRGBA && sk != kNRGBA64 && sk != kRGBA64 && (op == "dest" || op == "dest in" || op == "dest out") {
		exact := sym.And(sym.And(p.c[0] == d.c[0], p.c[1] == d.c[1]), p.c[2] == d.c[2])
		sym.Assert(sym.Or(p.a == 0, exact), "operators that only fade the destination keep its colour")
	}
	for i := 0; i < 3; i++ {
		x, y := 255*int(s.c[i]), 255*int(d.c[i]) // premultiplied, in 65025ths
		if sk == kNRGBA || sk == kNRGBA64 {
			x = int(s.c[i]) * sa
		}
		z := 255 * int(p.c[i])
		if dk == kNRGBA || dk == kNRGBA64 {
			y = int(d.c[i]) * da
			z = int(p.c[i]) * int(p.a)
		}
		sym.Assert(near(255*z, x*fa+y*fb, 65025*tol), operators[o].name+" colour")
	}
}

var _ draw.Image
