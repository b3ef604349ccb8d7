package blendh

import (
	"image"
	"image/color"
	"math"

	"github.com/oov/psd/blend"
	"verif/harness/sym"
)

// Opaque: two opaque pixels, every separable mode, every pair of image kinds.
func Opaque() {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", separable-1))]
	dk, sk := kinds()
	s, d := colour("s"), colour("d")
	dst := img(dk, pixel{d, 255})
	m.d.Draw(dst, one(), img(sk, pixel{s, 255}), image.Point{})
	p := got(dst)
	sym.Assert(p.a == 255, "opaque result")
	for i := 0; i < 3; i++ {
		sym.Assert(near(int(p.c[i]), m.f(int(s[i]), int(d[i])), sym.Param("tol", 1)), m.name+" formula")
	}
}

// SoftLight against the W3C formula, evaluated in 1/65025ths.
func SoftLight() {
	dk, sk := kinds()
	s, d := colour("s"), colour("d")
	dst := img(dk, pixel{d, 255})
	blend.SoftLight.Draw(dst, one(), img(sk, pixel{s, 255}), image.Point{})
	p := got(dst)
	sym.Assert(p.a == 255, "opaque result")
	for i := 0; i < 3; i++ {
		s, d := int(s[i]), int(d[i])
		root := int(math.Sqrt(float64(d*255)) * 255)        // 255*D(d), rounded down
		poly := (16*d*d*d - 12*255*d*d + 4*255*255*d) / 255 // 255*D(d), rounded down
		dd := ite(4*d <= 255, poly, root)
		lo := d*65025 - (255-2*s)*d*(255-d)
		hi := d*65025 + (2*s-255)*(dd-255*d)
		ref := ite(2*s <= 255, lo, hi)
		sym.Assert(near(int(p.c[i])*65025, ref, sym.Param("tol", 2)*65025), "soft light formula")
	}
}

// HardMix thresholds the sum; within two levels of the threshold either value will do.
func HardMix() {
	dk, sk := kinds()
	s, d := colour("s"), colour("d")
	dst := img(dk, pixel{d, 255})
	blend.HardMix.Draw(dst, one(), img(sk, pixel{s, 255}), image.Point{})
	p := got(dst)
	sym.Assert(p.a == 255, "opaque result")
	for i := 0; i < 3; i++ {
		sum := int(s[i]) + int(d[i])
		sym.Assert(sym.Or(p.c[i] == 0, p.c[i] == 255), "hard mix gives black or white")
		sym.Assert(sym.Or(sum < 255+sym.Param("tol", 2), p.c[i] == 255), "hard mix white")
		sym.Assert(sym.Or(sum > 255-sym.Param("tol", 2), p.c[i] == 0), "hard mix black")
	}
}

func lum(c [3]uint8) int { return 30*int(c[0]) + 59*int(c[1]) + 11*int(c[2]) }

func same(a, b [3]uint8) bool {
	return sym.And(a[0] == b[0], sym.And(a[1] == b[1], a[2] == b[2]))
}

// ByLuminance: DarkerColor and LighterColor take one of the two colours whole,
// the darker or the lighter one where they differ clearly.
func ByLuminance() {
	m := modes[sym.Choose("mode", modeDarker, modeDarker+1)]
	dk, sk := kinds()
	s, d := colour("s"), colour("d")
	dst := img(dk, pixel{d, 255})
	m.d.Draw(dst, one(), img(sk, pixel{s, 255}), image.Point{})
	p := got(dst)
	ls, ld := lum(s), lum(d)
	if m.name == "lighter color" {
		ls, ld = ld, ls
	}
	tol := sym.Param("tol", 3) * 100
	sym.Assert(p.a == 255, "opaque result")
	sym.Assert(sym.Or(same(p.c, s), same(p.c, d)), "one of the two colours")
	sym.Assert(sym.Or(ls+tol > ld, same(p.c, s)), m.name+" source")
	sym.Assert(sym.Or(ld+tol > ls, same(p.c, d)), m.name+" destination")
}

// maskOf makes a mask of one pixel; the last kind is no mask at all.
func maskOf(kind int, m uint8) image.Image {
	switch kind {
	case 0:
		return &image.Uniform{C: color.Alpha{A: m}}
	case 1:
		return &image.Alpha{Pix: []uint8{m}, Stride: 1, Rect: one()}
	}
	return nil
}

// valid assumes that a premultiplied pixel is one.
func valid(kind int, p pixel) {
	if kind == kRGBA || kind == kRGBA64 {
		sym.Assume(sym.And(p.c[0] <= p.a, sym.And(p.c[1] <= p.a, p.c[2] <= p.a)))
	}
}

func pix(m image.Image) []uint8 {
	switch m := m.(type) {
	case *image.NRGBA:
		return m.Pix
	case *image.RGBA:
		return m.Pix
	case *image.NRGBA64:
		return m.Pix
	case *image.RGBA64:
		return m.Pix
	}
	panic("kind")
}

func unchanged(before []uint8, m image.Image, what string) {
	for i, b := range pix(m) {
		sym.Assert(b == before[i], what)
	}
}

// TransparentSource: a source without alpha changes nothing, whatever the mask.
func TransparentSource() {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", len(modes)-1))]
	dk, sk := kinds()
	s, d := pixel{colour("s"), 0}, pixel{colour("d"), sym.U8("da")}
	valid(sk, s)
	valid(dk, d)
	dst := img(dk, d)
	before := append([]uint8(nil), pix(dst)...)
	m.d.DrawMask(dst, one(), img(sk, s), image.Point{}, maskOf(sym.Choose("mask", 0, 2), sym.U8("m")), image.Point{})
	unchanged(before, dst, "a transparent source leaves the destination as it was")
}

// ZeroMask: a mask value of zero changes nothing.
func ZeroMask() {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", len(modes)-1))]
	dk, sk := kinds()
	s, d := pixel{colour("s"), sym.U8("sa")}, pixel{colour("d"), sym.U8("da")}
	valid(sk, s)
	valid(dk, d)
	dst := img(dk, d)
	before := append([]uint8(nil), pix(dst)...)
	mask := maskOf(sym.Choose("mask", 0, 1), 0)
	m.d.DrawMask(dst, one(), img(sk, s), image.Point{}, mask, image.Point{})
	unchanged(before, dst, "a zero mask leaves the destination as it was")
}

// TransparentDestination: the source itself arrives on a transparent destination.
func TransparentDestination() {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", len(modes)-1))]
	dk, sk := kinds()
	s, d := pixel{colour("s"), sym.U8("sa")}, pixel{a: 0}
	if m.f != nil { // the colour under a zero alpha
		d.c = colour("d")
	}
	valid(sk, s)
	valid(dk, d)
	dst := img(dk, d)
	m.d.Draw(dst, one(), img(sk, s), image.Point{})
	p := got(dst)
	sym.Assert(sym.Or(s.a == 0, near(int(p.a), int(s.a), sym.Param("atol", 0))), "the source's alpha is stored")
	tol := sym.Param("tol", 1)
	for i := 0; i < 3; i++ {
		x, y := int(p.c[i]), int(s.c[i]) // equal colour: x/255 or x/pa, y/255 or y/sa
		sp, dp := sk == kRGBA || sk == kRGBA64, dk == kRGBA || dk == kRGBA64
		var ok bool
		switch {
		case sp == dp:
			ok = near(x, y, tol)
		case sp: // straight x against premultiplied y
			ok = near(x*int(s.a), y*255, tol*255)
		default: // premultiplied x against straight y
			ok = near(x*255, y*int(s.a), tol*255)
		}
		sym.Assert(sym.Or(s.a == 0, ok), "the source's colour is stored")
	}
}

// GreyHSL: with a grey source (for Luminosity: a grey destination) the HSL modes
// give the grey of the other colour's luminance.
func GreyHSL() {
	m := modes[sym.Choose("mode", sym.Param("lo", modeHue), sym.Param("hi", len(modes)-1))]
	dk, sk := kinds()
	c, g := colour("c"), sym.U8("g")
	grey := [3]uint8{g, g, g}
	s, d := grey, c
	if m.name == "luminosity" {
		s, d = c, grey
	}
	dst := img(dk, pixel{d, 255})
	m.d.Draw(dst, one(), img(sk, pixel{s, 255}), image.Point{})
	p := got(dst)
	sym.Assert(p.a == 255, "opaque result")
	for i := 0; i < 3; i++ {
		sym.Assert(near(100*int(p.c[i]), lum(c), sym.Param("tol", 2)*100), m.name+" with grey")
	}
}

// SelfHSL: Color and Luminosity of a colour with itself give that colour.
func SelfHSL() {
	m := modes[sym.Choose("mode", sym.Param("lo", modeHue+2), sym.Param("hi", len(modes)-1))]
	dk, sk := kinds()
	c := colour("c")
	dst := img(dk, pixel{c, 255})
	m.d.Draw(dst, one(), img(sk, pixel{c, 255}), image.Point{})
	p := got(dst)
	sym.Assert(p.a == 255, "opaque result")
	for i := 0; i < 3; i++ {
		sym.Assert(near(int(p.c[i]), int(c[i]), sym.Param("tol", 1)), m.name+" with itself")
	}
}

// setLum and setSat of the W3C formulas; colours in hundredths of a level.
func setLum(c [3]int, l int) ([3]int, bool) {
	k := l - (30*c[0]+59*c[1]+11*c[2])/100
	lo, hi := 0, 0
	for i := range c {
		c[i] += k
		lo, hi = ite(i == 0, c[i], min(lo, c[i])), ite(i == 0, c[i], max(hi, c[i]))
	}
	for i := range c {
		c[i] = ite(lo < 0, l+(c[i]-l)*l/ite(lo < 0, l-lo, 1), ite(hi > 25500, l+(c[i]-l)*(25500-l)/ite(hi > 25500, hi-l, 1), c[i]))
	}
	return c, sym.Or(lo < 300, hi > 25200)
}

func spread(c [3]int) (int, int) {
	return min(c[0], min(c[1], c[2])), max(c[0], max(c[1], c[2]))
}

func setSat(c [3]int, s int) [3]int {
	lo, hi := spread(c)
	for i := range c {
		c[i] = ite(hi > lo, (c[i]-lo)*s/ite(hi > lo, hi-lo, 1), 0)
	}
	return c
}

func hundred(c [3]uint8) [3]int {
	return [3]int{100 * int(c[0]), 100 * int(c[1]), 100 * int(c[2])}
}

func fHSL(name string, s, d [3]int) ([3]int, bool) {
	ls, ld := (30*s[0]+59*s[1]+11*s[2])/100, (30*d[0]+59*d[1]+11*d[2])/100
	slo, shi := spread(s)
	dlo, dhi := spread(d)
	switch name {
	case "hue":
		return setLum(setSat(s, dhi-dlo), ld)
	case "saturation":
		return setLum(setSat(d, shi-slo), ld)
	case "color":
		return setLum(s, ld)
	}
	return setLum(d, ls)
}

// some is a colour with one symbolic channel.
func some(name string, symbolic bool) (c [3]uint8) {
	k := sym.Choose(name+" channel", 0, 2)
	v := [][2]uint8{{0, 255}, {200, 40}, {255, 255}, {30, 30}, {90, 210}}[sym.Choose(name+" others", 0, sym.Param("others", 1))]
	if symbolic {
		c[k] = sym.U8(name)
	} else {
		c[k] = 128
	}
	c[(k+1)%3], c[(k+2)%3] = v[0], v[1]
	return
}

func hsl(dk, sk int, s, d [3]uint8) {
	m := modes[sym.Choose("mode", sym.Param("lo", modeHue), sym.Param("hi", len(modes)-1))]
	dst := img(dk, pixel{d, 255})
	m.d.Draw(dst, one(), img(sk, pixel{s, 255}), image.Point{})
	p := got(dst)
	sym.Assert(p.a == 255, "opaque result")
	ref, clipped := fHSL(m.name, hundred(s), hundred(d))
	want := d
	if m.name == "luminosity" {
		want = s
	}
	// clipping divides by small numbers, which magnifies the rounding
	sym.Assert(near(lum(p.c), lum(want), sym.Param("ltol", 3)*100), m.name+" luminance")
	for i := 0; i < 3; i++ {
		sym.Assert(sym.Or(clipped, near(100*int(p.c[i]), ref[i], sym.Param("tol", 3)*100)), m.name+" formula")
		j := (i + 1) % 3
		sym.Assert(sym.And(sym.Or(ref[i] < ref[j]+3000, p.c[i] >= p.c[j]), sym.Or(ref[j] < ref[i]+3000, p.c[j] >= p.c[i])), m.name+" hue order")
	}
}

// HSL: one symbolic channel in one of the two colours, the others from a table.
func HSL() {
	k := sym.Choose("which", 0, 1)
	p := sym.Choose("path", 0, 5)
	dk, sk := p&1, p>>1
	if p >= 4 {
		dk, sk = p-2, p-2
	}
	hsl(dk, sk, some("s", k == 0), some("d", k == 1))
}

// kinds chooses the image types of destination and source.
func kinds() (int, int) {
	return sym.Choose("dst", sym.Param("dlo", 0), sym.Param("dhi", 3)), sym.Choose("src", sym.Param("slo", 0), sym.Param("shi", 3))
}
