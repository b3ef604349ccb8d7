// Package colorh holds the harnesses for the color package.
package colorh

import (
	stdcolor "image/color"

	"github.com/oov/psd/color"
	"verif/harness/sym"
)

var Table = map[string]func(){
	"Gray1Value": Gray1Value, "NGrayAValue": NGrayAValue, "NGrayA32Value": NGrayA32Value,
	"Gray32Value": Gray32Value, "NGrayA64Value": NGrayA64Value, "NRGBA128Value": NRGBA128Value,
	"NCMYKAValue": NCMYKAValue, "NCMYKA80Value": NCMYKA80Value,
	"ModelWhite": ModelWhite, "Gray1Nearest": Gray1Nearest,
	"ModelTotal": ModelTotal, "ModelIdempotent": ModelIdempotent, "ModelExtremes": ModelExtremes,
	"GrayRoundTrip": GrayRoundTrip, "CMYKRoundTrip": CMYKRoundTrip, "CMYK80RoundTrip": CMYK80RoundTrip,
}

func valid(r, g, b, a uint32) {
	sym.Assert(a <= 0xffff, "alpha is at most 0xffff")
	sym.Assert(r <= a, "red is at most alpha")
	sym.Assert(g <= a, "green is at most alpha")
	sym.Assert(b <= a, "blue is at most alpha")
}

// near: |x-y| <= d
func near(x, y, d uint32) bool { return sym.And(x <= y+d, y <= x+d) }

func Gray1Value() {
	y := sym.Bool("y")
	r, g, b, a := color.Gray1{Y: y}.RGBA()
	want := uint32(sym.Ite(y, 0xffff, 0))
	sym.Assert(r == want && g == want && b == want && a == 0xffff, "1 bit grey is black or white")
}

// grey checks one channel replicated with straight alpha.
func grey(y16, a16 uint32, r, g, b, a uint32) {
	valid(r, g, b, a)
	sym.Assert(a == a16, "alpha is the stored alpha")
	sym.Assert(sym.And(r == g, g == b), "grey has equal components")
	sym.Assert(sym.Implies(a16 == 0xffff, r == y16), "full alpha keeps the component")
	sym.Assert(sym.Implies(a16 == 0, r == 0), "zero alpha yields zero")
	sym.Assert(near(r, y16*a16/0xffff, 1), "component times alpha")
}

func NGrayAValue() {
	y, al := sym.U8("y"), sym.U8("a")
	r, g, b, a := color.NGrayA{Y: y, A: al}.RGBA()
	grey(uint32(y)*0x101, uint32(al)*0x101, r, g, b, a)
}

func NGrayA32Value() {
	y, al := sym.U16("y"), sym.U16("a")
	r, g, b, a := color.NGrayA32{Y: y, A: al}.RGBA()
	grey(uint32(y), uint32(al), r, g, b, a)
}

func Gray32Value() {
	y := sym.F32("y")
	r, g, b, a := color.Gray32{Y: y}.RGBA()
	valid(r, g, b, a)
	sym.Assert(a == 0xffff, "opaque")
	sym.Assert(sym.And(r == g, g == b), "grey has equal components")
	sym.Assert(sym.Implies(y >= 1, r == 0xffff), "values from one on are white")
	sym.Assert(sym.Implies(y <= 0, r == 0), "values up to zero are black")
	sym.Assert(sym.Implies(y != y, r == 0), "not-a-number is black")
}

// split explores the ranges below, inside and above (0,1) separately.
func split(f float32) {
	if f >= 1 {
		sym.Reach("from one on")
	} else if f > 0 {
		sym.Reach("between")
	} else {
		sym.Reach("not above zero")
	}
}

func floatAlpha(f float32, r, g, b, a uint32) {
	valid(r, g, b, a)
	sym.Assert(sym.Implies(f >= 1, a == 0xffff), "alpha from one on is opaque")
	sym.Assert(sym.Implies(!(f > 0), sym.And(sym.And(r == 0, g == 0), sym.And(b == 0, a == 0))), "alpha not above zero is fully transparent")
	sym.Assert(sym.Implies(f == 0.5, a == 0x7fff), "half alpha")
	sym.Assert(sym.Implies(f >= 0.75, a >= 0xbfff), "alpha scale from below")
	sym.Assert(sym.Implies(f <= 0.25, a <= 0x4000), "alpha scale from above")
}

func NGrayA64Value() {
	y, al := sym.F32("y"), sym.F32("a")
	split(al)
	split(y)
	r, g, b, a := color.NGrayA64{Y: y, A: al}.RGBA()
	floatAlpha(al, r, g, b, a)
	sym.Assert(sym.And(r == g, g == b), "grey has equal components")
	sym.Assert(sym.Implies(y >= 1, r == a), "white")
	sym.Assert(sym.Implies(sym.Or(y <= 0, y != y), r == 0), "black")
}

func NRGBA128Value() {
	var c [3]float32
	k := sym.Choose("component", 0, 2)
	c[0], c[1], c[2] = 0.25, 0.5, 1
	c[k] = sym.F32("c")
	al := sym.F32("a")
	split(al)
	split(c[k])
	r, g, b, a := color.NRGBA128{R: c[0], G: c[1], B: c[2], A: al}.RGBA()
	floatAlpha(al, r, g, b, a)
	v := [3]uint32{r, g, b}[k]
	sym.Assert(sym.Implies(c[k] >= 1, v == a), "full component")
	sym.Assert(sym.Implies(sym.Or(c[k] <= 0, c[k] != c[k]), v == 0), "zero component")
	if k != 2 {
		sym.Assert(b == a, "untouched full component")
	}
}

func NCMYKAValue() {
	// one ink is symbolic per run, the others are fixed: the formula is per ink
	which := sym.Choose("ink", 0, 2)
	ink := sym.U8("c")
	k, al := sym.U8("k"), sym.U8("a")
	in := [3]uint8{0x40, 0xff, 0}
	in[which] = ink
	r, g, b, a := color.NCMYKA{C: in[0], M: in[1], Y: in[2], K: k, A: al}.RGBA()
	valid(r, g, b, a)
	sym.Assert(a == uint32(al)*0x101, "alpha is the stored alpha")
	v := [3]uint32{r, g, b}[which]
	full := uint32(ink) * uint32(k) * 0x10201 / 0xffff
	sym.Assert(sym.Implies(al == 0xff, near(v, full, 1)), "full alpha keeps ink times black")
	sym.Assert(sym.Implies(al == 0, v == 0), "zero alpha yields zero")
	sym.Assert(near(v, full*(uint32(al)*0x101)/0xffff, 1), "component times alpha")
}

func NCMYKA80Value() {
	which := sym.Choose("ink", 0, 2)
	ink := sym.U16("c")
	k, al := sym.U16("k"), sym.U16("a")
	in := [3]uint16{0x4000, 0xffff, 0}
	in[which] = ink
	r, g, b, a := color.NCMYKA80{C: in[0], M: in[1], Y: in[2], K: k, A: al}.RGBA()
	valid(r, g, b, a)
	sym.Assert(a == uint32(al), "alpha is the stored alpha")
	v := [3]uint32{r, g, b}[which]
	full := uint32(ink) * uint32(k) / 0xffff
	sym.Assert(sym.Implies(al == 0xffff, near(v, full, 1)), "full alpha keeps ink times black")
	sym.Assert(sym.Implies(al == 0, v == 0), "zero alpha yields zero")
	sym.Assert(near(v, full*uint32(al)/0xffff, 1), "component times alpha")
}

// ---- models ----

type raw struct{ r, g, b, a uint32 }

func (c raw) RGBA() (uint32, uint32, uint32, uint32) { return c.r, c.g, c.b, c.a }

var models = []stdcolor.Model{color.Gray1Model, color.Gray32Model, color.NGrayAModel, color.NGrayA32Model,
	color.NGrayA64Model, color.NRGBA128Model, color.NCMYKAModel, color.NCMYKA80Model}

// own reports whether c has the type of model m.
func own(m int, c stdcolor.Color) bool {
	ok := false
	switch m {
	case 0:
		_, ok = c.(color.Gray1)
	case 1:
		_, ok = c.(color.Gray32)
	case 2:
		_, ok = c.(color.NGrayA)
	case 3:
		_, ok = c.(color.NGrayA32)
	case 4:
		_, ok = c.(color.NGrayA64)
	case 5:
		_, ok = c.(color.NRGBA128)
	case 6:
		_, ok = c.(color.NCMYKA)
	case 7:
		_, ok = c.(color.NCMYKA80)
	}
	return ok
}

// fields reads the stored components without going through RGBA.
func alphaOf(c stdcolor.Color) (full, zero bool) {
	switch v := c.(type) {
	case color.NGrayA:
		return v.A == 0xff, v.A == 0
	case color.NGrayA32:
		return v.A == 0xffff, v.A == 0
	case color.NGrayA64:
		return v.A == 1, v.A == 0
	case color.NRGBA128:
		return v.A == 1, v.A == 0
	case color.NCMYKA:
		return v.A == 0xff, v.A == 0
	case color.NCMYKA80:
		return v.A == 0xffff, v.A == 0
	}
	return true, false
}

// anyColor is a colour of type k with arbitrary stored components.
func anyColor(k int) stdcolor.Color {
	switch k {
	case 0:
		return color.Gray1{Y: sym.Bool("y")}
	case 1:
		return color.Gray32{Y: sym.F32("y")}
	case 2:
		return color.NGrayA{Y: sym.U8("y"), A: sym.U8("a")}
	case 3:
		return color.NGrayA32{Y: sym.U16("y"), A: sym.U16("a")}
	case 4:
		return color.NGrayA64{Y: sym.F32("y"), A: sym.F32("a")}
	case 5:
		return color.NRGBA128{R: sym.F32("r"), G: sym.F32("g"), B: sym.F32("b"), A: sym.F32("a")}
	case 6:
		return color.NCMYKA{C: sym.U8("c"), M: sym.U8("m"), Y: sym.U8("y"), K: sym.U8("k"), A: sym.U8("a")}
	case 7:
		return color.NCMYKA80{C: sym.U16("c"), M: sym.U16("m"), Y: sym.U16("y"), K: sym.U16("k"), A: sym.U16("a")}
	}
	// any valid premultiplied colour
	r, g, b, a := uint32(sym.U16("r")), uint32(sym.U16("g")), uint32(sym.U16("b")), uint32(sym.U16("a"))
	sym.Assume(sym.And(sym.And(r <= a, g <= a), b <= a))
	return raw{r, g, b, a}
}

// ModelTotal: any valid colour, any model: no panic, own type, alpha kept at the ends.
func ModelTotal() {
	m := sym.Choose("model", 0, len(models)-1)
	c := anyColor(8)
	_, _, _, a := c.RGBA()
	d := models[m].Convert(c)
	sym.Assert(own(m, d), "the result has the model's own colour type")
	if own(m, d) && m >= 2 {
		full, zero := alphaOf(d)
		sym.Assert(sym.Implies(a == 0xffff, full), "full alpha is kept")
		sym.Assert(sym.Implies(a == 0, zero), "zero alpha is kept")
		switch m {
		case 2, 6:
			_, _, _, al := d.RGBA()
			sym.Assert(near(al, a, 0x101), "alpha is kept to 8 bits")
		case 3, 7:
			_, _, _, al := d.RGBA()
			sym.Assert(al == a, "alpha is kept")
		}
	}
	sym.Reach("converted")
}

// ModelIdempotent: colours of the package's own types, converted by every model.
func ModelIdempotent() {
	m := sym.Choose("model", 0, len(models)-1)
	k := sym.Choose("type", 0, len(models)-1)
	c := anyColor(k)
	d := models[m].Convert(c)
	sym.Assert(own(m, d), "the result has the model's own colour type")
	if k == m {
		same := false
		switch v := c.(type) {
		case color.Gray1:
			same = v == d.(color.Gray1)
		case color.Gray32:
			w := d.(color.Gray32)
			same = sym.Or(v.Y == w.Y, v.Y != v.Y)
		case color.NGrayA:
			same = v == d.(color.NGrayA)
		case color.NGrayA32:
			same = v == d.(color.NGrayA32)
		case color.NGrayA64:
			w := d.(color.NGrayA64)
			same = sym.And(sym.Or(v.Y == w.Y, v.Y != v.Y), sym.Or(v.A == w.A, v.A != v.A))
		case color.NRGBA128:
			w := d.(color.NRGBA128)
			same = sym.And(sym.And(sym.Or(v.R == w.R, v.R != v.R), sym.Or(v.G == w.G, v.G != v.G)), sym.And(sym.Or(v.B == w.B, v.B != v.B), sym.Or(v.A == w.A, v.A != v.A)))
		case color.NCMYKA:
			same = v == d.(color.NCMYKA)
		case color.NCMYKA80:
			same = v == d.(color.NCMYKA80)
		}
		sym.Assert(same, "a colour of the model's type is unchanged")
	}
}

// ModelExtremes: opaque black and white stay opaque black and white.
func ModelExtremes() {
	m := sym.Choose("model", 0, len(models)-1)
	white := sym.Choose("white", 0, 1) == 1
	v := uint32(0)
	if white {
		v = 0xffff
	}
	r, g, b, a := models[m].Convert(raw{v, v, v, 0xffff}).RGBA()
	sym.Assert(sym.And(sym.And(r == v, g == v), sym.And(b == v, a == 0xffff)), "opaque black and white are kept")
}

// alphas are the alpha values (8 bit) of the round trips; the thorough tier adds more.
var alphas = []uint8{255, 254, 128, 64, 3, 1, 2, 16, 17, 85, 100, 127, 129, 170, 200, 240, 253}

func anAlpha() uint32 {
	n := sym.Param("alphas", len(alphas))
	return uint32(alphas[sym.Choose("alpha", 0, n-1)]) * 0x101
}

// GrayRoundTrip: the conversion of a grey with the given alpha returns a close colour.
func GrayRoundTrip() {
	m := sym.Choose("model", 2, 3)
	a := anAlpha()
	y := uint32(sym.U16("y"))
	sym.Assume(y <= a)
	r, g, b, al := models[m].Convert(raw{y, y, y, a}).RGBA()
	sym.Assert(al == a, "alpha is kept")
	d := uint32(0x101)
	if m == 3 {
		d = 2
	}
	sym.Assert(sym.And(near(r, y, d), sym.And(r == g, g == b)), "a grey keeps its value")
}

// cmyk: the brightest component and one other are fixed or symbolic in turn.
func cmyk(m stdcolor.Model, d uint32) {
	a := anAlpha()
	kind := sym.Choose("kind", 0, 3)
	var r, g, b uint32
	x := uint32(sym.U16("x"))
	sym.Assume(x <= a)
	switch kind {
	case 0: // grey of any value
		r, g, b = x, x, x
	case 1: // full red, any green, no blue
		r, g, b = a, x, 0
	case 2: // full blue, half green, any red
		r, g, b = x, a/2, a
	case 3: // dark: any red below a third of alpha, which is the green
		sym.Assume(x <= a/3)
		r, g, b = x, a/3, a/7
	}
	r2, g2, b2, al := m.Convert(raw{r, g, b, a}).RGBA()
	sym.Assert(al == a, "alpha is kept")
	sym.Assert(near(r2, r, d), "red stays close")
	sym.Assert(near(g2, g, d), "green stays close")
	sym.Assert(near(b2, b, d), "blue stays close")
}

func CMYKRoundTrip()   { cmyk(color.NCMYKAModel, sizeOf8) }
func CMYK80RoundTrip() { cmyk(color.NCMYKA80Model, 4) }

// sizeOf8: two 8-bit truncations, each below 0x101, of black and ink.
const sizeOf8 = 0x303

// ModelWhite: white of any alpha stays white of that alpha, black stays black.
func ModelWhite() {
	m := sym.Choose("model", 2, len(models)-1)
	var a uint32
	white := sym.Choose("white", 0, 1) == 1
	if m == 4 || m == 5 || white { // the alphas of the round trips and their neighbours
		a = anAlpha() + uint32(sym.Choose("next", 0, 2)) - 1
		sym.Assume(a <= 0xffff)
	} else {
		a = uint32(sym.U16("a"))
	}
	v := uint32(0)
	if white {
		v = a
	}
	d := models[m].Convert(raw{v, v, v, a})
	sym.Assert(own(m, d), "the result has the model's own colour type")
	r, g, b, al := d.RGBA()
	sym.Reach("converted")
	sym.Assert(near(al, a, 0x101), "alpha stays close")
	if m == 3 || m == 7 {
		sym.Assert(al == a, "alpha is kept")
	}
	if m == 4 || m == 5 {
		sym.Assert(near(al, a, 1), "alpha is kept within one step")
	}
	if white {
		sym.Assert(sym.And(r == al, sym.And(g == al, b == al)), "white stays white")
	} else {
		sym.Assert(sym.And(r == 0, sym.And(g == 0, b == 0)), "black stays black")
	}
}

// Gray1Nearest: an opaque grey becomes the nearer of black and white.
func Gray1Nearest() {
	y := uint32(sym.U16("y"))
	c, is := color.Gray1Model.Convert(raw{y, y, y, 0xffff}).(color.Gray1)
	sym.Reach("converted")
	sym.Assert(is && c.Y == (y >= 0x8000), "the nearer of black and white")
}
