package blendh

import (
	"image"
	"image/draw"

	"github.com/oov/psd/blend"
	"verif/harness/sym"
)

type mode struct {
	name string
	d    blend.Drawer
	// f is the mode's formula on two colour values from 0 to 255, nil when the
	// mode is not separable
	f func(s, d int) int
}

func ite(c bool, a, b int) int { return sym.Ite(c, a, b) }
func min(a, b int) int         { return sym.Ite(a < b, a, b) }
func max(a, b int) int         { return sym.Ite(a > b, a, b) }

// div divides, with a zero denominator allowed where the result is not used.
func div(a, b int) int { return a / ite(b <= 0, 1, b) }

// Formulas of https://www.w3.org/TR/compositing-1/#blending and, for the modes
// it lacks, of the references named in genblend.go.
func fNormal(s, d int) int   { return s }
func fDarken(s, d int) int   { return min(s, d) }
func fMultiply(s, d int) int { return s * d / 255 }
func fColorBurn(s, d int) int {
	return ite(d == 255, 255, ite(s == 0, 0, 255-min(255, div((255-d)*255, s))))
}
func fLinearBurn(s, d int) int { return max(0, s+d-255) }
func fLighten(s, d int) int    { return max(s, d) }
func fScreen(s, d int) int     { return s + d - s*d/255 }
func fColorDodge(s, d int) int {
	return ite(d == 0, 0, ite(s == 255, 255, min(255, div(d*255, 255-s))))
}
func fLinearDodge(s, d int) int { return min(255, s+d) }
func fHardLight(s, d int) int {
	return ite(2*s <= 255, 2*s*d/255, fScreen(2*s-255, d))
}
func fOverlay(s, d int) int     { return fHardLight(d, s) }
func fLinearLight(s, d int) int { return max(0, min(255, d+2*s-255)) }
func fVividLight(s, d int) int {
	lo := ite(s == 0, 0, 255-min(255, div((255-d)*255, 2*s)))
	hi := ite(s == 255, 255, min(255, div(d*255, 2*(255-s))))
	return ite(2*s <= 255, lo, hi)
}
func fPinLight(s, d int) int {
	return ite(2*s <= 255, min(d, 2*s), max(d, 2*s-255))
}
func fDifference(s, d int) int { return max(s-d, d-s) }
func fExclusion(s, d int) int  { return s + d - 2*s*d/255 }
func fSubtract(s, d int) int   { return max(0, d-s) }
func fDivide(s, d int) int {
	return ite(d == 0, 0, ite(s == 0, 255, min(255, div(d*255, s))))
}

var modes = []mode{
	{"normal", blend.Normal, fNormal},
	{"darken", blend.Darken, fDarken},
	{"multiply", blend.Multiply, fMultiply},
	{"color burn", blend.ColorBurn, fColorBurn},
	{"linear burn", blend.LinearBurn, fLinearBurn},
	{"lighten", blend.Lighten, fLighten},
	{"screen", blend.Screen, fScreen},
	{"color dodge", blend.ColorDodge, fColorDodge},
	{"linear dodge", blend.LinearDodge, fLinearDodge},
	{"add", blend.Add, fLinearDodge},
	{"overlay", blend.Overlay, fOverlay},
	{"hard light", blend.HardLight, fHardLight},
	{"linear light", blend.LinearLight, fLinearLight},
	{"vivid light", blend.VividLight, fVividLight},
	{"pin light", blend.PinLight, fPinLight},
	{"difference", blend.Difference, fDifference},
	{"exclusion", blend.Exclusion, fExclusion},
	{"subtract", blend.Subtract, fSubtract},
	{"divide", blend.Divide, fDivide},
	// separable modes checked on their own
	{"soft light", blend.SoftLight, nil},
	{"hard mix", blend.HardMix, nil},
	// non-separable modes
	{"darker color", blend.DarkerColor, nil},
	{"lighter color", blend.LighterColor, nil},
	{"hue", blend.Hue, nil},
	{"saturation", blend.Saturation, nil},
	{"color", blend.Color, nil},
	{"luminosity", blend.Luminosity, nil},
}

const (
	separable  = 19 // modes with a formula
	modeDarker = 21
	modeHue    = 23
)

var operators = []struct {
	name string
	d    draw.Drawer
}{
	{"clear", blend.Clear}, {"copy", blend.Copy}, {"dest", blend.Dest},
	{"src over", blend.SrcOver}, {"dest over", blend.DestOver},
	{"src in", blend.SrcIn}, {"dest in", blend.DestIn},
	{"src out", blend.SrcOut}, {"dest out", blend.DestOut},
	{"src atop", blend.SrcAtop}, {"dest atop", blend.DestAtop}, {"xor", blend.XOR},
}

// near: |x-y| <= d
func near(x, y, d int) bool { return sym.And(x <= y+d, y <= x+d) }

// Image kinds.
const (
	kNRGBA = iota
	kRGBA
	kNRGBA64
	kRGBA64
)

// pixel is a straight-alpha pixel.
type pixel struct {
	c [3]uint8
	a uint8
}

func one() image.Rectangle { return image.Rect(0, 0, 1, 1) }

// img makes an image of one pixel with the given straight or premultiplied bytes.
func img(kind int, p pixel) draw.Image {
	switch kind {
	case kNRGBA:
		return &image.NRGBA{Pix: []uint8{p.c[0], p.c[1], p.c[2], p.a}, Stride: 4, Rect: one()}
	case kRGBA:
		return &image.RGBA{Pix: []uint8{p.c[0], p.c[1], p.c[2], p.a}, Stride: 4, Rect: one()}
	case kNRGBA64:
		return &image.NRGBA64{Pix: []uint8{p.c[0], p.c[0], p.c[1], p.c[1], p.c[2], p.c[2], p.a, p.a}, Stride: 8, Rect: one()}
	}
	return &image.RGBA64{Pix: []uint8{p.c[0], p.c[0], p.c[1], p.c[1], p.c[2], p.c[2], p.a, p.a}, Stride: 8, Rect: one()}
}

// got reads the pixel back, the high bytes only.
func got(m draw.Image) (p pixel) {
	switch m := m.(type) {
	case *image.NRGBA:
		return pixel{[3]uint8{m.Pix[0], m.Pix[1], m.Pix[2]}, m.Pix[3]}
	case *image.RGBA:
		return pixel{[3]uint8{m.Pix[0], m.Pix[1], m.Pix[2]}, m.Pix[3]}
	case *image.NRGBA64:
		return pixel{[3]uint8{m.Pix[0], m.Pix[2], m.Pix[4]}, m.Pix[6]}
	case *image.RGBA64:
		return pixel{[3]uint8{m.Pix[0], m.Pix[2], m.Pix[4]}, m.Pix[6]}
	}
	panic("kind")
}

func colour(name string) [3]uint8 {
	return [3]uint8{sym.U8(name + "r"), sym.U8(name + "g"), sym.U8(name + "b")}
}
