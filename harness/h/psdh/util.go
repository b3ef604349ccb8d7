package psdh

import (
	"image"
	"image/color"
	"math"

	psdColor "github.com/oov/psd/color"
	"verif/harness/sym"
)

func f32bits(f float32) uint32 { return math.Float32bits(f) }

// sameModel compares the reported model with the one of the picture.
func sameModel(cfg image.Config, m image.Image) bool {
	a, pa := cfg.ColorModel.(color.Palette)
	b, pb := m.ColorModel().(color.Palette)
	if pa != pb {
		return false
	}
	if !pa {
		return cfg.ColorModel == m.ColorModel()
	}
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameColor compares two colours; floats are compared bit by bit.
func sameColor(a, b color.Color) {
	switch a := a.(type) {
	case psdColor.Gray32:
		b, is := b.(psdColor.Gray32)
		sym.Assert(is && f32bits(a.Y) == f32bits(b.Y), "picture")
	case psdColor.NGrayA64:
		b, is := b.(psdColor.NGrayA64)
		sym.Assert(is && f32bits(a.Y) == f32bits(b.Y) && f32bits(a.A) == f32bits(b.A), "picture")
	case psdColor.NRGBA128:
		b, is := b.(psdColor.NRGBA128)
		sym.Assert(is && f32bits(a.R) == f32bits(b.R) && f32bits(a.G) == f32bits(b.G) && f32bits(a.B) == f32bits(b.B) && f32bits(a.A) == f32bits(b.A), "picture")
	default:
		sym.Assert(a == b, "picture")
	}
}
