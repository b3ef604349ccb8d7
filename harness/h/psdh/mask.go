package psdh

import (
	"image"
	"math"

	"github.com/oov/psd"
	"verif/harness/sym"
)

type maskRef struct {
	b   []byte
	pos int
}

func (m *maskRef) has(n int) bool { return len(m.b)-m.pos >= n }
func (m *maskRef) u8() int        { m.pos++; return int(m.b[m.pos-1]) }
func (m *maskRef) rect() (v [4]int) {
	for i := range v {
		v[i] = int(int32(be32(m.b, m.pos)))
		m.pos += 4
	}
	return
}
func (m *maskRef) f64() uint64 {
	v := uint64(be32(m.b, m.pos))<<32 | uint64(be32(m.b, m.pos+4))
	m.pos += 8
	return v
}

func mkRect(v [4]int) image.Rectangle { return image.Rect(v[1], v[0], v[3], v[2]) }

// refMask reads a mask block by the field order of the file format document;
// reading stops at the first field that is not completely present.
func refMask(b []byte) (w psd.Mask, uf, vf uint64) {
	m := &maskRef{b: b}
	if !m.has(16) {
		return
	}
	w.Rect = mkRect(m.rect())
	if !m.has(1) {
		return
	}
	w.DefaultColor = m.u8()
	if !m.has(1) {
		return
	}
	w.Flags = m.u8()
	w.UserMaskDensity, w.VectorMaskDensity = 255, 255
	if w.Flags&16 != 0 {
		if !m.has(1) {
			return
		}
		par := m.u8()
		if par&1 != 0 {
			if !m.has(1) {
				return
			}
			w.UserMaskDensity = m.u8()
		}
		if par&2 != 0 {
			if !m.has(8) {
				return
			}
			uf = m.f64()
		}
		if par&4 != 0 {
			if !m.has(1) {
				return
			}
			w.VectorMaskDensity = m.u8()
		}
		if par&8 != 0 {
			if !m.has(8) {
				return
			}
			vf = m.f64()
		}
	}
	if len(b) == 20 || !m.has(1) {
		return
	}
	w.RealFlags = m.u8()
	if !m.has(1) {
		return
	}
	w.RealBackgroundColor = m.u8()
	if m.has(16) {
		w.RealRect = mkRect(m.rect())
	}
	return
}

func sameRect(a, b image.Rectangle) bool {
	return sym.And(sym.And(a.Min.X == b.Min.X, a.Min.Y == b.Min.Y), sym.And(a.Max.X == b.Max.X, a.Max.Y == b.Max.Y))
}

// sameFloat: NaN payloads may be changed by a conversion, their kind may not.
func sameFloat(f float64, v uint64) bool {
	return math.Float64bits(f) == v
}

// Masks: mask data of every size in [lo,hi], all bytes symbolic, between two records.
func Masks() {
	d := gray1x1(false)
	size := sym.Choose("size", sym.Param("lo", 0), sym.Param("hi", 60))
	mask := sym.Bytes("mask", size)
	ranges := sym.Bytes("ranges", sym.Choose("ranges", 0, 1)*3)
	d.layers = []lay{
		{mask: mask, ranges: ranges, name: []byte("ab"), opacity: 9},
		{opacity: 7, name: []byte("c")},
	}
	p := ok(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	w, uf, vf := refMask(mask)
	sym.Reach("decoded")
	sym.Assert(len(p.Layer) == 2, "number of layers")
	g := &p.Layer[0].Mask
	sym.Assert(sameRect(g.Rect, w.Rect), "mask rectangle")
	sym.Assert(g.DefaultColor == w.DefaultColor, "default colour")
	sym.Assert(g.Flags == w.Flags, "flags")
	sym.Assert(g.Enabled() == (w.Flags&2 == 0), "enabled")
	sym.Assert(g.UserMaskDensity == w.UserMaskDensity, "user mask density")
	sym.Assert(g.VectorMaskDensity == w.VectorMaskDensity, "vector mask density")
	sym.Assert(sameFloat(g.UserMaskFeather, uf), "user mask feather")
	sym.Assert(sameFloat(g.VectorMaskFeather, vf), "vector mask feather")
	sym.Assert(g.RealFlags == w.RealFlags, "real flags")
	sym.Assert(g.RealEnabled() == (w.RealFlags&2 == 0), "real enabled")
	sym.Assert(g.RealBackgroundColor == w.RealBackgroundColor, "real background")
	sym.Assert(sameRect(g.RealRect, w.RealRect), "real rectangle")
	sym.Assert(p.Layer[0].MBCSName == "ab" && p.Layer[0].Opacity == 9, "the record goes on")
	sym.Assert(p.Layer[1].MBCSName == "c" && p.Layer[1].Opacity == 7, "the next record")
	sym.Assert(p.Layer[1].Mask == psd.Mask{}, "no mask in the next record")
}
