package blendh

import (
	"image"
	"image/color"
	"image/draw"

	"verif/harness/sym"
)

const border = 1 // pixels around a picture that belong to its parent

// area is a picture within a larger one, so that its rows are apart and writes
// beside it show.
type area struct {
	img  draw.Image // the sub-image
	pix  []uint8    // of the parent
	full image.Rectangle
	size int // bytes of a pixel
}

func at(x, y, w, h int) image.Rectangle { return image.Rect(x, y, x+w, y+h) }

func newArea(kind int, r image.Rectangle, more int, name string, symbolic bool, first uint8) *area {
	a := &area{full: r.Inset(-border), size: 4}
	a.full.Max.X += more // the rows of different pictures are differently long
	if kind >= kNRGBA64 {
		a.size = 8
	}
	stride := a.full.Dx() * a.size
	a.pix = make([]uint8, stride*a.full.Dy())
	for i := range a.pix {
		a.pix[i] = first + uint8(i*5)
	}
	fill(a, r, name, symbolic)
	switch kind {
	case kNRGBA:
		a.img = (&image.NRGBA{Pix: a.pix, Stride: stride, Rect: a.full}).SubImage(r).(draw.Image)
	case kRGBA:
		a.img = (&image.RGBA{Pix: a.pix, Stride: stride, Rect: a.full}).SubImage(r).(draw.Image)
	case kNRGBA64:
		a.img = (&image.NRGBA64{Pix: a.pix, Stride: stride, Rect: a.full}).SubImage(r).(draw.Image)
	default:
		a.img = (&image.RGBA64{Pix: a.pix, Stride: stride, Rect: a.full}).SubImage(r).(draw.Image)
	}
	return a
}

// fill makes the colours of the first pixels symbolic and every alpha partial.
func fill(a *area, r image.Rectangle, name string, symbolic bool) {
	for y := a.full.Min.Y; y < a.full.Max.Y; y++ {
		for x := a.full.Min.X; x < a.full.Max.X; x++ {
			p := a.at(x, y)
			in := image.Pt(x, y).In(r)
			for i := range p {
				if i >= len(p)*3/4 {
					p[i] = p[i]%56 + 200
				} else if p[i] %= 200; in && symbolic && i == 0 {
					p[i] = sym.U8(name)
				}
			}
			if in && symbolic {
				sym.Assume(p[0] <= 200)
			}
		}
	}
}

func (a *area) at(x, y int) []uint8 {
	o := ((y-a.full.Min.Y)*a.full.Dx() + x - a.full.Min.X) * a.size
	return a.pix[o : o+a.size : o+a.size]
}

// single draws one pixel onto one pixel.
func single(d draw.Drawer, dk int, dst []uint8, src image.Image, mask image.Image) []uint8 {
	b := append([]uint8(nil), dst...)
	var m draw.Image
	switch dk {
	case kNRGBA:
		m = &image.NRGBA{Pix: b, Stride: 4, Rect: one()}
	case kRGBA:
		m = &image.RGBA{Pix: b, Stride: 4, Rect: one()}
	case kNRGBA64:
		m = &image.NRGBA64{Pix: b, Stride: 8, Rect: one()}
	default:
		m = &image.RGBA64{Pix: b, Stride: 8, Rect: one()}
	}
	if md, ok := d.(maskDrawer); ok {
		md.DrawMask(m, one(), src, image.Point{}, mask, image.Point{})
	} else {
		d.Draw(m, one(), src, image.Point{})
	}
	return b
}

type maskDrawer interface {
	DrawMask(dst draw.Image, r image.Rectangle, src image.Image, sp image.Point, mask image.Image, mp image.Point)
}

func singleImage(kind int, b []uint8) image.Image {
	switch kind {
	case kNRGBA:
		return &image.NRGBA{Pix: b, Stride: 4, Rect: one()}
	case kRGBA:
		return &image.RGBA{Pix: b, Stride: 4, Rect: one()}
	case kNRGBA64:
		return &image.NRGBA64{Pix: b, Stride: 8, Rect: one()}
	}
	return &image.RGBA64{Pix: b, Stride: 8, Rect: one()}
}

// rectangle is any rectangle around the given one, empty and inverted ones included.
func rectangle(r image.Rectangle) image.Rectangle {
	return image.Rectangle{
		Min: point("min", r.Min.Add(image.Pt(-1, -1)), r.Max),
		Max: point("max", r.Min.Add(image.Pt(-1, -1)), r.Max.Add(image.Pt(1, 1))),
	}
}

func point(name string, lo, hi image.Point) image.Point {
	return image.Pt(sym.Range(name+" x", lo.X, hi.X), sym.Range(name+" y", lo.Y, hi.Y))
}

var origins = [][3]image.Point{
	{{0, 0}, {0, 0}, {0, 0}},
	{{-2, 3}, {1, -2}, {-1, -4}},
	{{5, -1}, {-3, -1}, {2, 0}},
}

// some3 are some rectangles (corners relative to the destination's) and source
// and mask points.
var some3 = [][4]image.Point{
	{{-1, 0}, {1, 1}, {-1, 0}, {-1, 0}},
	{{1, 0}, {0, 0}, {0, 1}, {1, 0}},
	{{0, 1}, {0, 1}, {1, 0}, {0, 0}},
	{{0, 0}, {-1, 0}, {0, 0}, {0, -1}},
}

// geometry draws with the drawer d and checks every byte of the destination's parent.
func geometry(d draw.Drawer, dk, sk, mk int, name string, symbolic, every bool) {
	sym.Opt("concindex", 1000)
	w, h := sym.Param("w", 2), sym.Param("h", 2)
	if !every {
		w, h = 3, 2
	}
	o := origins[sym.Choose("origin", 0, sym.Param("origins", 0))+sym.Param("origin0", 1)]
	dr, sr, mr := at(o[0].X, o[0].Y, w, h), at(o[1].X, o[1].Y, w, h), at(o[2].X, o[2].Y, w, h)
	dst := newArea(dk, dr, 0, "d", symbolic, 7)
	var src *area
	var simg image.Image
	switch sk {
	case kUniform:
		simg = &image.Uniform{C: color.RGBA{90, 60, 30, 200}}
		sr = image.Rect(-100, -100, 100, 100)
	case kAlpha:
		p := make([]uint8, (w+3)*(h+2))
		for i := range p {
			p[i] = uint8(3 + i*17)
		}
		simg = (&image.Alpha{Pix: p, Stride: w + 3, Rect: sr.Inset(-border)}).SubImage(sr)
	default:
		src = newArea(sk, sr, 2, "s", symbolic, 90)
		simg = src.img
	}
	var mask image.Image
	var am *image.Alpha
	switch mk {
	case 0:
		mask = &image.Uniform{C: color.Alpha{A: 150}}
	case 1:
		p := make([]uint8, (w+5)*(h+2))
		for i := range p {
			p[i] = uint8(3 + i*21)
		}
		am = (&image.Alpha{Pix: p, Stride: w + 5, Rect: mr.Inset(-border)}).SubImage(mr).(*image.Alpha)
		mask = am
	}
	var r image.Rectangle
	var sp, mp image.Point
	if every {
		r = rectangle(dr)
		if sk != kUniform {
			sp = point("source", sr.Min.Add(image.Pt(-1, -1)), sr.Max)
		}
		if mk == 1 {
			mp = point("mask", mr.Min.Add(image.Pt(-1, -1)), mr.Max)
		}
	} else {
		g := some3[sym.Choose("case", 0, len(some3)-1)]
		r = image.Rectangle{Min: dr.Min.Add(g[0]), Max: dr.Max.Add(g[1])}
		sp, mp = sr.Min.Add(g[2]), mr.Min.Add(g[3])
	}
	before := &area{pix: append([]uint8(nil), dst.pix...), full: dst.full, size: dst.size}
	if md, ok := d.(maskDrawer); ok {
		md.DrawMask(dst.img, r, simg, sp, mask, mp)
	} else {
		d.Draw(dst.img, r, simg, sp)
	}
	for y := dst.full.Min.Y; y < dst.full.Max.Y; y++ {
		for x := dst.full.Min.X; x < dst.full.Max.X; x++ {
			want := before.at(x, y)
			s := image.Pt(x-r.Min.X+sp.X, y-r.Min.Y+sp.Y)
			m := image.Pt(x-r.Min.X+mp.X, y-r.Min.Y+mp.Y)
			in := inside(image.Pt(x, y), r) && inside(image.Pt(x, y), dr) && inside(s, sr)
			if in && mk == 1 {
				in = inside(m, mr)
			}
			if in {
				s.X, s.Y = sym.Conc(s.X), sym.Conc(s.Y)
				var px image.Image
				switch sk {
				case kUniform:
					px = simg
				case kAlpha:
					px = &image.Alpha{Pix: []uint8{simg.(*image.Alpha).AlphaAt(s.X, s.Y).A}, Stride: 1, Rect: one()}
				default:
					px = singleImage(sk, src.at(s.X, s.Y))
				}
				pm := mask
				if mk == 1 {
					pm = &image.Alpha{Pix: []uint8{am.AlphaAt(sym.Conc(m.X), sym.Conc(m.Y)).A}, Stride: 1, Rect: one()}
				}
				want = single(d, dk, want, px, pm)
			}
			sym.Assert(sym.Eq(dst.at(x, y), want), name+" draws the clipped rectangle and nothing else")
		}
	}
}

func inside(p image.Point, r image.Rectangle) bool {
	return sym.And(sym.And(r.Min.X <= p.X, p.X < r.Max.X), sym.And(r.Min.Y <= p.Y, p.Y < r.Max.Y))
}

// Geometry: any rectangle and points, with some modes.
func Geometry() {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", len(modes)-1))]
	var dk, sk, mk int
	if sym.Param("some", 0) == 1 {
		p := [][3]int{{kRGBA, kNRGBA, 2}, {kNRGBA, kRGBA, 1}, {kNRGBA64, kNRGBA64, 0}}[sym.Choose("some", 0, 2)]
		dk, sk, mk = p[0], p[1], p[2]
	} else {
		dk, sk, mk = paths()
	}
	geometry(m.d, dk, sk, mk, m.name, m.f != nil, true)
}

// GeometryModes: every blend mode, with some rectangles and points.
func GeometryModes() {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", len(modes)-1))]
	dk, sk, mk := paths()
	geometry(m.d, dk, sk, mk, m.name, m.f != nil, false)
}

func operatorPaths() (dk, sk int) {
	k := sym.Choose("path", 0, sym.Param("paths", 9))
	dk, sk = k&1, k>>1
	if k >= 8 {
		return k - 6, k - 6
	}
	if sk > 1 {
		sk += 2
	}
	return
}

// GeometryOperator: any rectangle and points, with some operators.
func GeometryOperator() {
	o := operators[sym.Choose("operator", sym.Param("lo", 0), sym.Param("hi", len(operators)-1))]
	dk, sk := operatorPaths()
	geometry(o.d, dk, sk, 2, o.name, true, true)
}

// GeometryOperators: every operator, with some rectangles and points.
func GeometryOperators() {
	o := operators[sym.Choose("operator", sym.Param("lo", 0), sym.Param("hi", len(operators)-1))]
	dk, sk := operatorPaths()
	geometry(o.d, dk, sk, 2, o.name, true, false)
}
