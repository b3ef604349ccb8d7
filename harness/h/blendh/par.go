package blendh

import (
	"image"
	"image/color"
	"image/draw"

	"verif/harness/sym"
)

// column is a picture of the given height, one pixel wide, with distinct pixels.
func column(kind, h int, first uint8) draw.Image { return grid(kind, 1, h, first) }

func grid(kind, w, h int, first uint8) draw.Image {
	size := 4
	if kind >= kNRGBA64 {
		size = 8
	}
	p := make([]uint8, size*w*h)
	for i := range p {
		if p[i] = (first + uint8(i*7)) % 200; i%size >= size*3/4 {
			p[i] = p[i]%56 + 200
		}
	}
	return onPix(kind, p, size*w, image.Rect(0, 0, w, h))
}

func onPix(kind int, p []uint8, stride int, r image.Rectangle) draw.Image {
	switch kind {
	case kNRGBA:
		return &image.NRGBA{Pix: p, Stride: stride, Rect: r}
	case kRGBA:
		return &image.RGBA{Pix: p, Stride: stride, Rect: r}
	case kNRGBA64:
		return &image.NRGBA64{Pix: p, Stride: stride, Rect: r}
	}
	return &image.RGBA64{Pix: p, Stride: stride, Rect: r}
}

func clone(kind int, m draw.Image) draw.Image {
	b := m.Bounds()
	p := append([]uint8(nil), pix(m)...)
	size := 4
	if kind >= kNRGBA64 {
		size = 8
	}
	return onPix(kind, p, size*b.Dx(), b)
}

func mixed(m draw.Image, name string) {
	p := pix(m)
	for i := range p {
		if i%4 == 0 {
			p[i] = sym.U8(name)
			sym.Assume(p[i] <= 200)
		}
	}
}

// parallel draws on several CPUs and on one. The rows of the destination are two
// pixels wide, the drawing is at their end and may go upwards.
func parallel(d draw.Drawer, dk, sk, mk int, name string) {
	n := sym.Choose("cpus", 2, sym.Param("cpus", 3))
	h := sym.Choose("height", 1, sym.Param("height", 7))
	up := sym.Choose("up", 0, 1) // the destination lies below the source point
	dst := grid(dk, 2, h+up, 11)
	if dk < kNRGBA64 {
		mixed(dst, "d")
	}
	ref := clone(dk, dst)
	var src image.Image
	switch sk {
	case kUniform:
		src = &image.Uniform{C: color.RGBA{90, 60, 30, 200}}
	case kAlpha:
		src = column(kNRGBA, h, 99)
		src = &image.Alpha{Pix: pix(src.(draw.Image)), Stride: 1, Rect: src.Bounds()}
	default:
		src = grid(sk, 3, h, 99)
	}
	var mask image.Image
	switch mk {
	case 0:
		mask = &image.Uniform{C: color.Alpha{A: 150}}
	case 1:
		p := make([]uint8, h)
		for i := range p {
			p[i] = uint8(20 + i*30)
		}
		mask = &image.Alpha{Pix: p, Stride: 1, Rect: image.Rect(0, 0, 1, h)}
	}
	r := image.Rect(1, up, 2, up+h)
	do := func(dst draw.Image) {
		if md, ok := d.(maskDrawer); ok {
			md.DrawMask(dst, r, src, image.Point{}, mask, image.Point{})
		} else {
			d.Draw(dst, r, src, image.Point{})
		}
	}
	sym.Procs(1)
	do(ref)
	sym.Procs(n)
	do(dst)
	sym.Procs(1)
	sym.Assert(sym.Eq(pix(dst), pix(ref)), name+" draws the same picture on several CPUs")
}

// Parallel: blend modes.
func Parallel() {
	m := modes[[]int{0, 9, 23}[sym.Choose("mode", 0, sym.Param("modes", 1))]]
	dk, sk, mk := paths()
	parallel(m.d, dk, sk, mk, m.name)
}

// ParallelOperators: Porter-Duff operators.
func ParallelOperators() {
	o := operators[[]int{3, 11, 5}[sym.Choose("operator", 0, sym.Param("operators", 1))]]
	dk, sk := operatorPaths()
	parallel(o.d, dk, sk, 2, o.name)
}

// self draws an image onto itself and compares with drawing a copy.
func self(d draw.Drawer, kind, mk int, name string, symbolic, every bool) {
	sym.Opt("concindex", 1000)
	w, h := sym.Param("w", 2), sym.Param("h", 3)
	n := sym.Choose("cpus", 1, sym.Param("cpus", 1))
	if n == 1 && sym.Choose("turned", 0, 1) == 1 {
		w, h = h, w
	}
	if n > 1 {
		w, h = 1, 4*n-2
	}
	r0 := at(-1, 2, w, h)
	dst := onPix(kind, pix(column(kind, w*h, 11)), len(pix(column(kind, 1, 11)))*w, r0)
	if kind < kNRGBA64 && symbolic {
		mixed(dst, "d")
	}
	ref, src := clone(kind, dst), clone(kind, dst)
	var mask image.Image
	switch mk {
	case 0:
		mask = &image.Uniform{C: color.Alpha{A: 150}}
	case 1:
		p := make([]uint8, w*h)
		for i := range p {
			p[i] = uint8(20 + i*30)
		}
		mask = &image.Alpha{Pix: p, Stride: w, Rect: at(0, 0, w, h)}
	}
	var r image.Rectangle
	var sp image.Point
	if every {
		r = image.Rectangle{Min: point("min", r0.Min, r0.Max.Sub(image.Pt(1, 1))), Max: r0.Max}
		sp = point("source", r0.Min, r0.Max.Sub(image.Pt(1, 1)))
	} else {
		o := [][2]image.Point{{{0, 0}, {0, 1}}, {{0, 1}, {0, 0}}, {{0, 0}, {1, 0}}, {{1, 0}, {0, 0}}, {{1, 0}, {0, 1}}, {{0, 1}, {1, 0}}, {{1, 1}, {0, 0}}, {{0, 0}, {0, 0}}}[sym.Choose("case", 0, 7)]
		r, sp = image.Rectangle{Min: r0.Min.Add(o[0]), Max: r0.Max}, r0.Min.Add(o[1])
	}
	do := func(dst, src draw.Image) {
		if md, ok := d.(maskDrawer); ok {
			md.DrawMask(dst, r, src, sp, mask, image.Point{})
		} else {
			d.Draw(dst, r, src, sp)
		}
	}
	sym.Procs(1)
	do(ref, src)
	sym.Procs(n)
	do(dst, dst)
	sym.Procs(1)
	sym.Assert(sym.Eq(pix(dst), pix(ref)), name+" onto itself draws what a copy of the image gives")
}

// Self: blend modes, some offsets.
func Self() {
	m := modes[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", len(modes)-1))]
	k := sym.Choose("path", 0, 3)
	mk := sym.Choose("mask", 0, 2)
	if k >= kNRGBA64 && mk == 2 {
		mk = 0
	}
	self(m.d, k, mk, m.name, m.f != nil, false)
}

// SelfEvery: all offsets, some modes.
func SelfEvery() {
	m := modes[[]int{0, 9, 23}[sym.Choose("mode", 0, sym.Param("modes", 0))]]
	k := sym.Choose("path", 0, 3)
	self(m.d, k, k%2, m.name, m.f != nil, true)
}

// SelfOperators: operators, some offsets.
func SelfOperators() {
	o := operators[sym.Choose("operator", sym.Param("lo", 0), sym.Param("hi", len(operators)-1))]
	self(o.d, sym.Choose("path", 0, 3), 2, o.name, true, false)
}

// SelfParallel: several CPUs.
func SelfParallel() {
	k := sym.Choose("path", 0, 3)
	if sym.Choose("kind", 0, 1) == 0 {
		m := modes[[]int{0, 9, 23}[sym.Choose("mode", 0, sym.Param("modes", 0))]]
		self(m.d, k, sym.Choose("mask", 0, 2), m.name, m.f != nil, false)
		return
	}
	o := operators[3]
	self(o.d, k, 2, o.name, true, false)
}
