package comph

import (
	"context"
	"image"

	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"
	"verif/harness/sym"
)

// pattern is a picture of symbolic colours; the alphas are concrete, some of them zero,
// but the first ones (up to the parameter) symbolic.
func pattern(name string, r image.Rectangle, alphas int) []byte {
	p := make([]byte, 4*r.Dx()*r.Dy())
	for i := range p {
		if i&3 != 3 {
			p[i] = sym.U8(name)
			continue
		}
		if i>>2 < alphas {
			p[i] = sym.U8(name + " alpha")
		} else {
			p[i] = []byte{255, 77, 0, 255, 201}[(i>>2)%5]
		}
	}
	return p
}

// shows compares a rendered picture with a single layer at its place.
func shows(got *image.NRGBA, n *node, msg string) {
	b := got.Rect
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			o := got.PixOffset(x, y)
			w := n.pixel(x, y)
			sym.Assert(got.Pix[o+3] == w[3], msg)
			sym.Assert(sym.Or(w[3] != 0, sym.And(sym.And(got.Pix[o] == 0, got.Pix[o+1] == 0), got.Pix[o+2] == 0)), msg)
			for i := 0; i < 3; i++ {
				sym.Assert(sym.Or(w[3] == 0, near(int(got.Pix[o+i]), int(w[i]), 1)), msg)
			}
		}
	}
}

func near(x, y, d int) bool { return sym.Or(x == y, sym.And(x <= y+d, y <= x+d)) }

func place(prefix string, lo, hi, w, h int) image.Rectangle {
	x := sym.Choose(prefix+" x", lo, hi)
	y := sym.Choose(prefix+" y", lo, hi)
	return image.Rect(x, y, x+sym.Choose(prefix+" width", 1, w), y+sym.Choose(prefix+" height", 1, h))
}

// LayerTiles: a single layer at any place, rendered.
func LayerTiles() {
	tile := sym.Choose("tile", 1, sym.Param("tile", 3))
	w, h := sym.Param("cw", 4), sym.Param("ch", 4)
	r := place("layer", -3, 4, sym.Param("w", 3), sym.Param("h", 3))
	n := &node{rect: r, pix: pattern("pix", r, sym.Param("alphas", 1)), noAlpha: sym.Choose("noalpha", 0, 1) == 1}
	t := open(w, h, []*node{n}, options(tile))
	c := image.Rect(0, 0, w, h)
	sym.Assert(t.CanvasRect == c, "the canvas is the size of the picture")
	got := render(t, c)
	sym.Reach("rendered")
	shows(got, n, "a layer is shown at its place")
	if sym.Choose("transform", 0, 1) == 1 {
		t2, err := t.Transform(context.Background(), f64.Aff3{1, 0, 0, 0, 1, 0}, 0)
		sym.Assert(err == nil, "the identity transformation")
		sym.Assert(t2.CanvasRect == c, "the identity transformation keeps the canvas")
		shows(render(t2, c), n, "the identity transformation keeps the layer")
	}
}

// MaskTiles: a mask at any place over a layer that fills the canvas.
func MaskTiles() {
	tile := sym.Choose("tile", 1, sym.Param("tile", 3))
	w, h := sym.Param("cw", 3), sym.Param("ch", 2)
	c := image.Rect(0, 0, w, h)
	n := &node{rect: c, pix: make([]byte, 4*w*h)}
	for i := range n.pix {
		n.pix[i] = uint8(i * 9)
		if i&3 == 3 {
			n.pix[i] = 255
		}
	}
	r := place("mask", -2, 2, sym.Param("w", 2), sym.Param("h", 2))
	m := &maskSpec{rect: r, def: 255 * sym.Choose("default", 0, 1), data: sym.Bytes("mask", r.Dx()*r.Dy())}
	n.mask = m
	t := open(w, h, []*node{n}, options(tile))
	got := render(t, c)
	sym.Reach("rendered")
	check := func(got *image.NRGBA) {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				a := uint8(m.def)
				if image.Pt(x, y).In(r) {
					a = m.data[(y-r.Min.Y)*r.Dx()+x-r.Min.X]
				}
				o := got.PixOffset(x, y)
				sym.Assert(got.Pix[o+3] == a, "a mask is applied at its place")
				p := n.pixel(x, y)
				for i := 0; i < 1; i++ {
					sym.Assert(sym.Or(a == 0, near(int(got.Pix[o+i]), int(p[i]), 1)), "a mask changes no colour")
				}
			}
		}
	}
	check(got)
	if sym.Choose("transform", 0, 1) == 1 {
		t2, err := t.Transform(context.Background(), f64.Aff3{1, 0, 0, 0, 1, 0}, 0)
		sym.Assert(err == nil, "the identity transformation")
		check(render(t2, c))
	}
}

// TilesParallel: tall pictures on several CPUs.
func TilesParallel() {
	n := sym.Choose("cpus", 1, sym.Param("cpus", 3))
	tile := sym.Choose("tile", 1, 2)
	w, h := 1, sym.Choose("h", 1, sym.Param("h", 7))
	r := image.Rect(0, sym.Choose("y", -1, 1), 1, h+sym.Choose("bottom", -1, 1))
	if r.Empty() {
		return
	}
	l := &node{rect: r, pix: pattern("pix", r, 0)}
	m := &maskSpec{rect: r, def: 255 * sym.Choose("default", 0, 1), data: make([]byte, r.Dx()*r.Dy())}
	for i := range m.data {
		m.data[i] = []byte{255, 3, 0, 200, 255}[i%5]
	}
	top := &node{rect: r, pix: pattern("pix", r, 0), mask: m}
	var tr *composite.Tree
	var outs []*image.NRGBA
	for _, k := range []int{1, n} {
		sym.Procs(k)
		tr = open(w, h, []*node{l, top}, options(tile))
		outs = append(outs, render(tr, image.Rect(0, 0, w, h)))
	}
	sym.Procs(1)
	sym.Reach("rendered")
	sameBytes(outs[0].Pix, outs[1].Pix, 0, "the picture does not depend on the number of CPUs")
}

// moved is the node with its pixels at the places f gives.
func (n *node) moved(f func(x, y int) image.Point) *node {
	a, b := f(n.rect.Min.X, n.rect.Min.Y), f(n.rect.Max.X-1, n.rect.Max.Y-1)
	m := &node{rect: image.Rectangle{Min: a, Max: b}.Canon()}
	m.rect.Max = m.rect.Max.Add(image.Pt(1, 1))
	m.pix = make([]byte, len(n.pix))
	for y := n.rect.Min.Y; y < n.rect.Max.Y; y++ {
		for x := n.rect.Min.X; x < n.rect.Max.X; x++ {
			p := n.pixel(x, y)
			q := f(x, y).Sub(m.rect.Min)
			copy(m.pix[4*(q.Y*m.rect.Dx()+q.X):], p[:])
		}
	}
	return m
}

// Moved: the tree is moved by whole pixels, to negative coordinates too, turned and mirrored.
func Moved() {
	tile := sym.Choose("tile", 1, sym.Param("tile", 3))
	w, h := sym.Param("cw", 3), sym.Param("ch", 2)
	n := &node{rect: image.Rect(0, 0, w, h)}
	n.pix = make([]byte, 4*w*h)
	for i := range n.pix {
		n.pix[i] = uint8(i * 7)
		if i < sym.Param("symbolic", 4) {
			n.pix[i] = sym.U8("pix")
		}
		if i&3 == 3 {
			n.pix[i] = 255
		}
	}
	move := func(k string, which int) (f64.Aff3, func(x, y int) image.Point) {
		switch which {
		case 0:
			return f64.Aff3{-1, 0, 0, 0, 1, 0}, func(x, y int) image.Point { return image.Pt(-1-x, y) }
		case 1:
			return f64.Aff3{0, -1, 0, 1, 0, 0}, func(x, y int) image.Point { return image.Pt(-1-y, x) }
		case 2:
			return f64.Aff3{1, 0, 0, 0, -1, 1}, func(x, y int) image.Point { return image.Pt(x, -y) }
		}
		dx, dy := sym.Choose(k+"dx", -4, 2), sym.Choose(k+"dy", -3, 2)
		return f64.Aff3{1, 0, float64(dx), 0, 1, float64(dy)}, func(x, y int) image.Point { return image.Pt(x+dx, y+dy) }
	}
	m, f := move("", sym.Choose("move", 0, 3))
	o := options(tile)
	o.TransformMatrix = m
	t := open(w, h, []*node{n}, o)
	n = n.moved(f)
	sym.Assert(t.CanvasRect == n.rect, "the canvas is moved")
	shows(render(t, n.rect), n, "a moved layer is shown at its place")
	m, f = move("again", sym.Choose("again", 0, sym.Param("again", 2)))
	n = n.moved(f)
	t, err := t.Transform(context.Background(), m, 0)
	sym.Assert(err == nil, "a transformation")
	sym.Assert(t.CanvasRect == n.rect, "the canvas is moved")
	shows(render(t, n.rect), n, "a moved layer is shown at its place")
	sym.Reach("moved")
}

// WhiteMask: a mask with nothing but its default color hides nothing, however it is transformed.
func WhiteMask() {
	w, h := 3, 2
	c := image.Rect(0, 0, w, h)
	n := &node{rect: c, pix: make([]byte, 4*w*h)}
	for i := range n.pix {
		n.pix[i] = uint8(i * 9)
		if i&3 == 3 {
			n.pix[i] = 255
		}
	}
	n.pix[sym.Choose("at", 0, sym.Param("at", 1))*4] = sym.U8("pix")
	r := place("mask", -1, 2, 2, 2)
	masked := *n
	masked.mask = &maskSpec{rect: r, def: 255, data: make([]byte, r.Dx()*r.Dy())}
	for i := range masked.mask.data {
		masked.mask.data[i] = 255
	}
	m := []f64.Aff3{
		{1, 0, 0.5, 0, 1, 0.25}, {0.5, 0, 0, 0, 0.5, 0}, {2, 0, 0, 0, 3, 0}, {0.8, -0.6, 0, 0.6, 0.8, 0}, {1, 0, 1, 0, 1, -1}, {0, -1, 0, 1, 0, 0},
	}[sym.Choose("matrix", 0, 5)]
	opening := sym.Choose("opening", 0, 1) == 1
	var outs [2]*image.NRGBA
	for i, l := range []*node{n, &masked} {
		o := options(2)
		var t *composite.Tree
		if opening {
			o.TransformMatrix = m
			t = open(w, h, []*node{l}, o)
		} else {
			t = open(w, h, []*node{l}, o)
			var err error
			t, err = t.Transform(context.Background(), m, 0)
			sym.Assert(err == nil, "a transformation")
		}
		outs[i] = render(t, image.Rect(-3, -3, 6, 6))
	}
	sameBytes(outs[0].Pix, outs[1].Pix, 0, "a mask that hides nothing hides nothing")
	sym.Reach("transformed")
}
