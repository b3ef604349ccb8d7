package comph

import (
	"image"
	"image/color"

	"github.com/oov/psd/blend"
	"github.com/oov/psd/composite"
	"verif/harness/sym"
)

// The reference draws whole pictures, layer by layer, with the drawers of the
// blend package, which have properties of their own.

var drawers = map[string]blend.Drawer{
	"norm": blend.Normal, "dark": blend.Darken, "mul ": blend.Multiply, "idiv": blend.ColorBurn,
	"lbrn": blend.LinearBurn, "dkCl": blend.DarkerColor, "lite": blend.Lighten, "scrn": blend.Screen,
	"div ": blend.ColorDodge, "lddg": blend.Add, "lgCl": blend.LighterColor, "over": blend.Overlay,
	"sLit": blend.SoftLight, "hLit": blend.HardLight, "vLit": blend.VividLight, "lLit": blend.LinearLight,
	"pLit": blend.PinLight, "hMix": blend.HardMix, "diff": blend.Difference, "smud": blend.Exclusion,
	"fsub": blend.Subtract, "fdiv": blend.Divide, "hue ": blend.Hue, "sat ": blend.Saturation,
	"colr": blend.Color, "lum ": blend.Luminosity,
}

var modeKeys = []string{"norm", "dark", "mul ", "idiv", "lbrn", "dkCl", "lite", "scrn", "div ", "lddg", "lgCl", "over",
	"sLit", "hLit", "vLit", "lLit", "pLit", "hMix", "diff", "smud", "fsub", "fdiv", "hue ", "sat ", "colr", "lum "}

func copyOf(m *image.NRGBA) *image.NRGBA {
	return &image.NRGBA{Pix: append([]byte(nil), m.Pix...), Stride: m.Stride, Rect: m.Rect}
}

// at is the mask's value at a place.
func (m *maskSpec) at(x, y int) uint8 {
	if image.Pt(x, y).In(m.rect) {
		return m.data[(y-m.rect.Min.Y)*m.rect.Dx()+x-m.rect.Min.X]
	}
	return uint8(m.def)
}

// paintAll draws siblings onto dst, scale is the opacity they inherit.
func paintAll(dst *image.NRGBA, ns []*node, scale int) {
	for i, n := range ns {
		if n.clip {
			continue
		}
		var clips []*node
		for _, c := range ns[i+1:] {
			if !c.clip {
				break
			}
			clips = append(clips, c)
		}
		paint(dst, n, clips, n.alpha()*scale/255)
	}
}

func paint(dst *image.NRGBA, n *node, clips []*node, opacity int) {
	if n.hidden || opacity == 0 {
		return
	}
	through := n.group && n.modeKey() == "pass"
	buf := image.NewNRGBA(dst.Rect)
	switch {
	case through:
		buf = copyOf(dst)
		paintAll(buf, n.kids, opacity)
	case n.group:
		paintAll(buf, n.kids, 255)
	default:
		for y := buf.Rect.Min.Y; y < buf.Rect.Max.Y; y++ {
			for x := buf.Rect.Min.X; x < buf.Rect.Max.X; x++ {
				if p := n.pixel(x, y); p[3] != 0 {
					copy(buf.Pix[buf.PixOffset(x, y):], p[:])
				}
			}
		}
	}
	if m := n.mask; m != nil && !m.disabled {
		a := image.NewAlpha(dst.Rect)
		for y := a.Rect.Min.Y; y < a.Rect.Max.Y; y++ {
			for x := a.Rect.Min.X; x < a.Rect.Max.X; x++ {
				a.Pix[a.PixOffset(x, y)] = m.at(x, y)
			}
		}
		if through {
			// shows the group through the mask and what lies below elsewhere
			mix(buf, dst, a)
		} else {
			blend.DestIn.Draw(buf, buf.Rect, a, a.Rect.Min)
		}
	}
	if len(clips) > 0 {
		base := copyOf(buf)
		for i := 3; i < len(buf.Pix); i += 4 {
			buf.Pix[i] = 255
		}
		for _, c := range clips {
			paint(buf, c, nil, c.alpha())
		}
		blend.DestIn.Draw(buf, buf.Rect, base, base.Rect.Min)
	}
	if through {
		blend.Copy.Draw(dst, dst.Rect, buf, buf.Rect.Min)
		return
	}
	drawers[n.modeKey()].DrawMask(dst, dst.Rect, buf, buf.Rect.Min, image.NewUniform(color.Alpha{A: uint8(opacity)}), image.Point{})
}

// mix replaces a by a where the mask is set and b where it is not.
func mix(a, b *image.NRGBA, m *image.Alpha) {
	for i, v := range m.Pix {
		p, q := a.Pix[4*i:4*i+4], b.Pix[4*i:4*i+4]
		wp, wq := int(p[3])*int(v), int(q[3])*(255-int(v))
		if wp+wq == 0 {
			copy(p, []byte{0, 0, 0, 0})
			continue
		}
		for k := 0; k < 3; k++ {
			p[k] = uint8((int(p[k])*wp + int(q[k])*wq + (wp+wq)/2) / (wp + wq))
		}
		p[3] = uint8((wp + wq + 127) / 255)
	}
}

// compare renders the nodes and compares with the reference.
func compare(t *composite.Tree, w, h int, ns []*node, tol int) {
	c := image.Rect(0, 0, w, h)
	got := render(t, c)
	want := image.NewNRGBA(c)
	paintAll(want, ns, 255)
	samePicture(got, want, tol, "rendering draws the layers one after the other")
}

func samePicture(got, want *image.NRGBA, tol int, msg string) {
	sym.Assert(got.Rect == want.Rect && len(got.Pix) == len(want.Pix), msg)
	for i := 0; i < len(got.Pix); i += 4 {
		g, w := got.Pix[i:i+4], want.Pix[i:i+4]
		same := true
		for k := 0; k < 3; k++ {
			same = sym.And(same, near(int(g[k]), int(w[k]), tol))
		}
		sym.Assert(near(int(g[3]), int(w[3]), tol), msg)
		sym.Assert(sym.Or(same, w[3] == 0), msg)
	}
}

// image layers used by the scenes: on a canvas of 3x2
var rects = []image.Rectangle{
	image.Rect(0, 0, 3, 2), image.Rect(1, 0, 4, 2), image.Rect(-1, 0, 2, 3), image.Rect(0, 1, 3, 2), image.Rect(1, -1, 2, 1), image.Rect(0, 0, 2, 1),
}

// leaf is an image layer: some symbolic colours, various alphas.
func leaf(k int) *node { return leafOf(k, sym.Param("symbolic", 3)) }

func leafOf(k, symbolic int) *node {
	r := rects[k%len(rects)]
	n := &node{rect: r, pix: make([]byte, 4*r.Dx()*r.Dy())}
	first := 0 // pixels within the canvas
	for i := range n.pix {
		x, y := r.Min.X+(i>>2)%r.Dx(), r.Min.Y+(i>>2)/r.Dx()
		if i&3 == 3 {
			n.pix[i] = []byte{255, 140, 255, 0, 60, 255, 9}[(i>>2+k)%7]
			continue
		}
		n.pix[i] = uint8(37*k + 11*i)
		if image.Pt(x, y).In(image.Rect(0, 0, 3, 2)) && first < symbolic {
			n.pix[i] = sym.U8("pix")
			first++
		}
	}
	return n
}

func canvas3x2() (w, h int) { return 3, 2 }

// Modes: two layers, the upper one with any mode and opacity.
func Modes() {
	w, h := canvas3x2()
	mode := modeKeys[sym.Choose("mode", sym.Param("lo", 0), sym.Param("hi", len(modeKeys)-1))]
	k := sym.Param("symbolic", 3)
	switch mode { // whose channels depend on each other, or that jump
	case "dkCl", "lgCl", "hue ", "sat ", "colr", "lum ", "hMix":
		k = sym.Param("symbolicother", 1)
	}
	a, b := leafOf(0, k), leafOf(1, k)
	b.mode = mode
	b.opacity = []int{255, 100, -1, 1}[sym.Choose("opacity", 0, 3)]
	ns := []*node{a, b}
	if sym.Choose("group", 0, 1) == 1 {
		g := &node{group: true, mode: b.mode, opacity: b.opacity, kids: []*node{b}}
		b.mode, b.opacity, ns = "", 0, []*node{a, g}
	}
	t := open(w, h, ns, options(sym.Choose("tile", 1, 3)))
	compare(t, w, h, ns, 0)
	sym.Reach("rendered")
}

// Small forests, bottom to top; leaves and groups are numbered by nodes.
func group(kids ...*node) *node { return &node{group: true, kids: kids} }

func shape(k int) []*node {
	switch k {
	case 0:
		return []*node{leafOf(0, 1), leafOf(1, 1), leafOf(2, 1)}
	case 1:
		return []*node{leafOf(0, 1), group(leafOf(1, 1), leafOf(2, 1))}
	case 2:
		return []*node{group(leafOf(0, 1), leafOf(1, 1)), leafOf(2, 1)}
	case 3:
		return []*node{leafOf(1, 1), group(leafOf(2, 1), group(leafOf(0, 1)))}
	case 4:
		return []*node{leafOf(2, 1), group(group(leafOf(1, 1)), leafOf(0, 1))}
	case 5:
		return []*node{leafOf(1, 1), group(leafOf(0, 1)), leafOf(3, 1)}
	case 6:
		return []*node{group(), leafOf(4, 1), group(), leafOf(0, 1)}
	}
	return []*node{leafOf(5, 1), leafOf(0, 1), leafOf(1, 1), leafOf(4, 1)}
}

func nodes(ns []*node) []*node {
	var r []*node
	for _, n := range ns {
		r = append(append(r, n), nodes(n.kids)...)
	}
	return r
}

// attribute gives a node one of the attributes, if that is possible.
func attribute(n *node, k int) bool {
	mask := func(def int, r image.Rectangle) {
		n.mask = &maskSpec{rect: r, def: def, data: make([]byte, r.Dx()*r.Dy())}
		for i := range n.mask.data {
			n.mask.data[i] = []byte{255, 0, 100, 31, 255, 201}[i%6]
		}
	}
	some := image.Rect(-1, 0, 2, 2)
	switch k {
	case 0:
	case 1:
		n.hidden = true
	case 2:
		n.mode = "mul "
	case 3:
		n.opacity = 100
	case 4:
		n.opacity = -1
	case 5:
		n.clip = true
	case 6:
		mask(0, some)
	case 7:
		mask(255, some)
	case 8:
		mask(0, some)
		n.mask.disabled = true
	case 9:
		mask(0, image.Rectangle{})
	case 10:
		mask(255, image.Rectangle{})
	case 11:
		n.noAlpha = !n.group
		if n.group {
			n.mode = "pass"
		}
	case 12:
		if !n.group {
			return false
		}
		n.mode, n.opacity = "pass", 100
	case 13:
		if !n.group {
			return false
		}
		n.mode = "pass"
		mask(0, some)
	case 14:
		if !n.group {
			return false
		}
		n.mode = "pass"
		mask(255, some)
	case 15:
		n.mode, n.opacity, n.clip = "scrn", 180, true
	case 16:
		n.mode, n.opacity = "diff", 90
		mask(255, some)
	}
	return true
}

// possible tells whether the picture is one that editors write.
func possible(ns []*node) bool {
	for i, n := range ns {
		if n.clip && (i == 0 || n.group && n.modeKey() == "pass") {
			return false
		}
		if n.group && n.modeKey() == "pass" && i+1 < len(ns) && ns[i+1].clip {
			return false // editors do not pass through a group with clipped layers
		}
		if !possible(n.kids) {
			return false
		}
	}
	return true
}

// AnyTree: small trees, several of whose layers have any of the attributes.
func AnyTree() {
	w, h := canvas3x2()
	ns := shape(sym.Choose("shape", sym.Param("lo", 0), sym.Param("hi", 7)))
	all := nodes(ns)
	for i, at := 0, -1; i < sym.Param("attributed", 2); i++ {
		if at+1 >= len(all) {
			break
		}
		at = sym.Choose("node", at+1, len(all)-1)
		sym.Assume(attribute(all[at], sym.Choose("attribute", sym.Param("alo", 0), sym.Param("ahi", 16))))
	}
	sym.Assume(possible(ns))
	t := open(w, h, ns, options(sym.Param("tile", 2)))
	compare(t, w, h, ns, sym.Param("tol", 0))
	sym.Reach("rendered")
}

// Parallel: tall pictures on several CPUs, with groups and masks.
func Parallel() {
	n := sym.Choose("cpus", 1, sym.Param("cpus", 4))
	tile := sym.Choose("tile", 1, 2)
	h := sym.Choose("h", 1, sym.Param("h", 9))
	ns := scene(sym.Choose("scene", 0, scenes))
	for _, l := range leaves(ns) {
		l.rect = image.Rect(0, l.rect.Min.Y, 1, h+l.rect.Max.Y-2)
		if l.rect.Empty() {
			return
		}
		p := l.pix
		l.pix = make([]byte, 4*l.rect.Dy())
		for i := range l.pix {
			l.pix[i] = p[i%len(p)]
		}
		if l.mask != nil {
			l.mask = nil
			attribute(l, 7)
		}
	}
	sym.Procs(n)
	t := open(1, h, ns, options(tile))
	got := render(t, image.Rect(0, 0, 1, h))
	sym.Procs(1)
	want := image.NewNRGBA(got.Rect)
	paintAll(want, ns, 255)
	samePicture(got, want, 0, "rendering on several CPUs draws the layers one after the other")
	sym.Reach("rendered")
}
