package comph

import (
	"context"
	"image"
	"sync"

	"github.com/oov/downscale"
	"verif/harness/sym"
)

func copyPix(m *image.NRGBA) *image.NRGBA {
	c := image.NewNRGBA(m.Rect)
	for y := 0; y < m.Rect.Dy(); y++ {
		copy(c.Pix[y*c.Stride:y*c.Stride+4*m.Rect.Dx()], m.Pix[y*m.Stride:])
	}
	return c
}

// visible is the smallest rectangle around the visible pixels.
func (n *node) visible() (r image.Rectangle) {
	for y := n.rect.Min.Y; y < n.rect.Max.Y; y++ {
		for x := n.rect.Min.X; x < n.rect.Max.X; x++ {
			if n.pixel(x, y)[3] != 0 {
				r = r.Union(image.Rect(x, y, x+1, y+1))
			}
		}
	}
	return r
}

func thumbSize(r image.Rectangle, size int) image.Rectangle {
	w, h := size, size
	if r.Dx() > r.Dy() {
		h = max(1, r.Dy()*size/r.Dx())
	} else {
		w = max(1, r.Dx()*size/r.Dy())
	}
	return image.Rect(0, 0, w, h)
}

// Thumbnail: what a layer of any place and alpha hands to the scaler.
func Thumbnail() {
	tile := sym.Choose("tile", 1, sym.Param("tile", 3))
	r := place("layer", -2, 1, sym.Param("w", 3), sym.Param("h", 2))
	n := &node{rect: r, pix: make([]byte, 4*r.Dx()*r.Dy())}
	for i := range n.pix {
		n.pix[i] = sym.U8("pix")
	}
	t := open(2, 2, []*node{n}, options(tile))
	box := n.visible()
	size := sym.Choose("size", 1, 5)
	var temp []byte
	if k := sym.Choose("temp", 0, 2); k > 0 {
		temp = make([]byte, 100*k*k)
		for i := range temp {
			temp[i] = 77
		}
	}
	calls := 0
	downscale.Hook = func(dest, src *image.NRGBA) error {
		calls++
		s := copyPix(src)
		sym.Assert(s.Rect.Size() == box.Size(), "a thumbnail shows all visible pixels and no more")
		for y := 0; y < box.Dy(); y++ {
			for x := 0; x < box.Dx(); x++ {
				w := n.pixel(box.Min.X+x, box.Min.Y+y)
				g := s.Pix[s.PixOffset(s.Rect.Min.X+x, s.Rect.Min.Y+y):]
				sym.Assert(g[3] == w[3], "a thumbnail keeps the pixels")
				same := sym.And(sym.And(g[0] == w[0], g[1] == w[1]), g[2] == w[2])
				sym.Assert(sym.Or(w[3] == 0, same), "a thumbnail keeps the pixels")
			}
		}
		sym.Assert(dest.Rect == thumbSize(box, size), "a thumbnail keeps the shape of the layer")
		return nil
	}
	_, err := t.Thumbnail(n.id, size, temp)
	downscale.Hook = nil
	sym.Assert((err == nil) == !box.Empty(), "every layer with visible pixels has a thumbnail")
	sym.Assert((calls == 1) == !box.Empty(), "a layer is scaled once")
	_, err = t.Thumbnail(n.id+1, size, temp)
	sym.Assert(err != nil, "a layer that does not exist has no thumbnail")
	sym.Reach("made")
}

// Sheet: the thumbnails of several layers on one picture.
func Sheet() {
	sym.Procs(sym.Choose("cpus", 1, sym.Param("cpus", 3)))
	size := sym.Choose("size", 1, sym.Param("size", 4))
	count := sym.Choose("layers", 0, sym.Param("layers", 5))
	var ns []*node
	for i := 0; i < count; i++ {
		r := image.Rect(i&1, 0, i&1+1+i%3, 1+i&2)
		n := &node{rect: r, pix: make([]byte, 4*r.Dx()*r.Dy())}
		for j := range n.pix {
			n.pix[j] = uint8(90 + i)
		}
		n.pix[1] = sym.U8("green")
		if sym.Choose("blank", 0, 1) == 1 {
			for j := 3; j < len(n.pix); j += 4 {
				n.pix[j] = 0
			}
		}
		ns = append(ns, n)
	}
	if count > 1 && sym.Choose("group", 0, 1) == 1 {
		ns = []*node{ns[0], group(ns[1:]...)}
	}
	t := open(3, 3, ns, options(2))
	var m sync.Mutex
	downscale.Hook = func(dest, src *image.NRGBA) error {
		m.Lock()
		defer m.Unlock()
		for i := range dest.Pix { // the first pixel all over
			dest.Pix[i] = src.Pix[i&3]
		}
		return nil
	}
	sheet, cells, err := t.ThumbnailSheet(context.Background(), size)
	downscale.Hook = nil
	sym.Assert(err == nil, "a sheet is made")
	shown := map[int]*node{}
	for _, n := range nodes(ns) {
		if !n.group && !n.visible().Empty() {
			shown[n.id] = n
		}
	}
	sym.Assert(len(cells) == len(shown), "a sheet shows every visible layer")
	used := 0
	for id, a := range cells {
		n := shown[id]
		sym.Assert(n != nil, "a sheet shows layers")
		sym.Assert(a.In(sheet.Rect) && a.Dx() == size && a.Dy() == size, "the cells lie on the sheet")
		for id2, b := range cells {
			sym.Assert(id == id2 || !a.Overlaps(b), "the cells do not overlap")
		}
		ts := thumbSize(n.visible(), size)
		at := ts.Add(a.Min).Add(image.Pt((size-ts.Dx())/2, (size-ts.Dy())/2))
		used += at.Dx() * at.Dy()
		for y := a.Min.Y; y < a.Max.Y; y++ {
			for x := a.Min.X; x < a.Max.X; x++ {
				p := sheet.Pix[sheet.PixOffset(x, y):]
				if image.Pt(x, y).In(at) {
					sym.Assert(sym.And(p[0] == n.pix[0], sym.And(p[1] == n.pix[1], p[3] == n.pix[3])), "a cell shows the thumbnail of its layer")
				} else {
					sym.Assert(p[3] == 0, "a cell shows nothing else")
				}
			}
		}
	}
	for i := 3; i < len(sheet.Pix); i += 4 {
		if sheet.Pix[i] != 0 {
			used--
		}
	}
	sym.Assert(used == 0, "a sheet shows nothing else")
	sym.Reach("made")
}
