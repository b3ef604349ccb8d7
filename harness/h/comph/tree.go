package comph

import (
	"bytes"
	"context"
	"image"

	"github.com/oov/psd/composite"
	"verif/harness/sym"
)

// node is a layer of the picture under construction; children and clipped
// layers are listed bottom to top.
type node struct {
	rect    image.Rectangle
	pix     []byte // NRGBA, nil for groups
	noAlpha bool   // three channels only
	mode    string // "" is normal
	opacity int    // 0 is 255, -1 is 0
	hidden  bool
	clip    bool
	group   bool
	kids    []*node
	mask    *maskSpec

	id    int // SeqID
	layer *composite.Layer
}

type maskSpec struct {
	rect     image.Rectangle
	def      int
	data     []byte
	disabled bool
}

func (n *node) alpha() int {
	switch n.opacity {
	case 0:
		return 255
	case -1:
		return 0
	}
	return n.opacity
}

func (n *node) modeKey() string {
	if n.mode == "" {
		return "norm"
	}
	return n.mode
}

func rect4(r image.Rectangle) [4]int {
	return [4]int{r.Min.Y, r.Min.X, r.Max.Y, r.Max.X}
}

func (n *node) record() lay {
	l := lay{rect: rect4(n.rect), mode: []byte(n.modeKey()), opacity: byte(n.alpha()), name: []byte("n")}
	if n.clip {
		l.clip = 1
	}
	if n.hidden {
		l.flags |= 2
	}
	if !n.group {
		size := n.rect.Dx() * n.rect.Dy()
		ids := []int{-1, 0, 1, 2}
		if n.noAlpha {
			ids = ids[1:]
		}
		for _, id := range ids {
			p := make([]byte, size)
			for i := range p {
				p[i] = n.pix[4*i+(id+4)%4]
			}
			l.chans = append(l.chans, chn{id: id, data: p})
		}
	} else {
		l.chans = []chn{{id: -1}, {id: 0}, {id: 1}, {id: 2}}
	}
	if m := n.mask; m != nil {
		var b []byte
		for _, v := range rect4(m.rect) {
			b = p32(b, v)
		}
		f := byte(0)
		if m.disabled {
			f = 2
		}
		l.mask = append(b, byte(m.def), f, 0, 0)
		l.chans = append(l.chans, chn{id: -2, data: m.data})
	}
	return l
}

func lsct(typ int, mode string) blk {
	b := p32(nil, typ)
	if mode != "" {
		b = append(append(b, "8BIM"...), mode...)
	}
	return blk{key: []byte("lsct"), data: b}
}

// records lists the layer records of the nodes as a file stores them.
func records(out []lay, ns []*node) []lay {
	for _, n := range ns {
		if n.group {
			end := lay{mode: []byte("norm"), opacity: 255, name: []byte("e"), chans: []chn{{id: -1}, {id: 0}, {id: 1}, {id: 2}}, blocks: []blk{lsct(3, "")}}
			out = append(out, end)
			out = records(out, n.kids)
		}
		l := n.record()
		if n.group {
			l.blocks = []blk{lsct(1, n.modeKey())}
		}
		out = append(out, l)
	}
	return out
}

func file(w, h int, ns []*node) []byte {
	d := doc{ch: 3, w: w, h: h, depth: 8, mode: 3, layers: records(nil, ns)}
	d.merged = make([]byte, 3*w*h)
	return d.bytes()
}

func options(tile int) *composite.Options { return &composite.Options{TileSize: tile} }

// open builds the tree and finds the layer of each node.
func open(w, h int, ns []*node, o *composite.Options) *composite.Tree {
	t, err := composite.New(context.Background(), bytes.NewReader(file(w, h, ns)), o)
	sym.Assert(err == nil, "the picture is opened")
	attach(t, ns)
	return t
}

func attach(t *composite.Tree, ns []*node) { attachLayers(t.Root.Children, ns) }

func attachLayers(ls []composite.Layer, ns []*node) {
	sym.Assert(len(ls) == len(ns), "number of layers")
	for i, n := range ns {
		n.layer = &ls[i]
		n.id = ls[i].SeqID
		if n.group {
			attachLayers(ls[i].Children, n.kids)
		}
	}
}

// render renders the whole picture.
func render(t *composite.Tree, r image.Rectangle) *image.NRGBA {
	out := image.NewNRGBA(r)
	err := t.Renderer.Render(context.Background(), out)
	sym.Assert(err == nil, "the picture is rendered")
	return out
}

// symPix is a picture of symbolic pixels.
func symPix(name string, r image.Rectangle) []byte {
	return sym.Bytes(name, 4*r.Dx()*r.Dy())
}

func sameBytes(a, b []byte, tol int, msg string) {
	sym.Assert(len(a) == len(b), msg)
	for i := range a {
		x, y := int(a[i]), int(b[i])
		if tol == 0 {
			sym.Assert(x == y, msg)
		} else {
			sym.Assert(sym.Or(x == y, sym.And(x <= y+tol, y <= x+tol)), msg)
		}
	}
}

// pixel gives the stored pixel of a node at a place, zero outside of it.
func (n *node) pixel(x, y int) (p [4]uint8) {
	if !image.Pt(x, y).In(n.rect) {
		return
	}
	o := 4 * ((y-n.rect.Min.Y)*n.rect.Dx() + x - n.rect.Min.X)
	copy(p[:], n.pix[o:o+4])
	if n.noAlpha {
		p[3] = 255
	}
	return
}
