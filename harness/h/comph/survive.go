package comph

import (
	"bytes"
	"context"
	"errors"
	"image"
	"io"
	"time"

	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"
	"verif/harness/sym"
)

var channelSets = [][]int{
	{-1, 0, 1, 2}, {0, 1, 2}, {0, 2}, {}, {-1}, {-1, 0, 1, 2, -2}, {-2}, {-3, 0, 1, 2}, {5, 0, 1, 2, 2}, {-2, 2, 1, 0, -1, -3},
}

var anyRects = []image.Rectangle{
	image.Rect(0, 0, 2, 1), image.Rect(-1, -1, 1, 1), {}, {Min: image.Pt(1, 1), Max: image.Pt(0, 0)}, {Min: image.Pt(0, 0), Max: image.Pt(2, 0)},
	{Min: image.Pt(2, 0), Max: image.Pt(0, 1)}, image.Rect(5, 5, 6, 6),
}

func size(r image.Rectangle, depth int) int {
	if r.Dx() <= 0 || r.Dy() <= 0 {
		return 0
	}
	return plane(r.Dx(), r.Dy(), depth)
}

// anyLayer is a layer record few of whose parts fit together.
func anyLayer(rect image.Rectangle, set, mode, lsctType, mask, depth int) lay {
	l := lay{rect: rect4(rect), mode: []byte([]string{"norm", "diss", "pass", "abcd", "mul ", "\x00\x00\x00\x00"}[mode]), name: []byte("n")}
	l.opacity, l.clip, l.flags = sym.U8("opacity"), sym.U8("clip"), sym.U8("flags")
	mr := image.Rectangle{}
	if mask > 0 {
		mr = anyRects[mask-1]
		var b []byte
		for _, v := range rect4(mr) {
			b = p32(b, v)
		}
		l.mask = append(b, byte(255*sym.Choose("default", 0, 1)), sym.U8("mask flags"), 0, 0)
	}
	for _, id := range channelSets[set] {
		n := size(rect, depth)
		switch id {
		case -2:
			n = size(mr, depth)
		case -3:
			n = 0
		}
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(i*50 + id)
		}
		l.chans = append(l.chans, chn{id: id, data: p})
	}
	if lsctType >= 0 {
		l.blocks = []blk{lsct(lsctType, []string{"", "pass", "norm", "diss"}[lsctType&3])}
	}
	return l
}

// AnyPicture: layers of any combination of parts are refused or rendered, never a panic.
func AnyPicture() {
	d := doc{ch: 3, w: 2, h: 2, depth: 8, mode: 3, merged: make([]byte, 12)}
	what := sym.Choose("what", 0, 4)
	rect, set, mode, typ, mask := anyRects[0], 0, 0, -1, 0
	set = sym.Choose("channels", 0, len(channelSets)-1)
	switch what { // two parts at a time
	case 0:
		rect = anyRects[sym.Choose("rect", 0, len(anyRects)-1)]
	case 1:
		mode = sym.Choose("mode", 0, 5)
	case 2:
		typ = sym.Choose("divider", 0, 4)
		mode = 2 * sym.Choose("mode", 0, 1)
	case 3:
		mask = sym.Choose("mask", 1, len(anyRects))
	case 4:
		d.layers = append(d.layers, anyLayer(anyRects[1], 0, 0, 3, 0, 8))
		d.layers = append(d.layers, anyLayer(anyRects[1], set, 4, -1, 0, 8))
		typ, mode = 1, sym.Choose("mode", 0, 3)
	}
	d.layers = append(d.layers, anyLayer(rect, set, mode, typ, mask, 8))
	t, err := composite.New(context.Background(), bytes.NewReader(d.bytes()), options(2))
	if err != nil {
		sym.Reach("refused")
		return
	}
	out := render(t, image.Rect(0, 0, 2, 2))
	sym.Assert(len(out.Pix) == 16, "rendered")
	if sym.Choose("transform", 0, 1) == 1 {
		t, err = t.Transform(context.Background(), f64.Aff3{1, 0, 1, 0, 1, -1}, 0)
		sym.Assert(err == nil, "a transformation")
		render(t, image.Rect(0, 0, 2, 2))
	}
	sym.Reach("rendered")
}

// AnyConfig: pictures of other depths and color modes are refused.
func AnyConfig() {
	depth := []int{1, 8, 16, 32}[sym.Choose("depth", 0, 3)]
	mode := sym.Choose("mode", 0, 9)
	ch := sym.Choose("channels", 1, 5)
	d := doc{psb: sym.Choose("psb", 0, 1) == 1, ch: ch, w: 2, h: 2, depth: depth, mode: mode}
	if mode == 2 {
		d.cmd = make([]byte, 768)
	}
	d.merged = make([]byte, ch*plane(2, 2, depth))
	if sym.Choose("layers", 0, 1) == 1 {
		l := anyLayer(anyRects[0], 0, 0, -1, 0, depth)
		l.flags, l.clip, l.opacity = 0, 0, 255
		d.layers = []lay{l}
	}
	t, err := composite.New(context.Background(), bytes.NewReader(d.bytes()), options(2))
	if mode != 3 || depth != 8 {
		sym.Assert(err != nil, "only 8-bit RGB pictures are accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil || ch < 3, "8-bit RGB pictures are accepted")
	if err == nil {
		render(t, image.Rect(0, 0, 2, 2))
		sym.Reach("rendered")
	}
}

// during is a reader that calls f before the read number at.
type during struct {
	r  io.Reader
	at int
	f  func()
}

func (d *during) Read(p []byte) (int, error) {
	if d.at--; d.at == 0 {
		d.f()
	}
	return d.r.Read(p)
}

// Cancel: composite.New canceled at any point gives the whole picture or an error.
func Cancel() {
	sym.Opt("selectlast", sym.Choose("last", 0, 1))
	n := sym.Choose("cpus", 1, sym.Param("cpus", 3))
	sym.Procs(n)
	w, h := canvas3x2()
	ns := shape(sym.Choose("shape", 0, sym.Param("shapes", 3)))
	ctx, cancel := context.WithCancel(context.Background())
	r := &during{bytes.NewReader(file(w, h, ns)), sym.Choose("at", 0, sym.Param("reads", 40)), func() {
		cancel()
		c := make(chan struct{})
		go func() { close(c) }()
		<-c
		time.Sleep(time.Millisecond)
	}}
	if r.at == 0 {
		cancel() // before it begins
	}
	t, err := composite.New(ctx, r, options(2))
	cancel()
	sym.Procs(1)
	if err != nil {
		sym.Assert(errors.Is(err, composite.ErrAborted), "a canceled opening fails with ErrAborted")
		sym.Assert(t == nil, "a canceled opening gives no tree")
	} else {
		attach(t, ns)
		compare(t, w, h, ns, 0)
	}
	sym.Reach("opened")
}

// CancelTransform: a canceled transformation gives the whole picture or an error,
// and leaves the tree alone.
func CancelTransform() {
	sym.Opt("selectlast", sym.Choose("last", 0, 1))
	sym.Procs(sym.Choose("cpus", 1, sym.Param("cpus", 3)))
	w, h := canvas3x2()
	r := image.Rect(0, 0, w, h)
	ns := shape(sym.Choose("shape", 0, sym.Param("shapes", 3)))
	t := open(w, h, ns, options(2))
	before := render(t, r)
	t2, err := t.Transform(canceled(sym.Choose("late", 0, 1) == 1), f64.Aff3{1, 0, 0, 0, 1, 0}, 0)
	if err != nil {
		sym.Assert(errors.Is(err, composite.ErrAborted), "a canceled transformation fails with ErrAborted")
		sym.Assert(t2 == nil, "a canceled transformation gives no tree")
	} else {
		samePicture(render(t2, r), before, 0, "a transformation keeps all layers")
	}
	sym.Reach("transformed")
	m, err := t.Thumbnails(canceled(sym.Choose("late", 0, 1) == 1), 2)
	if err == nil {
		sym.Assert(len(m) == len(leaves(ns)), "there is a thumbnail of every layer")
	}
	sym.Procs(1)
	samePicture(render(t.Clone(), r), before, 0, "a canceled transformation leaves the tree alone")
}

func leaves(ns []*node) (r []*node) {
	for _, n := range nodes(ns) {
		if !n.group {
			r = append(r, n)
		}
	}
	return r
}
