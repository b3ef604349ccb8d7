package comph

import (
	"context"
	"errors"
	"image"
	"time"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"
	"verif/harness/sym"
)

// Scenes with groups that pass through, masks and clipped layers.
func scene(k int) []*node {
	a, b, c, d := leafOf(0, 1), leafOf(1, 1), leafOf(3, 1), leafOf(4, 1)
	pass := func(kids ...*node) *node {
		g := group(kids...)
		g.mode = "pass"
		return g
	}
	switch k {
	case 0:
		return []*node{a, pass(b, pass(c))}
	case 1:
		return []*node{a, group(pass(b), c), d}
	case 2:
		b.clip = true
		return []*node{a, b, pass(c)}
	case 3:
		b.clip = true
		return []*node{group(a), b, pass(c), d}
	case 4:
		g := pass(b, group(c))
		attribute(g, 13)
		return []*node{a, g}
	case 5:
		attribute(b, 7)
		return []*node{a, group(b, pass(c)), pass(d)}
	case 6:
		g := group(b, pass(d))
		g.clip = true
		return []*node{a, g, c}
	}
	d.hidden = true
	return []*node{pass(a), group(group(b), pass(d)), c}
}

const scenes = 7

// layerOf finds the layer of a node in a tree.
func layerOf(ls []composite.Layer, id int) *composite.Layer {
	for i := range ls {
		if ls[i].SeqID == id {
			return &ls[i]
		}
		if l := layerOf(ls[i].Children, id); l != nil {
			return l
		}
	}
	return nil
}

// change edits one attribute of a layer, before it is announced.
func change(l *composite.Layer, k int) {
	switch k {
	case 0:
		l.Visible = !l.Visible
	case 1:
		l.Opacity = int(sym.U8("opacity"))
	case 2:
		l.BlendMode = psd.BlendModeMultiply
	case 3:
		l.BlendMode = psd.BlendModeNormal
	case 4:
		sym.Assume(l.Folder && !l.Clipping && len(l.Clip) == 0)
		l.BlendMode = psd.BlendModePassThrough
	case 5:
		sym.Assume(len(l.Children) == 0 || l.Folder)
		l.MaskEnabled = !l.MaskEnabled
	}
}

// doing calls f while a rendering is under way; the rendering ends first.
type doing struct {
	context.Context
	f  func()
	ch chan struct{}
}

func (d *doing) Done() <-chan struct{} {
	c := make(chan struct{})
	go func() { close(c) }()
	<-c
	time.Sleep(20 * time.Millisecond)
	d.f()
	return d.ch
}

// canceled is canceled once the rendering has nearly or not yet begun.
func canceled(late bool) context.Context {
	ch := make(chan struct{})
	close(ch)
	if !late {
		c, cancel := context.WithCancel(context.Background())
		cancel()
		return c
	}
	return &doing{context.Background(), func() {}, ch}
}

func fresh(t *composite.Tree, r image.Rectangle) *image.NRGBA { return render(t.Clone(), r) }

// Histories: layers change, every change is announced, and renderings of the
// differences keep a picture up to date.
func Histories() {
	sym.Opt("selectlast", 1)
	w, h := canvas3x2()
	r := image.Rect(0, 0, w, h)
	ns := scene(sym.Choose("scene", sym.Param("lo", 0), sym.Param("hi", scenes)))
	all := nodes(ns)
	t := open(w, h, ns, options(2))
	dest := image.NewNRGBA(r)
	diff := func() {
		err := t.Renderer.RenderDiff(context.Background(), dest)
		sym.Assert(err == nil, "the differences are rendered")
	}
	diff()
	steps := sym.Param("steps", 2)
	for i := 0; i < steps; i++ {
		n := all[sym.Choose("node", 0, len(all)-1)]
		l := layerOf(t.Root.Children, n.id)
		last := sym.Param("changes", 5)
		if i > 0 {
			last = sym.Param("laterchanges", 1)
		}
		change(l, sym.Choose("change", 0, last))
		how := 0
		if i < steps-1 || sym.Param("lasthow", 0) == 1 {
			how = sym.Choose("how", 0, sym.Param("hows", 3))
		}
		if how == 3 {
			// announced during a rendering
			err := t.Renderer.RenderDiff(&doing{context.Background(), func() { t.Renderer.SetDirtyByLayer(l) }, nil}, dest)
			sym.Assert(err == nil, "the differences are rendered")
			continue
		}
		t.Renderer.SetDirtyByLayer(l)
		switch how {
		case 0:
			diff()
		case 1: // one rendering for several changes
		case 2: // a canceled one
			scratch := image.NewNRGBA(r)
			err := t.Renderer.RenderDiff(canceled(sym.Choose("late", 0, 1) == 1), scratch)
			if err == nil {
				copy(dest.Pix, scratch.Pix)
				dest = render(t, r)
			} else {
				sym.Assert(errors.Is(err, composite.ErrAborted), "a canceled rendering fails with ErrAborted")
			}
		case 4: // a clone takes over
			t = t.Clone()
		}
	}
	diff()
	sym.Reach("rendered")
	want := fresh(t, r)
	samePicture(dest, want, 0, "rendering the differences shows what a fresh rendering does")
	got := render(t, r)
	samePicture(got, want, 0, "rendering again shows what a fresh rendering does")
}

// Clones: a clone and its original change on their own.
func Clones() {
	w, h := canvas3x2()
	r := image.Rect(0, 0, w, h)
	ns := scene(sym.Choose("scene", sym.Param("lo", 0), sym.Param("hi", scenes)))
	all := nodes(ns)
	t := open(w, h, ns, options(2))
	if sym.Choose("rendered", 0, 1) == 1 {
		render(t, r)
	}
	before := image.NewNRGBA(r)
	paintAll(before, ns, 255)
	c := t.Clone()
	n := all[sym.Choose("node", 0, len(all)-1)]
	k := sym.Choose("change", 0, 5)
	which, other := c, t
	if sym.Choose("which", 0, 1) == 1 {
		which, other = t, c
	}
	l := layerOf(which.Root.Children, n.id)
	change(l, k)
	which.Renderer.SetDirtyByLayer(l)
	a := render(which, r)
	b := render(other, r)
	sym.Reach("rendered")
	samePicture(b, before, 0, "changing a clone leaves the other tree alone")
	// the changed one shows the change
	l2 := layerOf(which.Root.Children, n.id)
	n.hidden, n.opacity, n.mode = !l2.Visible, l2.Opacity, string(l2.BlendMode)
	if n.opacity == 0 {
		n.opacity = -1
	}
	if n.mask != nil {
		n.mask.disabled = !l2.MaskEnabled
	} else if k == 5 {
		return
	}
	after := image.NewNRGBA(r)
	paintAll(after, ns, 255)
	samePicture(a, after, 0, "a changed clone shows the change")
}
