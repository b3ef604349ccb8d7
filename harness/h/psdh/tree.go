package psdh

import (
	"github.com/oov/psd"
	"verif/harness/sym"
)

type node struct {
	id  int
	typ int
	kid []*node
}

// refTree: dividers of type 3 open a folder (stored bottom up), 1 and 2 close it.
func refTree(types []int) (root []*node, valid bool) {
	type frame struct{ list []*node }
	st := []frame{{}}
	for i, t := range types {
		switch t {
		case 3:
			st = append(st, frame{})
		case 1, 2:
			if len(st) == 1 {
				return nil, false
			}
			top := st[len(st)-1]
			st = st[:len(st)-1]
			st[len(st)-1].list = append(st[len(st)-1].list, &node{i, t, top.list})
		default:
			st[len(st)-1].list = append(st[len(st)-1].list, &node{i, t, nil})
		}
	}
	if len(st) != 1 {
		return nil, false
	}
	return st[0].list, true
}

func sameTree(g []psd.Layer, w []*node, rects [][4]int) {
	sym.Assert(len(g) == len(w), "number of layers in a folder")
	for i := range g {
		sym.Assert(g[i].SeqID == w[i].id, "order of the layers")
		sym.Assert(g[i].SectionDividerSetting.Type == w[i].typ, "type of the layer")
		sym.Assert(g[i].Folder() == (w[i].typ == 1 || w[i].typ == 2), "folder")
		sym.Assert(g[i].FolderIsOpen() == (w[i].typ == 1), "open folder")
		sym.Assert(g[i].HasImage() == (w[i].typ == 0), "layer with picture")
		sym.Assert(rectIs(g[i].Rect, rects[w[i].id]), "attributes of the layer")
		sameTree(g[i].Layer, w[i].kid, rects)
	}
}

func lsct(key string, typ int) blk {
	return blk{key: []byte(key), data: p32(nil, typ)}
}

// Tree: up to n layers with a section divider of any type or none.
func Tree() {
	d := gray1x1(false)
	n := sym.Choose("n", 0, sym.Param("layers", 4))
	d.info = true
	var types []int
	var rects [][4]int
	for i := 0; i < n; i++ {
		typ := int(sym.U32("type"))
		l := lay{rect: symRect("rect")}
		switch {
		case i == 1 && sym.Choose("nodivider", 0, 1) == 1:
			typ = 0
		case i == 2 && sym.Choose("lsdk", 0, 1) == 1:
			l.blocks = []blk{lsct("lsdk", typ)}
		default:
			l.blocks = []blk{lsct("lsct", typ)}
		}
		d.layers = append(d.layers, l)
		types = append(types, typ)
		rects = append(rects, l.rect)
	}
	p, err := decode(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	want, valid := refTree(types)
	if err != nil {
		sym.Reach("rejected")
		sym.Assert(!valid, "balanced dividers are accepted")
		return
	}
	sym.Reach("accepted")
	sym.Assert(valid, "unbalanced dividers are rejected")
	sameTree(p.Layer, want, rects)
}

// DeepTree: many nested folders around and between layers.
func DeepTree() {
	d := gray1x1(false)
	n := sym.Choose("depth", 5, sym.Param("depth", 12))
	var types []int
	for i := 0; i < n; i++ {
		types = append(types, 0, 3)
	}
	types = append(types, 0)
	open := sym.Choose("unclosed", 0, 1)
	for i := open; i < n; i++ {
		types = append(types, 1+i&1, 0)
	}
	var rects [][4]int
	for _, t := range types {
		l := lay{rect: [4]int{0, 0, int(sym.U8("height")), 1}, blocks: []blk{lsct("lsct", t)}}
		d.layers = append(d.layers, l)
		rects = append(rects, l.rect)
	}
	p, err := decode(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	sym.Reach("decoded")
	if open == 1 {
		sym.Assert(err != nil, "an unclosed folder is an error")
		return
	}
	sym.Assert(err == nil, "balanced dividers are accepted")
	want, _ := refTree(types)
	sameTree(p.Layer, want, rects)
}

// WideTree: two folders, nested or side by side, with several layers around and inside of them.
func WideTree() {
	d := gray1x1(false)
	var types []int
	put := func(n int) {
		for i := 0; i < n; i++ {
			types = append(types, 0)
		}
	}
	m := sym.Param("max", 4)
	put(sym.Choose("before", 0, m))
	types = append(types, 3)
	put(sym.Choose("inside", 0, m))
	nested := sym.Choose("nested", 0, 1) == 1
	if !nested {
		types = append(types, sym.Choose("close1", 1, 2))
		put(sym.Choose("between", 0, 3))
	}
	types = append(types, 3)
	put(sym.Choose("second", 0, 2))
	types = append(types, 1)
	if nested {
		put(sym.Choose("behind", 0, 3))
		types = append(types, 2)
	}
	put(sym.Choose("after", 0, 2))
	var rects [][4]int
	for _, t := range types {
		l := lay{rect: [4]int{0, 0, int(sym.U8("height")), 1}, blocks: []blk{lsct("lsct", t)}}
		d.layers = append(d.layers, l)
		rects = append(rects, l.rect)
	}
	p, err := decode(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	sym.Reach("decoded")
	sym.Assert(err == nil, "balanced dividers are accepted")
	want, _ := refTree(types)
	sameTree(p.Layer, want, rects)
}
