package psdh

import (
	"image"

	"github.com/oov/psd"
	"verif/harness/sym"
)

func rectIs(r image.Rectangle, v [4]int) bool {
	e := image.Rect(v[1], v[0], v[3], v[2])
	return sym.And(sym.And(r.Min.X == e.Min.X, r.Min.Y == e.Min.Y), sym.And(r.Max.X == e.Max.X, r.Max.Y == e.Max.Y))
}

func symRect(n string) (v [4]int) {
	for i := range v {
		v[i] = int(sym.I32(n))
	}
	return
}

// LayerRecords: n layers with symbolic fields, images skipped.
func LayerRecords() {
	d := gray1x1(sym.Choose("psb", 0, 1) == 1)
	n := sym.Choose("n", 1, sym.Param("layers", 2))
	d.neg = sym.Choose("neg", 0, 1) == 1
	for i := 0; i < n; i++ {
		l := lay{rect: symRect("rect"), mode: sym.Bytes("mode", 4),
			opacity: sym.U8("opacity"), clip: sym.U8("clip"), flags: sym.U8("flags")}
		l.name = sym.Bytes("name", sym.Choose("namelen", 0, sym.Param("name", 4)))
		for j := sym.Choose("chans", 0, 1); j > 0; j-- {
			l.chans = append(l.chans, chn{id: int(int16(sym.U16("id"))), data: sym.Bytes("data", sym.Choose("datalen", 0, 1))})
		}
		d.layers = append(d.layers, l)
	}
	p := ok(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	sym.Reach("decoded")
	sym.Assert(len(p.Layer) == n, "number of layers")
	for i := range p.Layer {
		l, e := &p.Layer[i], &d.layers[i]
		sym.Assert(l.SeqID == i, "sequence")
		sym.Assert(rectIs(l.Rect, e.rect), "rectangle")
		sym.Assert(sym.StrEq(string(l.BlendMode), string(e.mode)), "blend mode")
		sym.Assert(l.Opacity == e.opacity, "opacity")
		sym.Assert(l.Clipping == (e.clip != 0), "clipping")
		sym.Assert(l.Flags == e.flags, "flags")
		sym.Assert(l.TransparencyProtected() == (e.flags&1 != 0), "transparency protected")
		sym.Assert(l.Visible() == (e.flags&2 == 0), "visible")
		sym.Assert(sym.StrEq(l.MBCSName, string(e.name)), "legacy name")
		sym.Assert(sym.StrEq(l.Name, string(e.name)), "name")
		sym.Assert(l.UnicodeName == "", "no unicode name")
		sym.Assert(l.HasImage() && !l.Folder() && !l.FolderIsOpen(), "an ordinary layer")
		sym.Assert(sym.StrEq(string(l.SectionDividerSetting.BlendMode), string(e.mode)), "divider blend mode default")
		sym.Assert(l.BlendClippedElements, "clipped blending default")
		sym.Assert(len(l.Layer) == 0, "no children")
		sym.Assert(l.Mask == psd.Mask{}, "no mask")
	}
}

// ChannelIDs: the channels of a layer keep their stored identifiers and data.
func ChannelIDs() {
	ids := []int{0, 1, 2, -1, -2, -3, 3, 4, 255, 256, 257, -256, -32768, 32767, 10000}
	d := gray1x1(sym.Choose("psb", 0, 1) == 1)
	if sym.Choose("rgb", 0, 1) == 1 {
		d.mode, d.ch, d.merged = 3, 3, make([]byte, 3)
	}
	l := lay{rect: [4]int{0, 0, 1, 1}}
	for i := 0; i < 16; i++ { // both mask rectangles have one pixel
		l.mask = append(l.mask, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1}[i])
	}
	l.mask = append(l.mask, 0, 0, 0, 0)
	l.mask = append(l.mask, l.mask[:16]...)
	data := map[int][]byte{}
	for j := sym.Choose("chans", 0, sym.Param("chans", 2)); j > 0; j-- {
		id := ids[sym.Choose("id", 0, len(ids)-1)]
		if _, twice := data[id]; twice {
			sym.Assume(false)
		}
		data[id] = sym.Bytes("data", 1)
		l.chans = append(l.chans, chn{id: id, data: data[id]})
	}
	d.layers = []lay{l, {rect: [4]int{0, 0, 1, 1}, chans: []chn{{id: 0, data: []byte{9}}}}}
	p := ok(d.bytes(), nil)
	sym.Reach("decoded")
	c := p.Layer[0].Channel
	sym.Assert(len(c) == len(data), "number of channels")
	for _, s := range l.chans {
		g, found := c[s.id]
		sym.Assert(found, "channel identifier")
		if found {
			sym.Assert(len(g.Data) == len(s.data) && sym.Eq(g.Data, s.data), "data of the channel")
		}
	}
	sym.Assert(len(p.Layer[1].Channel) == 1 && p.Layer[1].Channel[0].Data[0] == 9, "the next layer")
}

// LayerNames: legacy names of every length.
func LayerNames() {
	d := gray1x1(false)
	n := sym.Choose("namelen", 0, 255)
	name := sym.Bytes("name", n)
	d.layers = []lay{{name: name, opacity: 3, blocks: []blk{{key: []byte("abcd"), data: []byte{1}}}}, {name: []byte("second"), opacity: 7}}
	p := ok(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	sym.Reach("decoded")
	sym.Assert(len(p.Layer) == 2, "number of layers")
	l := &p.Layer[0]
	sym.Assert(len(l.MBCSName) == n && sym.StrEq(l.MBCSName, string(name)), "legacy name")
	sym.Assert(len(l.Name) == n && sym.StrEq(l.Name, string(name)), "name")
	sym.Assert(l.Opacity == 3 && p.Layer[1].Opacity == 7 && p.Layer[1].Name == "second", "the next layer")
	sym.Assert(len(l.AdditionalLayerInfo) == 1, "blocks")
}

// LayerSig: every layer record has the signature of its blend mode.
func LayerSig() {
	d := gray1x1(sym.Choose("psb", 0, 1) == 1)
	n := sym.Choose("n", 1, 3)
	k := sym.Choose("which", 0, n-1)
	sig := sym.Bytes("sig", 4)
	for i := 0; i < n; i++ {
		l := lay{name: []byte("n"), opacity: 3}
		if i == k {
			l.sig = sig
		}
		d.layers = append(d.layers, l)
	}
	_, err := decode(d.bytes(), &psd.DecodeOptions{SkipLayerImage: sym.Choose("skip", 0, 1) == 1})
	if err != nil {
		sym.Reach("rejected")
	} else {
		sym.Reach("accepted")
	}
	sym.Assert((err == nil) == sym.Eq(sig, []byte("8BIM")), "the signature decides")
}
