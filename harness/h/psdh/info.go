package psdh

import (
	"unicode/utf16"

	"github.com/oov/psd"
	"verif/harness/sym"
)

// Keys whose length has 8 bytes in large documents, from Adobe's document
// (Layr, Lr16 and Lr32 hold layers and are covered by InfoLayers).
var longKeys = []string{"LMsk", "Mt16", "Mt32", "Mtrn", "Alph", "FMsk", "lnk2", "FEid", "FXid", "PxSD"}

// symKey is one of the long keys or any other key; special keys are excluded.
func symKey(choices int) (k []byte, long bool) {
	c := sym.Choose("key", 0, choices)
	if c > 0 {
		return []byte(longKeys[c-1]), true
	}
	k = sym.Bytes("key", 4)
	for _, s := range longKeys {
		sym.Assume(!sym.Eq(k, []byte(s)))
	}
	for _, s := range []string{"Layr", "Lr16", "Lr32", "luni", "clbl", "lsct", "lsdk"} {
		sym.Assume(!sym.Eq(k, []byte(s)))
	}
	return k, false
}

func symBlocks(d *doc, n, size, pads int) (bs []blk) {
	for i := 0; i < n; i++ {
		c := len(longKeys)
		if i > 0 {
			c = 1
		}
		k, long := symKey(c)
		b := blk{key: k, len8: long && d.psb, data: sym.Bytes("data", sym.Choose("datalen", 0, size))}
		if sym.Choose("sig", 0, 1) == 1 {
			b.sig = "8B64"
		}
		b.pad = sym.Bytes("pad", sym.Choose("padlen", 0, pads))
		for _, x := range b.pad {
			sym.Assume(x != '8')
		}
		bs = append(bs, b)
	}
	return
}

func sameInfos(got map[psd.AdditionalInfoKey][]byte, want []blk) {
	distinct := 0
	for i, b := range want {
		last := true
		for _, c := range want[i+1:] {
			if sym.Eq(b.key, c.key) {
				last = false
			}
		}
		if !last {
			continue
		}
		distinct++
		g, found := got[psd.AdditionalInfoKey(b.key)]
		sym.Assert(found, "the block is present")
		sym.Assert(len(g) == len(b.data) && sym.Eq(g, b.data), "block data")
	}
	sym.Assert(len(got) == distinct, "number of blocks")
}

// LayerBlocks: additional information blocks of a layer.
func LayerBlocks() {
	d := gray1x1(sym.Choose("psb", 0, 1) == 1)
	bs := symBlocks(&d, sym.Choose("n", 0, sym.Param("n", 2)), sym.Param("size", 1), sym.Param("pad", 2))
	d.layers = []lay{{blocks: bs, opacity: 3, name: sym.Bytes("name", sym.Choose("name", 0, 1)*3)}, {opacity: 5}}
	p := ok(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	sym.Reach("decoded")
	sym.Assert(len(p.Layer) == 2, "number of layers")
	sameInfos(p.Layer[0].AdditionalLayerInfo, bs)
	sym.Assert(p.Layer[0].Opacity == 3 && p.Layer[1].Opacity == 5, "the next record")
	sym.Assert(len(p.Layer[1].AdditionalLayerInfo) == 0, "no blocks in the next record")
}

// DocBlocks: additional information blocks of the document, with or without layers and global mask.
func DocBlocks() {
	d := gray1x1(sym.Choose("psb", 0, 1) == 1)
	d.hasGlobal = true
	d.global = sym.Bytes("global", sym.Choose("global", 0, 1)*5)
	d.blocks = symBlocks(&d, sym.Choose("n", 1, sym.Param("n", 2)), sym.Param("size", 1), sym.Param("pad", 1))
	if sym.Choose("layers", 0, 1) == 1 {
		d.layers = []lay{{opacity: sym.U8("opacity")}}
		d.infoPad = sym.Choose("infopad", 0, 1)
	}
	p := ok(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	sym.Reach("decoded")
	sameInfos(p.AdditinalLayerInfo, d.blocks)
	sym.Assert(len(p.Layer) == len(d.layers), "number of layers")
	if len(p.Layer) > 0 {
		sym.Assert(p.Layer[0].Opacity == d.layers[0].opacity, "layer before the blocks")
	}
}

// BlockSig: a block with any signature is accepted exactly when it is one of the two.
func BlockSig() {
	d := gray1x1(false)
	sig := sym.Bytes("sig", 3)
	d.blocks = []blk{{sig: "8" + string(sig), key: []byte("abcd"), data: sym.Bytes("data", 2)}}
	p, err := decode(d.bytes(), nil)
	want := sym.Or(sym.Eq(sig, []byte("BIM")), sym.Eq(sig, []byte("B64")))
	if err != nil {
		sym.Reach("rejected")
		sym.Assert(!want, "a known signature is accepted")
		return
	}
	sym.Reach("accepted")
	sym.Assert(want, "an unknown signature is rejected")
	sameInfos(p.AdditinalLayerInfo, d.blocks)
}

// InfoLayers: layers stored in a Layr, Lr16 or Lr32 block of the document.
func InfoLayers() {
	d := gray1x1(sym.Choose("psb", 0, 1) == 1)
	key := []string{"Layr", "Lr16", "Lr32"}[sym.Choose("key", 0, 2)]
	n := sym.Choose("n", 0, 2)
	in := d
	in.neg = sym.Choose("neg", 0, 1) == 1
	for i := 0; i < n; i++ {
		in.layers = append(in.layers, lay{opacity: sym.U8("opacity"), rect: symRect("rect")})
	}
	li := in.layerInfo()
	d.hasGlobal = true
	around := sym.Choose("around", 0, 3)
	if around&1 != 0 {
		d.blocks = append(d.blocks, blk{key: []byte("abcd"), data: sym.Bytes("data", 1)})
	}
	d.blocks = append(d.blocks, blk{key: []byte(key), len8: d.psb, data: li, pad: make([]byte, sym.Choose("pad", 0, 1)*2)})
	if around&2 != 0 {
		d.blocks = append(d.blocks, blk{key: []byte("efgh"), data: sym.Bytes("data", 1)})
	}
	both := n > 0 && sym.Choose("both", 0, 1) == 1
	if both {
		d.layers = []lay{{opacity: 1}}
		_, err := decode(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
		sym.Assert(err != nil, "two sets of layers are an error")
		return
	}
	p := ok(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	sym.Reach("decoded")
	sym.Assert(len(p.Layer) == n, "number of layers")
	for i := range p.Layer {
		sym.Assert(p.Layer[i].Opacity == in.layers[i].opacity, "opacity")
		sym.Assert(rectIs(p.Layer[i].Rect, in.layers[i].rect), "rectangle")
	}
	var others []blk
	for _, b := range d.blocks {
		if string(b.key) != key {
			others = append(others, b)
		}
	}
	sameInfos(p.AdditinalLayerInfo, others)
}

// UnicodeName: a name block with any units and any stored count.
func UnicodeName() {
	d := gray1x1(false)
	units := sym.Choose("units", 0, sym.Param("units", 3))
	odd := sym.Choose("odd", 0, 1)
	count := int(sym.U32("count"))
	data := p32(nil, count)
	var u []uint16
	for i := 0; i < units; i++ {
		v := sym.U16("unit")
		u = append(u, v)
		data = p16(data, int(v))
	}
	data = append(data, make([]byte, odd)...)
	d.layers = []lay{{name: []byte("mb"), blocks: []blk{{key: []byte("luni"), data: data}, {key: []byte("abcd"), data: []byte{1}}}}}
	p := ok(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	sym.Reach("decoded")
	n := count
	if n > units {
		n = units
	}
	n = sym.Conc(n)
	l := &p.Layer[0]
	want := string(utf16.Decode(u[:n]))
	sym.Assert(len(l.UnicodeName) == len(want) && sym.StrEq(l.UnicodeName, want), "unicode name")
	sym.Assert(len(l.Name) == len(want) && sym.StrEq(l.Name, want), "name")
	sym.Assert(l.MBCSName == "mb", "legacy name")
	sym.Assert(len(l.AdditionalLayerInfo) == 1, "other blocks")
}

// InfoFlags: the clipped blending flag and the section divider of any size.
func InfoFlags() {
	d := gray1x1(false)
	mode := sym.Bytes("mode", 4)
	var bs []blk
	cl := sym.Choose("clbl", 0, 2)
	var clv byte
	if cl > 0 {
		data := sym.Bytes("clbl", 4*cl-3)
		clv = data[0]
		bs = append(bs, blk{key: []byte("clbl"), data: data})
	}
	size := sym.Choose("size", 0, sym.Param("size", 18))
	div := sym.Bytes("divider", size)
	has := sym.Choose("has", 0, 2)
	if has > 0 {
		bs = append(bs, blk{key: []byte([]string{"", "lsct", "lsdk"}[has]), data: div})
	} else {
		sym.Assume(size == 0)
	}
	bs = append(bs, blk{key: []byte("abcd"), data: []byte{1}})
	d.layers = []lay{{}, {mode: mode, blocks: bs}, {}}
	p, err := decode(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	typ, sub := 0, 0
	want := mode
	if has > 0 && size >= 4 {
		typ = be32(div, 0)
		if size >= 12 {
			want = div[8:12]
			if !sym.Eq(div[4:8], []byte("8BIM")) {
				sym.Reach("bad signature")
				sym.Assert(err != nil, "a divider with a wrong signature is rejected")
				return
			}
		}
		if size >= 16 {
			sub = be32(div, 12)
		}
	}
	if typ == 1 || typ == 2 || typ == 3 {
		sym.Assert(err != nil, "unbalanced dividers are rejected")
		return
	}
	sym.Reach("decoded")
	sym.Assert(err == nil, "a valid document is decoded")
	l := &p.Layer[1]
	sym.Assert(l.SectionDividerSetting.Type == typ, "divider type")
	sym.Assert(l.SectionDividerSetting.SubType == sub, "divider subtype")
	sym.Assert(sym.StrEq(string(l.SectionDividerSetting.BlendMode), string(want)), "divider blend mode")
	sym.Assert(l.BlendClippedElements == (cl == 0 || clv != 0), "clipped blending")
	sym.Assert(len(l.AdditionalLayerInfo["abcd"]) == 1, "other blocks")
}
