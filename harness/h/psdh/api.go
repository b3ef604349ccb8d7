package psdh

import (
	"bytes"
	"errors"
	"image"

	"github.com/oov/psd"
	"verif/harness/sym"
)

// richDoc is a document with every section: resources, two layers with
// channels (raw, PackBits), a mask, names, blocks, a global mask and document blocks.
func richDoc(psb bool, rle bool) doc {
	d := doc{psb: psb, ch: 3, w: 2, h: 1, depth: 8, mode: 3}
	d.res = []rsc{{id: 1005, name: sym.Bytes("rname", 2), data: sym.Bytes("rdata", 3)}, {id: 0x41d, data: []byte{0, 0, 0, 1}}}
	mask := append(make([]byte, 0), p32(p32(p32(p32(nil, 0), 0), 1), 1)...)
	mask = append(mask, sym.U8("mcolor"), 0, 0, 0)
	a := lay{rect: [4]int{0, 0, 1, 2}, opacity: sym.U8("opacity"), flags: sym.U8("flags"), clip: sym.U8("clip"), mode: sym.Bytes("mode", 4),
		name: sym.Bytes("lname", 3), mask: mask, ranges: sym.Bytes("ranges", 4),
		blocks: []blk{{key: []byte("luni"), data: append(p32(nil, 1), 0, 65)}, {key: []byte("abcd"), data: sym.Bytes("block", 2)}}}
	m := 0
	if rle {
		m = 1
	}
	for _, id := range []int{-1, 0, 1, 2} {
		px, _ := compress(psb, m, sym.Bytes("lpx", 2), 2, 1, 8)
		a.chans = append(a.chans, chn{id: id, method: m, data: px})
	}
	a.chans = append(a.chans, chn{id: -2, data: sym.Bytes("mpx", 1)})
	b := lay{rect: [4]int{0, 0, 0, 0}, blocks: []blk{lsct("lsct", 3)}, name: []byte("x")}
	c := lay{rect: [4]int{0, 0, 0, 0}, blocks: []blk{lsct("lsct", 1)}, name: sym.Bytes("folder", 1)}
	d.layers = []lay{b, a, c}
	d.hasGlobal = true
	d.global = sym.Bytes("global", 3)
	d.blocks = []blk{{key: []byte("wxyz"), data: sym.Bytes("dblock", 3), pad: []byte{0}}}
	d.method = m
	d.merged, _ = compress(psb, m, sym.Bytes("px", 6), 2, 3, 8)
	return d
}

// Options: every combination of skipping and callbacks against a full decoding.
func Options() {
	psb := sym.Choose("psb", 0, 1) == 1
	d := richDoc(psb, sym.Choose("rle", 0, 1) == 1)
	switch sym.Choose("layers", 0, 2) {
	case 1:
		d.layers = nil
	case 2:
		// little is left behind the layer records when the images are skipped
		d.layers[1].chans = d.layers[1].chans[4:]
		d.layers[1].mask = nil
		d.layers[1].chans[0].data = sym.Bytes("cpx", sym.Choose("clen", 0, 3))
		d.infoPad = sym.Choose("infopad", 0, 3)
	}
	b := d.bytes()
	full := ok(b, nil)
	o := &psd.DecodeOptions{}
	o.SkipLayerImage = sym.Choose("skiplayer", 0, 1) == 1
	o.SkipMergedImage = sym.Choose("skipmerged", 0, 1) == 1
	confs, calls := 0, 0
	order := true
	if sym.Choose("callbacks", 0, 1) == 1 {
		o.ConfigLoaded = func(cfg psd.Config) error {
			confs++
			sym.Assert(calls == 0, "the configuration comes first")
			sameConfig(cfg, full.Config)
			return nil
		}
		o.LayerImageLoaded = func(l *psd.Layer, i, total int) {
			sym.Assert(confs == 1, "the configuration comes before the layers")
			order = order && i == calls && total == len(d.layers) && l.SeqID == i
			sym.Assert(l.Picker != nil && l.Channel != nil, "the picture of the layer is ready")
			if i < len(d.layers) {
				sym.Assert(len(l.Channel) == len(d.layers[i].chans), "the channels of the layer are ready")
				sym.Assert(sym.StrEq(l.MBCSName, string(d.layers[i].name)), "the layer of the callback")
				for _, c := range d.layers[i].chans {
					sym.Assert(sym.Eq(l.Channel[c.id].Data, flat(full.Layer)[i].Channel[c.id].Data), "the channel of the callback")
				}
			}
			calls++
		}
	}
	c := &counter{b: append(append([]byte(nil), b...), 1, 2, 3)}
	p, n, err := psd.Decode(c, o)
	sym.Reach("decoded")
	sym.Assert(err == nil && n == c.pos, "byte count of the document")
	if !o.SkipMergedImage {
		sym.Assert(n == len(b), "whole document")
		sym.Assert(sym.Eq(p.Data, full.Data), "merged data")
		sym.Assert(len(p.Channel) == len(full.Channel), "merged channels")
	} else {
		sym.Assert(n == len(b)-2-len(d.merged), "the merged image is not read")
		sym.Assert(p.Data == nil && p.Picker == nil && p.Channel == nil, "no merged image")
	}
	sameConfig(p.Config, full.Config)
	sym.Assert(len(p.AdditinalLayerInfo) == len(full.AdditinalLayerInfo), "document blocks")
	for k, v := range full.AdditinalLayerInfo {
		sym.Assert(sym.Eq(p.AdditinalLayerInfo[k], v), "document block")
	}
	g, w := flat(p.Layer), flat(full.Layer)
	sym.Assert(len(g) == len(w), "number of layers")
	for i := range g {
		sameLayer(g[i], w[i])
		if o.SkipLayerImage {
			sym.Assert(g[i].Picker == nil && g[i].Channel == nil, "no layer image")
		} else {
			samePixels(g[i], w[i])
		}
	}
	if o.ConfigLoaded != nil {
		sym.Assert(confs == 1, "one configuration callback")
		want := len(d.layers)
		if o.SkipLayerImage {
			want = 0
		}
		sym.Assert(calls == want && order, "one callback per layer, in order")
	}
}

// flat lists the layers by sequence number.
func flat(ls []psd.Layer) []*psd.Layer {
	m := map[int]*psd.Layer{}
	var walk func(ls []psd.Layer)
	walk = func(ls []psd.Layer) {
		for i := range ls {
			m[ls[i].SeqID] = &ls[i]
			walk(ls[i].Layer)
		}
	}
	walk(ls)
	// section divider records are not part of the tree
	var r []*psd.Layer
	for i := 0; i < 16; i++ {
		if l, found := m[i]; found {
			r = append(r, l)
		} else if len(m) > 0 {
			r = append(r, &psd.Layer{})
		}
	}
	for len(r) > 0 && r[len(r)-1].Channel == nil && r[len(r)-1].BlendMode == "" {
		r = r[:len(r)-1]
	}
	return r
}

func sameConfig(a, b psd.Config) {
	sym.Assert(a.Version == b.Version && a.Rect == b.Rect && a.Channels == b.Channels && a.Depth == b.Depth && a.ColorMode == b.ColorMode, "configuration")
	sym.Assert(len(a.ColorModeData) == len(b.ColorModeData) && sym.Eq(a.ColorModeData, b.ColorModeData), "colour mode data")
	sym.Assert(len(a.Res) == len(b.Res), "number of resources")
	for k, v := range b.Res {
		w := a.Res[k]
		sym.Assert(len(w.Name) == len(v.Name) && sym.StrEq(w.Name, v.Name) && len(w.Data) == len(v.Data) && sym.Eq(w.Data, v.Data), "resource")
	}
}

func sameLayer(a, b *psd.Layer) {
	sym.Assert(a.SeqID == b.SeqID && len(a.Layer) == len(b.Layer), "layer order")
	sym.Assert(sameRect(a.Rect, b.Rect), "layer rectangle")
	sym.Assert(sym.And(a.Opacity == b.Opacity, a.Flags == b.Flags), "layer opacity and flags")
	sym.Assert(a.Clipping == b.Clipping && a.BlendClippedElements == b.BlendClippedElements, "layer clipping")
	sym.Assert(sym.StrEq(string(a.BlendMode), string(b.BlendMode)), "layer blend mode")
	sym.Assert(sym.And(sym.StrEq(a.Name, b.Name), sym.And(sym.StrEq(a.MBCSName, b.MBCSName), sym.StrEq(a.UnicodeName, b.UnicodeName))), "layer name")
	sym.Assert(a.Mask.DefaultColor == b.Mask.DefaultColor && sameRect(a.Mask.Rect, b.Mask.Rect), "layer mask")
	sym.Assert(a.SectionDividerSetting.Type == b.SectionDividerSetting.Type, "section divider")
	sym.Assert(len(a.AdditionalLayerInfo) == len(b.AdditionalLayerInfo), "layer blocks")
	for k, v := range b.AdditionalLayerInfo {
		sym.Assert(len(a.AdditionalLayerInfo[k]) == len(v) && sym.Eq(a.AdditionalLayerInfo[k], v), "layer block")
	}
}

func samePixels(a, b *psd.Layer) {
	sym.Assert(len(a.Channel) == len(b.Channel), "layer channels")
	for k, v := range b.Channel {
		sym.Assert(len(a.Channel[k].Data) == len(v.Data) && sym.Eq(a.Channel[k].Data, v.Data), "layer channel data")
	}
	sym.Assert((a.Picker == nil) == (b.Picker == nil), "layer picture")
	if b.Picker != nil {
		samePicture(a.Picker, b.Picker)
	}
}

func samePicture(a, b image.Image) {
	sym.Assert(sameRect(a.Bounds(), b.Bounds()), "picture bounds")
	r := b.Bounds()
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			sameColor(a.At(x, y), b.At(x, y))
		}
	}
}

// ConfigError: the error of the configuration callback stops decoding and is returned.
func ConfigError() {
	d := richDoc(sym.Choose("psb", 0, 1) == 1, false)
	want := errors.New("stop")
	stop := sym.Bool("stop")
	n := 0
	o := &psd.DecodeOptions{ConfigLoaded: func(cfg psd.Config) error {
		n++
		if stop {
			return want
		}
		return nil
	}}
	c := &counter{b: d.bytes()}
	p, _, err := psd.Decode(c, o)
	sym.Reach("decoded")
	sym.Assert(n == 1, "one configuration callback")
	if stop {
		sym.Assert(err == want && p == nil, "the error of the callback is returned")
		sym.Assert(c.pos == len(d.config()), "nothing is read after the callback")
	} else {
		sym.Assert(err == nil && p != nil, "no error")
	}
}

// ImageDecode: the registered format decoder agrees with Decode on every mode, depth
// and channel count, supported or not.
func ImageDecode() {
	d := doc{psb: sym.Choose("psb", 0, 1) == 1}
	d.mode = []int{0, 1, 2, 3, 4, 7, 9}[sym.Choose("mode", 0, 6)]
	d.depth = []int{1, 8, 16, 32}[sym.Choose("depth", 0, 3)]
	d.w, d.h = sym.Choose("w", 1, 2), 1
	d.ch = sym.Choose("ch", 1, 6)
	if sym.Choose("ids", 0, 1) == 1 {
		d.res = []rsc{{id: 0x041d, data: sym.Bytes("ids", 4)}}
	}
	switch sym.Choose("cmd", 0, 3) {
	case 1:
		d.cmd = make([]byte, 767)
	case 2:
		d.cmd = sym.Bytes("pal", 768)
	case 3:
		d.cmd = make([]byte, 768)
		for i := range d.cmd {
			d.cmd[i] = byte(i * 7)
		}
		d.res = append(d.res, rsc{id: 0x0417, data: sym.Bytes("transparent", 2)})
	}
	if d.mode != 2 {
		sym.Assume(len(d.cmd) == 0)
	}
	if d.mode > 4 {
		sym.Assume(d.ch == 1)
	}
	n := plane(d.w, d.h, d.depth) * d.ch
	d.merged = sym.Bytes("px", n-sym.Choose("short", 0, 1))
	b := d.bytes()
	p, _, e1 := psd.Decode(bytes.NewReader(b), nil)
	m, name, e2 := image.Decode(bytes.NewReader(b))
	cfg, cname, e3 := image.DecodeConfig(bytes.NewReader(b))
	sym.Assert((e1 == nil) == (e2 == nil), "the same success")
	if e1 != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	format := "psd"
	if d.psb {
		format = "psb"
	}
	sym.Assert(name == format && cname == format, "format name")
	sym.Assert(e3 == nil, "the configuration is decoded")
	sym.Assert(cfg.Width == d.w && cfg.Height == d.h, "size")
	sym.Assert(m.Bounds() == image.Rect(0, 0, d.w, d.h), "bounds")
	sym.Assert(sameModel(cfg, m), "colour model")
	samePicture(m, p.Picker)
}

// ImageDecodeLayers: layers do not change the picture, broken layers fail in both.
func ImageDecodeLayers() {
	psb := sym.Choose("psb", 0, 1) == 1
	d := richDoc(psb, sym.Choose("rle", 0, 1) == 1)
	switch sym.Choose("break", 0, 2) {
	case 1:
		d.layers = d.layers[1:]
	case 2:
		d.layers[1].sig = sym.Bytes("sig", 4)
	}
	b := d.bytes()
	p, _, e1 := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipLayerImage: true})
	m, _, e2 := image.Decode(bytes.NewReader(b))
	sym.Assert((e1 == nil) == (e2 == nil), "the same success")
	if e1 != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	samePicture(m, p.Picker)
}
