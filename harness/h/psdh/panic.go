package psdh

import (
	"bytes"
	"image"

	"github.com/oov/psd"
	"verif/harness/sym"
)

// These harnesses assert nothing about the result: a panic of the code under
// test is the violation. Successful results are read at every point.

func touchImage(m image.Image) {
	if m == nil {
		return
	}
	_ = m.ColorModel()
	r := m.Bounds()
	if r.Empty() {
		return
	}
	if r.Dx() > 16 || r.Dy() > 4 {
		// large pictures: the corners
		for _, p := range []image.Point{r.Min, {r.Max.X - 1, r.Max.Y - 1}, {r.Min.X, r.Max.Y - 1}} {
			m.At(p.X, p.Y)
		}
		return
	}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			m.At(x, y)
		}
	}
}

func touch(p *psd.PSD) {
	touchImage(p.Picker)
	for i := range p.Channel {
		touchImage(p.Channel[i].Picker)
	}
	p.Config.Palette()
	var walk func(ls []psd.Layer)
	walk = func(ls []psd.Layer) {
		for i := range ls {
			l := &ls[i]
			touchImage(l.Picker)
			for k := range l.Channel {
				touchImage(l.Channel[k].Picker)
			}
			_ = l.Folder() && l.FolderIsOpen() && l.HasImage() && l.Visible() && l.TransparencyProtected() && l.Mask.Enabled() && l.Mask.RealEnabled()
			walk(l.Layer)
		}
	}
	walk(p.Layer)
}

// AnyConfig: any bytes behind the signature and version.
func AnyConfig() {
	n := sym.Choose("n", 0, sym.Param("bytes", 40))
	b := sym.Bytes("b", n)
	c, _, err := psd.DecodeConfig(&counter{b: b})
	sym.Reach("decoded")
	if err == nil {
		c.Palette()
	}
}

// AnyResources: a resource section of any bytes.
func AnyResources() {
	b := (&doc{ch: 1, w: 1, h: 1, depth: 8, mode: 1}).config()
	b = append(b[:len(b)-4], sym.Bytes("res", sym.Choose("n", 0, sym.Param("bytes", 24)))...)
	_, _, err := psd.DecodeConfig(&counter{b: b})
	sym.Reach("decoded")
	_ = err
}

// AnySections: any bytes behind the resources.
func AnySections() {
	d := gray1x1(sym.Choose("psb", 0, 1) == 1)
	b := append(d.config(), sym.Bytes("b", sym.Choose("n", 0, sym.Param("bytes", 22)))...)
	p, _, err := psd.Decode(&counter{b: b}, &psd.DecodeOptions{SkipMergedImage: true})
	sym.Reach("decoded")
	if err == nil {
		touch(p)
	}
}

// AnyWindow: a document with one of everything in which a few consecutive bytes are arbitrary.
func AnyWindow() {
	d := smallDoc(sym.Choose("psb", 0, 1) == 1)
	b := d.bytes()
	w := sym.Param("window", 2)
	at := sym.Choose("at", 0, len(b)-w)
	copy(b[at:], sym.Bytes("window", w))
	if sym.Choose("cut", 0, 1) == 1 {
		b = b[:at+w]
	}
	p, _, err := psd.Decode(bytes.NewReader(b), nil)
	sym.Reach("decoded")
	if err == nil {
		touch(p)
	}
}

// AnyLengths: every length and count field of the document is wrong, one at a time.
func AnyLengths() {
	d := smallDoc(sym.Choose("psb", 0, 1) == 1)
	d.cor = &corrupt{at: -1}
	total := len(d.bytes())
	at := sym.Choose("field", 0, d.cor.n-1)
	d.cor = &corrupt{at: at, val: func(v, size int) []byte {
		f := make([]byte, size)
		switch k := sym.Choose("how", 0, 7+sym.Param("all", 0)); k {
		case 7: // any length beyond the document
			copy(f, sym.Bytes("length", size))
			var x uint64
			for _, c := range f {
				x = x<<8 | uint64(c)
			}
			sym.Assume(x > uint64(total))
		case 8: // any value
			copy(f, sym.Bytes("length", size))
		default: // up to three less or more, below zero included
			v += k - 3
			for i := size - 1; i >= 0; i-- {
				f[i] = byte(v)
				v >>= 8
			}
		}
		return f
	}}
	b := d.bytes()
	p, _, err := psd.Decode(bytes.NewReader(b), nil)
	sym.Reach("decoded")
	if err == nil {
		touch(p)
	}
}

// anyMode is one of the colour modes, an unassigned one and an out of range one.
func anyMode() int {
	return []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 700}[sym.Choose("mode", 0, 9)]
}

// optPSB is PSD, or either version when the parameter psb is set.
func optPSB() bool {
	return sym.Param("psb", 0) == 1 && sym.Choose("psb", 0, 1) == 1
}

// AnyLayerImage: a layer of any colour mode, depth, channel ids, rectangle and compression.
func AnyLayerImage() {
	d := doc{psb: optPSB(), w: 1, h: 1, ch: 1}
	d.mode = anyMode()
	d.depth = []int{1, 8, 16, 32}[sym.Choose("depth", 0, 3)]
	l := lay{rect: [4]int{0, 0, 1, sym.Choose("w", 0, 1)}}
	n := sym.Choose("channels", 0, sym.Param("channels", 1))
	for i := 0; i < n; i++ {
		l.chans = append(l.chans, chn{id: int(int16(sym.U16("id"))), method: sym.Choose("method", 0, 1), data: sym.Bytes("px", sym.Choose("len", 0, sym.Param("len", 2)))})
	}
	d.layers = []lay{l}
	p, _, err := psd.Decode(&counter{b: d.bytes()[:]}, &psd.DecodeOptions{SkipMergedImage: true})
	sym.Reach("decoded")
	if err == nil {
		sym.Reach("accepted")
		touch(p)
	}
}

// AnyMaskImage: a layer with a mask of any rectangle up to three points wide and a mask channel.
func AnyMaskImage() {
	d := doc{psb: optPSB(), w: 1, h: 1, ch: 1, mode: 1}
	d.depth = []int{1, 8, 16, 32}[sym.Choose("depth", 0, 3)]
	real := sym.Choose("real", 0, 1)
	x, y := sym.Choose("x", 0, 1)*-3, 5
	r := [4]int{y, x, y + sym.Choose("mh", -1, 2), x + sym.Choose("mw", -1, 2)}
	var m []byte
	if real == 0 {
		m = append(rectBytes(r), 0, 0, 0, 0)
	} else {
		m = append(append(make([]byte, 20), 0, 0), rectBytes(r)...)
	}
	l := lay{rect: [4]int{0, 0, 1, 1}, mask: m}
	id := -2 - real
	if sym.Choose("other", 0, 1) == 1 {
		id = -5 - id
	}
	l.chans = []chn{{id: 0, data: make([]byte, (d.depth+7)>>3)}, {id: id, method: sym.Choose("method", 0, 1), data: sym.Bytes("px", sym.Choose("len", 0, sym.Param("len", 4)))}}
	d.layers = []lay{l}
	p, _, err := psd.Decode(&counter{b: d.bytes()}, &psd.DecodeOptions{SkipMergedImage: true})
	sym.Reach("decoded")
	if err == nil {
		sym.Reach("accepted")
		touch(p)
	}
}

func rectBytes(r [4]int) (b []byte) {
	for _, v := range r {
		b = p32(b, v)
	}
	return
}

// AnyLayerRect: a layer with any rectangle.
func AnyLayerRect() {
	d := doc{psb: false, w: 1, h: 1, ch: 1, mode: 1}
	d.depth = []int{1, 8, 16, 32}[sym.Choose("depth", 0, 3)]
	// one edge is arbitrary, the other side one of a few sizes
	side, size := sym.Choose("side", 0, 1), []int{-1, 0, 1, 2, 300000, 300001}[sym.Choose("size", 0, 5)]
	r := [4]int{-7, -7, size - 7, size - 7}
	r[2*sym.Choose("edge", 0, 1)+side] = int(sym.I32("pos"))
	l := lay{rect: r}
	switch sym.Choose("data", 0, 2) {
	case 1:
		l.chans = []chn{{id: 0}}
	case 2:
		l.chans = []chn{{id: 0, data: sym.Bytes("px", 2)}}
	}
	d.layers = []lay{l}
	p, _, err := psd.Decode(&counter{b: d.bytes()}, &psd.DecodeOptions{SkipMergedImage: true})
	sym.Reach("decoded")
	if err == nil {
		sym.Reach("accepted")
		sym.Assert(len(p.Layer) == 1, "one layer")
		p.Layer[0].Picker.Bounds()
	}
}

// AnyMerged: every mode, depth, number of channels and size of picture.
func AnyMerged() {
	d := doc{psb: optPSB()}
	d.mode = anyMode()
	d.depth = []int{1, 8, 16, 32}[sym.Choose("depth", 0, 3)]
	d.w, d.h = sym.Choose("w", 1, sym.Param("w", 2)), sym.Choose("h", 1, sym.Param("h", 1))
	d.ch = sym.Choose("ch", 1, sym.Param("ch", 5))
	if sym.Choose("ids", 0, 1) == 1 {
		d.res = []rsc{{id: 0x041d, data: sym.Bytes("ids", sym.Choose("idlen", 0, 5))}}
	}
	if k := sym.Choose("cmd", 0, 3); k > 0 {
		d.cmd = make([]byte, []int{0, 767, 768, 769}[k])
		if k == 2 {
			d.res = append(d.res, rsc{id: 0x0417, data: sym.Bytes("trans", sym.Choose("translen", 0, 2))})
		}
	}
	d.method = sym.Choose("method", 0, 1)
	n := plane(d.w, d.h, d.depth) * d.ch
	if d.method == 1 {
		for i := 0; i < d.h*d.ch; i++ {
			d.merged = d.lenN2(d.merged, 2)
		}
		row := (d.w*d.depth + 7) >> 3
		for i := 0; i < d.h*d.ch; i++ {
			d.merged = append(d.merged, byte(257-row), sym.U8("run"))
		}
		if row == 1 {
			sym.Assume(false)
		}
	} else {
		d.merged = sym.Bytes("px", n)
	}
	b := d.bytes()
	p, _, err := psd.Decode(&counter{b: b}, nil)
	sym.Reach("decoded")
	if err == nil {
		sym.Reach("accepted")
		touch(p)
	}
}

func (d *doc) lenN2(b []byte, v int) []byte {
	if d.psb {
		return p32(b, v)
	}
	return p16(b, v)
}

// AnyData: CompressionMethod.Decode with any method and any bytes.
func AnyData() {
	m := psd.CompressionMethod(sym.Choose("method", -1, 4))
	depth := []int{1, 8, 16, 32}[sym.Choose("depth", 0, 3)]
	w, h, ch := sym.Choose("w", 0, 2), sym.Choose("h", 0, 2), sym.Choose("ch", 0, 1)
	dest := make([]byte, (w*depth+7)>>3*h*ch)
	src := sym.Bytes("src", sym.Choose("n", 0, sym.Param("bytes", 5)))
	if m >= 2 && len(src) > 2 {
		src = src[:2]
	}
	sym.Procs(sym.Choose("procs", 1, 2))
	_, err := m.Decode(dest, &counter{b: src}, int64(sym.Range("hint", 0, 8)), image.Rect(0, 0, w, h), depth, ch, sym.Choose("large", 0, 1) == 1)
	sym.Reach("decoded")
	_ = err
}

// AnyImage: the image package entry points on any bytes behind the magic.
func AnyImage() {
	n := sym.Choose("n", 0, sym.Param("bytes", 36))
	b := append([]byte("8BPS\x00"), byte(sym.Choose("version", 0, 3)))
	b = append(b, sym.Bytes("b", n)...)
	if n >= 20 {
		m := anyMode()
		b[24], b[25] = byte(m>>8), byte(m)
	}
	_, _, e1 := image.Decode(bytes.NewReader(b))
	_, _, e2 := image.DecodeConfig(bytes.NewReader(b))
	sym.Reach("decoded")
	_, _ = e1, e2
}

// AnyBlocks: a layer, or the document, with a block of any key and any contents.
func AnyBlocks() {
	d := gray1x1(optPSB())
	k := blk{key: sym.Bytes("key", 4), data: sym.Bytes("data", sym.Choose("len", 0, sym.Param("len", 17)))}
	if sym.Choose("where", 0, 1) == 0 {
		d.layers = []lay{{blocks: []blk{k}}}
	} else {
		d.blocks = []blk{k}
	}
	p, _, err := psd.Decode(&counter{b: d.bytes()}, nil)
	sym.Reach("decoded")
	if err == nil {
		sym.Reach("accepted")
		touch(p)
	}
}

// AnyKnownBlocks: two blocks of the documented keys with any contents.
func AnyKnownBlocks() {
	keys := []string{"luni", "clbl", "lsct", "lsdk", "lyid", "lfx2"}
	d := gray1x1(optPSB())
	l := lay{}
	for i := 0; i < 2; i++ {
		k := keys[sym.Choose("key", 0, len(keys)-1)]
		n := []int{0, 1, 4, 8, 12, 16, 3, 5, 6, 11, 15, 20}[sym.Choose("len", 0, []int{11, sym.Param("lens", 2)}[i])]
		if k == "luni" && n > 8 {
			n = 7
		}
		l.blocks = append(l.blocks, blk{key: []byte(k), data: sym.Bytes("data", n)})
	}
	d.layers = []lay{l}
	p, _, err := psd.Decode(&counter{b: d.bytes()}, nil)
	sym.Reach("decoded")
	if err == nil {
		sym.Reach("accepted")
		touch(p)
	}
}

// AnyResourceData: every resource the decoder looks at with any contents, in every colour mode.
func AnyResourceData() {
	d := gray1x1(optPSB())
	d.mode = anyMode()
	d.ch = sym.Choose("ch", 1, 5)
	d.cmd = make([]byte, []int{0, 768}[sym.Choose("cmd", 0, 1)])
	d.merged = make([]byte, d.ch)
	d.res = []rsc{{id: int(sym.U16("id")), name: sym.Bytes("name", sym.Choose("namelen", 0, 1)), data: sym.Bytes("data", sym.Choose("len", 0, 9))}}
	b := d.bytes()
	p, _, err := psd.Decode(&counter{b: b}, nil)
	sym.Reach("decoded")
	if err == nil {
		sym.Reach("accepted")
		touch(p)
	}
}
