package psdh

import (
	"image"
	"image/color"

	"github.com/oov/psd"
	psdColor "github.com/oov/psd/color"
	"verif/harness/sym"
)

func smp16(b []byte, i int) uint16 { return uint16(b[2*i])<<8 | uint16(b[2*i+1]) }
func bits(b []byte, i int) uint32  { return uint32(be32(b, 4*i)) }

// isColor checks that c is exactly the colour of pixel i (of width w for 1 bit data).
func isColor(c color.Color, mode, depth int, ch [][]byte, alpha []byte, i, x, y, w int) {
	switch {
	case depth == 1:
		g, is := c.(psdColor.Gray1)
		sym.Assert(is, "colour type of a bitmap")
		sym.Assert(g.Y == (ch[0][(w+7)/8*y+x/8]>>uint(7-x%8)&1 == 0), "bit of a bitmap")
	case mode == 1 && depth == 8:
		g, is := c.(psdColor.NGrayA)
		sym.Assert(is, "colour type")
		a := byte(255)
		if alpha != nil {
			a = alpha[i]
		}
		sym.Assert(sym.And(g.Y == ch[0][i], g.A == a), "gray sample")
	case mode == 1 && depth == 16:
		g, is := c.(psdColor.NGrayA32)
		sym.Assert(is, "colour type")
		a := uint16(65535)
		if alpha != nil {
			a = smp16(alpha, i)
		}
		sym.Assert(sym.And(g.Y == smp16(ch[0], i), g.A == a), "gray sample")
	case mode == 1:
		g, is := c.(psdColor.NGrayA64)
		sym.Assert(is, "colour type")
		isF(g.Y, ch[0], i, "gray sample")
		isA(g.A, alpha, i)
	case mode == 3 && depth == 8:
		g, is := c.(color.NRGBA)
		sym.Assert(is, "colour type")
		a := byte(255)
		if alpha != nil {
			a = alpha[i]
		}
		sym.Assert(sym.And(sym.And(g.R == ch[0][i], g.G == ch[1][i]), sym.And(g.B == ch[2][i], g.A == a)), "RGB sample")
	case mode == 3 && depth == 16:
		g, is := c.(color.NRGBA64)
		sym.Assert(is, "colour type")
		a := uint16(65535)
		if alpha != nil {
			a = smp16(alpha, i)
		}
		sym.Assert(sym.And(sym.And(g.R == smp16(ch[0], i), g.G == smp16(ch[1], i)), sym.And(g.B == smp16(ch[2], i), g.A == a)), "RGB sample")
	case mode == 3:
		g, is := c.(psdColor.NRGBA128)
		sym.Assert(is, "colour type")
		isF(g.R, ch[0], i, "red sample")
		isF(g.G, ch[1], i, "green sample")
		isF(g.B, ch[2], i, "blue sample")
		isA(g.A, alpha, i)
	case mode == 4 && depth == 8:
		g, is := c.(psdColor.NCMYKA)
		sym.Assert(is, "colour type")
		a := byte(255)
		if alpha != nil {
			a = alpha[i]
		}
		sym.Assert(sym.And(sym.And(g.C == ch[0][i], g.M == ch[1][i]), sym.And(g.Y == ch[2][i], g.K == ch[3][i])), "CMYK sample")
		sym.Assert(g.A == a, "CMYK alpha")
	default:
		g, is := c.(psdColor.NCMYKA80)
		sym.Assert(is, "colour type")
		a := uint16(65535)
		if alpha != nil {
			a = smp16(alpha, i)
		}
		sym.Assert(sym.And(sym.And(g.C == smp16(ch[0], i), g.M == smp16(ch[1], i)), sym.And(g.Y == smp16(ch[2], i), g.K == smp16(ch[3], i))), "CMYK sample")
		sym.Assert(g.A == a, "CMYK alpha")
	}
}

func isF(f float32, b []byte, i int, msg string) { sym.Assert(f32bits(f) == bits(b, i), msg) }
func isA(f float32, b []byte, i int) {
	if b == nil {
		sym.Assert(f == 1, "opaque")
		return
	}
	isF(f, b, i, "alpha sample")
}

// isGray checks the picture of a single channel.
func isGray(c color.Color, depth int, b []byte, i, x, y, w int) {
	switch depth {
	case 1:
		g, is := c.(psdColor.Gray1)
		sym.Assert(is, "colour type of a bitmap channel")
		sym.Assert(g.Y == (b[(w+7)/8*y+x/8]>>uint(7-x%8)&1 == 0), "bit of a bitmap channel")
	case 8:
		g, is := c.(color.Gray)
		sym.Assert(is, "colour type of a channel")
		sym.Assert(g.Y == b[i], "channel sample")
	case 16:
		g, is := c.(color.Gray16)
		sym.Assert(is, "colour type of a channel")
		sym.Assert(g.Y == smp16(b, i), "channel sample")
	default:
		g, is := c.(psdColor.Gray32)
		sym.Assert(is, "colour type of a channel")
		isF(g.Y, b, i, "channel sample")
	}
}

func modeChannels(mode int) int { return []int{1, 1, 1, 3, 4}[mode] }

// symMode is a supported combination of colour mode and depth.
func symMode(d *doc) {
	c := [][2]int{{1, 8}, {1, 16}, {1, 32}, {3, 8}, {3, 16}, {3, 32}, {4, 8}, {4, 16}, {0, 1}}[sym.Choose("mode", 0, 8)]
	d.mode, d.depth = c[0], c[1]
}

func isModel(m color.Model, mode, depth int) bool {
	switch {
	case depth == 1:
		return m == psdColor.Gray1Model
	case mode == 1 && depth == 8:
		return m == psdColor.NGrayAModel
	case mode == 1 && depth == 16:
		return m == psdColor.NGrayA32Model
	case mode == 1:
		return m == psdColor.NGrayA64Model
	case mode == 3 && depth == 8:
		return m == color.NRGBAModel
	case mode == 3 && depth == 16:
		return m == color.NRGBA64Model
	case mode == 3:
		return m == psdColor.NRGBA128Model
	case mode == 4 && depth == 8:
		return m == psdColor.NCMYKAModel
	}
	return m == psdColor.NCMYKA80Model
}

// symPicture adds merged data; alpha is the channel that holds transparency, if any.
func symPicture(d *doc, maxw, maxh int) (alpha int) {
	symMode(d)
	d.w = sym.Choose("w", 1, maxw)
	if d.depth == 1 {
		d.w += 7 * sym.Choose("wide", 0, 1)
	}
	d.h = sym.Choose("h", 1, maxh)
	n := modeChannels(d.mode)
	d.ch = n + sym.Choose("extra", 0, 2)
	alpha = -1
	if d.ch > n && d.mode != 0 {
		alpha = n
	}
	switch sym.Choose("ids", 0, 4) {
	case 1: // no identifier is the transparency of the merged picture
		d.res = []rsc{{id: 0x041d, data: []byte{0, 0, 0, 5, 0, 0, 1, 0}}}
		alpha = -1
	case 2:
		d.res = []rsc{{id: 0x041d, data: []byte{0, 0, 0, 5, 0, 0, 0, 0}}}
	case 3:
		d.res = []rsc{{id: 0x041d, data: []byte{1, 0, 0, 0, 0, 0, 0}}}
		alpha = -1
	case 4:
		d.res = []rsc{{id: 0x041d}}
		alpha = -1
	}
	d.merged = sym.Bytes("px", plane(d.w, d.h, d.depth)*d.ch)
	return
}

// MergedPixels: the merged picture and the picture of each channel.
func MergedPixels() {
	d := doc{psb: sym.Choose("psb", 0, 1) == 1}
	alpha := symPicture(&d, sym.Param("w", 2), sym.Param("h", 2))
	p := ok(d.bytes(), nil)
	sym.Reach("decoded")
	pl := plane(d.w, d.h, d.depth)
	var ch [][]byte
	for i := 0; i < d.ch; i++ {
		ch = append(ch, d.merged[i*pl:(i+1)*pl])
	}
	var a []byte
	if alpha >= 0 {
		a = ch[alpha]
	}
	rect := image.Rect(0, 0, d.w, d.h)
	sym.Assert(sym.Eq(p.Data, d.merged), "merged data")
	sym.Assert(p.Picker.Bounds() == rect && p.Config.Rect == rect, "bounds")
	sym.Assert(isModel(p.Picker.ColorModel(), d.mode, d.depth), "colour model")
	sym.Assert(len(p.Channel) == d.ch, "number of channels")
	for i := 0; i < d.ch; i++ {
		sym.Assert(sym.Eq(p.Channel[i].Data, ch[i]), "channel data")
		sym.Assert(p.Channel[i].Picker.Bounds() == rect, "bounds of a channel")
	}
	for y := 0; y < d.h; y++ {
		for x := 0; x < d.w; x++ {
			isColor(p.Picker.At(x, y), d.mode, d.depth, ch, a, y*d.w+x, x, y, d.w)
			for i := 0; i < d.ch; i++ {
				isGray(p.Channel[i].Picker.At(x, y), d.depth, ch[i], y*d.w+x, x, y, d.w)
			}
		}
	}
}

// MergedSizes: merged pictures of more sizes, wider than one byte of a bitmap.
func MergedSizes() {
	d := doc{}
	symMode(&d)
	d.w = sym.Choose("w", 1, sym.Param("w", 18))
	d.h = sym.Choose("h", 1, sym.Param("h", 4))
	d.ch = modeChannels(d.mode)
	d.merged = sym.Bytes("px", plane(d.w, d.h, d.depth)*d.ch)
	p := ok(d.bytes(), nil)
	sym.Reach("decoded")
	pl := plane(d.w, d.h, d.depth)
	var ch [][]byte
	for i := 0; i < d.ch; i++ {
		ch = append(ch, d.merged[i*pl:(i+1)*pl])
	}
	for y := 0; y < d.h; y++ {
		for x := 0; x < d.w; x++ {
			isColor(p.Picker.At(x, y), d.mode, d.depth, ch, nil, y*d.w+x, x, y, d.w)
			for i := 0; i < d.ch; i++ {
				isGray(p.Channel[i].Picker.At(x, y), d.depth, ch[i], y*d.w+x, x, y, d.w)
			}
		}
	}
}

// LayerPixels: the picture of a layer and of each of its channels, in any
// order of the channels, with masks and missing channels.
func LayerPixels() {
	d := doc{psb: sym.Choose("psb", 0, 1) == 1, w: 1, h: 1}
	symMode(&d)
	if d.depth == 1 {
		d.mode, d.depth = 1, 8
		sym.Assume(false)
	}
	n := modeChannels(d.mode)
	d.ch = n
	d.merged = make([]byte, n*d.depth/8)
	w, h := sym.Choose("w", 0, sym.Param("w", 2)), sym.Choose("h", 1, sym.Param("h", 2))
	ox := []int{0, -5, 1000}[sym.Choose("x", 0, 2)]
	oy := []int{0, 70000, -1}[sym.Choose("y", 0, 2)]
	rect := [4]int{oy, ox, oy + h, ox + w}
	mrect := [4]int{-3, oy, -2, oy + 2}
	var ids []int
	for i := 0; i < n; i++ {
		ids = append(ids, i)
	}
	alpha := sym.Choose("alpha", 0, 3)
	switch alpha {
	case 1:
		ids = append([]int{-1}, ids...)
	case 2:
		ids = append(ids, -1)
	case 3:
		ids = append(append([]int{0, -1}, ids[1:]...), -2)
	}
	missing := -1
	switch sym.Choose("order", 0, 2) {
	case 1:
		for i, j := 0, len(ids)-1; i < j; i, j = i+1, j-1 {
			ids[i], ids[j] = ids[j], ids[i]
		}
	case 2:
		missing = sym.Choose("missing", 0, n-1)
		var k []int
		for _, v := range ids {
			if v != missing {
				k = append(k, v)
			}
		}
		ids = append(k, 9)
	}
	pl := w * h * d.depth / 8
	l := lay{rect: rect, opacity: 1}
	if alpha == 3 {
		for _, v := range mrect {
			l.mask = p32(l.mask, v)
		}
		l.mask = append(l.mask, 0, 0, 0, 0)
	}
	data := map[int][]byte{}
	for _, id := range ids {
		k := pl
		if id == -2 {
			k = 2 * d.depth / 8
		}
		data[id] = sym.Bytes("px", k)
		l.chans = append(l.chans, chn{id: id, data: data[id]})
	}
	d.layers = []lay{l, {rect: [4]int{0, 0, 1, 1}, chans: []chn{{id: 0, data: make([]byte, d.depth/8)}}}}
	p := ok(d.bytes(), nil)
	sym.Reach("decoded")
	g := &p.Layer[0]
	var ch [][]byte
	for i := 0; i < n; i++ {
		if i == missing {
			ch = append(ch, make([]byte, pl))
		} else {
			ch = append(ch, data[i])
		}
	}
	var a []byte
	if alpha > 0 {
		a = data[-1]
		if pl == 0 {
			a = []byte{}
		}
	}
	sym.Assert(g.Picker.Bounds() == mkRect(rect), "bounds of the layer")
	sym.Assert(isModel(g.Picker.ColorModel(), d.mode, d.depth), "colour model")
	sym.Assert(len(g.Channel) == len(ids), "number of channels")
	for _, id := range ids {
		c := g.Channel[id]
		r := mkRect(rect)
		if id == -2 {
			r = mkRect(mrect)
			for x := 0; x < 2; x++ {
				isGray(c.Picker.At(r.Min.X+x, r.Min.Y), d.depth, data[id], x, x, 0, 2)
			}
		}
		sym.Assert(c.Picker.Bounds() == r, "bounds of a channel")
		sym.Assert(len(c.Data) == len(data[id]) && sym.Eq(c.Data, data[id]), "channel data")
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			isColor(g.Picker.At(ox+x, oy+y), d.mode, d.depth, ch, a, y*w+x, x, y, w)
			for _, id := range ids {
				if id != -2 {
					isGray(g.Channel[id].Picker.At(ox+x, oy+y), d.depth, data[id], y*w+x, x, y, w)
				}
			}
		}
	}
	sym.Assert(p.Layer[1].Picker.Bounds() == image.Rect(0, 0, 1, 1), "the next layer")
}

// LayerPackBits: layer channels compressed with PackBits or ZIP have the same pictures.
func LayerPackBits() {
	d := doc{psb: sym.Choose("psb", 0, 1) == 1, w: 1, h: 1, ch: 1, mode: 1}
	d.depth = []int{8, 16, 32}[sym.Choose("depth", 0, 2)]
	d.merged = make([]byte, d.depth/8)
	w, h := sym.Choose("w", 1, 2), sym.Choose("h", 1, 3)
	var chs []chn
	var want [][]byte
	for i := 0; i < 2; i++ {
		data := sym.Bytes("px", w*h*d.depth/8)
		c := chn{id: -i, method: sym.Choose("method", 0, 3)}
		c.data, data = compress(d.psb, c.method, data, w, h, d.depth)
		want = append(want, data)
		chs = append(chs, c)
	}
	d.layers = []lay{{rect: [4]int{1, 2, 1 + h, 2 + w}, chans: chs}}
	p := ok(d.bytes(), nil)
	sym.Reach("decoded")
	for i := 0; i < 2; i++ {
		sym.Assert(sym.Eq(p.Layer[0].Channel[-i].Data, want[i]), "channel data")
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			isColor(p.Layer[0].Picker.At(x+2, y+1), 1, d.depth, want, want[1], y*w+x, x, y, w)
		}
	}
}

// compress stores data by one of the four methods (rows as literals) and
// returns the stored bytes and the samples they denote.
func compress(psb bool, method int, data []byte, w, h, depth int) (stream, want []byte) {
	switch method {
	case 0:
		return data, data
	case 1:
		row := len(data) / h
		for y := 0; y < h; y++ {
			if psb {
				stream = p32(stream, row+1)
			} else {
				stream = p16(stream, row+1)
			}
		}
		for y := 0; y < h; y++ {
			stream = append(stream, byte(row-1))
			stream = append(stream, data[y*row:(y+1)*row]...)
		}
		return stream, data
	case 2:
		return stored(data, 0), data
	}
	return stored(data, 0), refDelta(data, w, depth)
}

// MergedMethods: merged pictures of several channels by every method.
func MergedMethods() {
	d := doc{psb: sym.Choose("psb", 0, 1) == 1}
	c := [][2]int{{1, 8}, {3, 8}, {3, 16}, {1, 32}, {4, 8}, {0, 1}}[sym.Choose("mode", 0, 5)]
	d.mode, d.depth = c[0], c[1]
	d.w, d.h = sym.Choose("w", 1, 2), sym.Choose("h", 1, 2)
	if d.depth == 1 {
		d.w += 8
	}
	d.ch = modeChannels(d.mode)
	d.method = sym.Choose("method", 0, 3)
	if d.depth == 1 {
		sym.Assume(d.method != 3)
	}
	sym.Procs(1 + sym.Choose("procs", 0, 1))
	data := sym.Bytes("px", plane(d.w, d.h, d.depth)*d.ch)
	var want []byte
	d.merged, want = compress(d.psb, d.method, data, d.w, d.h*d.ch, d.depth)
	p, n, err := psd.Decode(&counter{b: d.bytes()}, nil)
	sym.Reach("decoded")
	sym.Assert(err == nil && n == len(d.bytes()), "byte count of the document")
	sym.Assert(sym.Eq(p.Data, want), "merged data")
	pl := plane(d.w, d.h, d.depth)
	var ch [][]byte
	for i := 0; i < d.ch; i++ {
		ch = append(ch, want[i*pl:(i+1)*pl])
	}
	for y := 0; y < d.h; y++ {
		for x := 0; x < d.w; x++ {
			isColor(p.Picker.At(x, y), d.mode, d.depth, ch, nil, y*d.w+x, x, y, d.w)
		}
	}
}

// IndexedPixels: palette, transparency index and pixels of an indexed document.
func IndexedPixels() {
	d := doc{mode: 2, depth: 8, w: sym.Choose("w", 1, 2), h: sym.Choose("h", 1, 2)}
	d.ch = sym.Choose("ch", 1, 2)
	d.cmd = sym.Bytes("pal", 768)
	trans := -1
	switch t := sym.Choose("trans", 0, 3); t {
	case 0:
	case 1:
		trans = int(sym.U16("index"))
		d.res = []rsc{{id: 0x0417, data: p16(nil, trans)}}
	case 2:
		d.res = []rsc{{id: 0x0417, data: sym.Bytes("short", 1)}}
	case 3:
		trans = int(sym.U16("index"))
		d.res = []rsc{{id: 0x0416, data: []byte{0, 3}}, {id: 0x0417, data: append(p16(nil, trans), 7)}}
	}
	d.merged = sym.Bytes("px", d.w*d.h*d.ch)
	p := ok(d.bytes(), nil)
	sym.Reach("decoded")
	pal := p.Config.Palette()
	sym.Assert(len(pal) == 256, "size of the palette")
	for i, c := range pal {
		isEntry(c, d.cmd, i, trans)
	}
	m, is := p.Picker.ColorModel().(color.Palette)
	sym.Assert(is && len(m) == 256, "colour model")
	isEntry(m[255], d.cmd, 255, trans)
	isEntry(m[0], d.cmd, 0, trans)
	sym.Assert(p.Picker.Bounds() == image.Rect(0, 0, d.w, d.h), "bounds")
	for y := 0; y < d.h; y++ {
		for x := 0; x < d.w; x++ {
			c := p.Picker.At(x, y)
			i := d.merged[y*d.w+x]
			g, is := c.(color.NRGBA)
			sym.Assert(is, "colour type")
			a := byte(sym.Ite(int(i) == trans, 0, 255))
			sym.Assert(g.A == a, "transparency of a pixel")
			sym.Assert(sym.And(sym.And(g.R == d.cmd[i], g.G == d.cmd[256+int(i)]), g.B == d.cmd[512+int(i)]), "palette entry of a pixel")
			_, ci := d.merged, i
			isGray(p.Channel[0].Picker.At(x, y), 8, d.merged, y*d.w+x, x, y, d.w)
			_ = ci
		}
	}
}

func isEntry(c color.Color, cmd []byte, i, trans int) {
	g, is := c.(color.NRGBA)
	sym.Assert(is, "type of a palette entry")
	sym.Assert(sym.And(sym.And(g.R == cmd[i], g.G == cmd[256+i]), sym.And(g.B == cmd[512+i], int(g.A) == sym.Ite(i == trans, 0, 255))), "palette entry")
}

// PaletteModes: only indexed documents with a whole palette have one.
func PaletteModes() {
	n := []int{0, 1, 767, 768, 769, 770, 771}[sym.Choose("len", 0, 6)]
	cfg := psd.Config{ColorMode: psd.ColorMode(sym.U16("mode")), ColorModeData: sym.Bytes("pal", n)}
	pal := cfg.Palette()
	sym.Reach("called")
	has := sym.And(cfg.ColorMode == 2, n >= 768)
	sym.Assert((pal != nil) == has, "a palette exactly for indexed documents")
}
