package psdh

import (
	"errors"
	"io"

	"github.com/oov/psd"
	"verif/harness/sym"
)

// slow is a reader that hands out its bytes in a chosen way.
type slow struct {
	b       []byte
	pos     int
	chunk   int  // most bytes per call, 0 = all
	split   int  // no call crosses this position, 0 = none
	withEOF bool // the last bytes come together with io.EOF
	zero    bool // every other call returns nothing
	calls   int
	discs   int
}

func (s *slow) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	s.calls++
	if s.zero && s.calls&1 == 1 {
		return 0, nil
	}
	if s.pos >= len(s.b) {
		return 0, io.EOF
	}
	n := len(s.b) - s.pos
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if s.split > s.pos && s.pos+n > s.split {
		n = s.split - s.pos
	}
	n = copy(p, s.b[s.pos:s.pos+n])
	s.pos += n
	if s.withEOF && s.pos == len(s.b) {
		return n, io.EOF
	}
	return n, nil
}

type seeking struct{ slow }

func (s *seeking) Seek(off int64, whence int) (int64, error) {
	var p int64
	switch whence {
	case 0:
		p = off
	case 1:
		p = int64(s.pos) + off
	default:
		p = int64(len(s.b)) + off
	}
	if p < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = int(p)
	return p, nil
}

type discarding struct{ slow }

func (s *discarding) Discard(n int) (int, error) {
	s.discs++
	if n < 0 {
		return 0, errors.New("negative count")
	}
	if left := len(s.b) - s.pos; n > left {
		s.pos = len(s.b)
		return left, io.EOF
	}
	s.pos += n
	return n, nil
}

type both struct {
	seeking
}

func (s *both) Discard(n int) (int, error) {
	d := discarding{s.slow}
	n, err := d.Discard(n)
	s.pos = d.pos
	return n, err
}

// kinds of readers; position reports how far the reader got.
func reader(kind int, b []byte) (r io.Reader, position func() int) {
	s := slow{b: b}
	switch kind {
	case 0:
		s.chunk = 1
	case 1:
		s.chunk = 3
	case 2:
		s.withEOF = true
	case 3:
		s.chunk, s.withEOF = 1, true
	case 4:
		s.zero = true
	case 5:
		k := &seeking{s}
		return k, func() int { return k.pos }
	case 6:
		s.chunk = 2
		k := &seeking{s}
		return k, func() int { return k.pos }
	case 7:
		k := &discarding{s}
		return k, func() int { return k.pos }
	case 8:
		s.chunk, s.withEOF = 1, true
		k := &both{seeking{s}}
		return k, func() int { return k.pos }
	default:
		s.chunk = kind - 5 // 4, 5, ...
	}
	k := &s
	return k, func() int { return k.pos }
}

type quiet struct{ n int }

func (q *quiet) Printf(format string, v ...interface{}) { q.n++ }
func (q *quiet) Println(v ...interface{})               { q.n++ }

func sameDoc(p, q *psd.PSD) {
	sameConfig(p.Config, q.Config)
	sym.Assert(len(p.Data) == len(q.Data) && sym.Eq(p.Data, q.Data), "merged data")
	g, w := flat(p.Layer), flat(q.Layer)
	sym.Assert(len(g) == len(w), "number of layers")
	for i := range g {
		sameLayer(g[i], w[i])
		samePixels(g[i], w[i])
	}
	sym.Assert(len(p.AdditinalLayerInfo) == len(q.AdditinalLayerInfo), "document blocks")
	for k, v := range q.AdditinalLayerInfo {
		sym.Assert(len(v) == len(p.AdditinalLayerInfo[k]) && sym.Eq(p.AdditinalLayerInfo[k], v), "document block")
	}
	if q.Picker != nil {
		samePicture(p.Picker, q.Picker)
	}
}

func pickDoc() doc {
	psb := sym.Choose("psb", 0, 1) == 1
	d := richDoc(psb, sym.Choose("rle", 0, 1) == 1)
	if sym.Choose("pad", 0, 1) == 1 {
		d.secPad, d.infoPad = 2, 1
		d.cmd = sym.Bytes("cmd", 1)
	}
	return d
}

func compare(b []byte, o *psd.DecodeOptions, mk func() (r io.Reader, position func() int)) {
	base := &counter{b: b}
	q, m, e1 := psd.Decode(base, o)
	r, position := mk()
	p, n, e2 := psd.Decode(r, o)
	sym.Assert((e1 == nil) == (e2 == nil), "the same success")
	if e1 != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	sym.Assert(n == m, "the same byte count")
	sym.Assert(position() == n, "bytes consumed")
	sameDoc(p, q)
}

// Readers: kinds of readers on a whole document followed by other bytes.
func Readers() {
	d := pickDoc()
	b := d.bytes()
	o := &psd.DecodeOptions{SkipLayerImage: sym.Choose("skip", 0, 1) == 1}
	if sym.Choose("trailing", 0, 1) == 1 {
		b = append(b, 0x38, 0, 1)
	}
	compare(b, o, func() (io.Reader, func() int) {
		if sym.Choose("debug", 0, 1) == 1 {
			psd.Debug = &quiet{}
		}
		return reader(sym.Choose("kind", 0, 12), b)
	})
}

// ReaderSplit: one short read at any position of the document.
func ReaderSplit() {
	d := pickDoc()
	b := d.bytes()
	compare(b, nil, func() (io.Reader, func() int) {
		s := &slow{b: b, split: sym.Choose("split", 1, len(b)-1)}
		return s, func() int { return s.pos }
	})
}

// smallDoc has one of everything.
func smallDoc(psb bool) doc {
	d := gray1x1(psb)
	d.res = []rsc{{id: 1005, name: []byte("r"), data: []byte{1}}}
	mask := append(p32(p32(p32(p32(nil, 0), 0), 1), 1), 1, 0, 0, 0)
	d.layers = []lay{{rect: [4]int{0, 0, 1, 1}, mask: mask, ranges: []byte{1, 2}, name: []byte("n"),
		blocks: []blk{{key: []byte("abcd"), data: []byte{5}}, lsct("lsct", 0)},
		chans:  []chn{{id: 0, method: 1, data: []byte{0, 2, 0, 77}}}}}
	if psb {
		d.layers[0].chans[0].data = []byte{0, 0, 0, 2, 0, 77}
	}
	d.global = []byte{1, 2, 3}
	d.hasGlobal = true
	d.blocks = []blk{{key: []byte("wxyz"), data: []byte{8}, pad: []byte{0}}}
	d.secPad = 1
	return d
}

// brokenKinds are the readers whose ends differ: data with io.EOF, seeking, discarding, both.
var brokenKinds = []int{7, 5, 2, 8, 3, 6, 4}

// ReaderCut: documents that end early fail with every reader alike.
func ReaderCut() {
	d := richDoc(sym.Choose("psb", 0, 1) == 1, sym.Choose("rle", 0, 1) == 1)
	b := d.bytes()
	b = b[:sym.Choose("cut", 0, len(b)-1)]
	compare(b, nil, func() (io.Reader, func() int) {
		return reader(brokenKinds[sym.Choose("kind", 0, sym.Param("kinds", 3)-1)], b)
	})
}

// ReaderBroken: documents with one arbitrary byte fail or succeed with every reader alike.
func ReaderBroken() {
	d := smallDoc(sym.Choose("psb", 0, 1) == 1)
	b := d.bytes()
	lo := len(d.config()) - 24
	b[sym.Choose("at", lo, len(b)-1)] = sym.U8("value")
	compare(b, nil, func() (io.Reader, func() int) {
		return reader(brokenKinds[sym.Choose("kind", 0, sym.Param("kinds", 3)-1)], b)
	})
}

// ReaderZip: ZIP compressed pictures from every kind of reader.
func ReaderZip() {
	d := gray1x1(false)
	d.w = 2
	data := sym.Bytes("px", 2)
	d.method = 2 + sym.Choose("prediction", 0, 1)
	d.merged = stored(data, 0)
	l := lay{rect: [4]int{0, 0, 1, 2}}
	l.chans = []chn{{id: 0, method: d.method, data: stored(sym.Bytes("lpx", 2), 0)}, {id: -1, method: 0, data: sym.Bytes("apx", 2)}}
	d.layers = []lay{l}
	b := d.bytes()
	r, _ := reader(sym.Choose("kind", 0, 12), b)
	q, _, e1 := psd.Decode(&counter{b: b}, nil)
	p, _, e2 := psd.Decode(r, nil)
	sym.Reach("decoded")
	sym.Assert(e1 == nil && e2 == nil, "the same success")
	sameDoc(p, q)
}

// ReaderConfig: DecodeConfig from every kind of reader, whole or cut.
func ReaderConfig() {
	d := richDoc(sym.Choose("psb", 0, 1) == 1, false)
	d.cmd = sym.Bytes("cmd", sym.Choose("cmd", 0, 1)*3)
	b := d.config()
	n := len(b)
	switch sym.Choose("end", 0, 2) {
	case 1:
		b = append(b, 9, 9)
	case 2:
		b = b[:sym.Choose("cut", 0, len(b)-1)]
	}
	r, position := reader(sym.Choose("kind", 0, 12), b)
	cfg, read, err := psd.DecodeConfig(r)
	sym.Reach("decoded")
	if len(b) < n {
		sym.Assert(err != nil, "a truncated configuration is an error")
		return
	}
	want, wread, werr := psd.DecodeConfig(&counter{b: b})
	sym.Assert(err == nil && werr == nil && read == wread && read == n && position() == n, "byte count of the configuration")
	sameConfig(cfg, want)
}

// Truncated: every proper prefix of a document is an error, whatever the reader.
func Truncated() {
	d := pickDoc()
	switch sym.Choose("layers", 0, 4) {
	case 1:
		d.layers = nil
	case 2:
		d.layers, d.blocks, d.hasGlobal, d.secPad = nil, nil, false, 0
		d.global = nil
	case 3: // the section ends with the pixels of the layers
		d.blocks, d.hasGlobal, d.secPad, d.global = nil, false, 0, nil
	case 4: // the section ends with the global mask
		d.layers, d.blocks, d.secPad = nil, nil, 0
	}
	b := d.bytes()
	skip := sym.Choose("skip", 0, 2)
	o := &psd.DecodeOptions{SkipMergedImage: skip > 0, SkipLayerImage: skip > 1}
	p, n, err := psd.Decode(&counter{b: b}, o)
	sym.Assert(err == nil && p != nil && (skip > 0 || n == len(b)), "the whole document is decoded")
	kind := brokenKinds[sym.Choose("kind", 0, sym.Param("kinds", 4)-1)]
	r, _ := reader(kind, b[:sym.Choose("cut", 0, sym.Conc(n)-1)])
	_, _, err = psd.Decode(r, o)
	sym.Reach("cut")
	sym.Assert(err != nil, "a truncated document is an error")
}

// TruncatedAny: a document with symbolic section contents; if it decodes and
// consumes n bytes, every prefix of them is an error.
func TruncatedAny() {
	d := gray1x1(false)
	b := d.config()
	n := sym.Choose("n", 4, sym.Param("bytes", 20))
	b = append(b, sym.Bytes("rest", n)...)
	o := &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: sym.Choose("skip", 0, 1) == 1}
	_, read, err := psd.Decode(&counter{b: b}, o)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	_, _, err = psd.Decode(&counter{b: b[:sym.Choose("cut", len(b)-n, sym.Conc(read)-1)]}, o)
	sym.Assert(err != nil, "a truncated document is an error")
}

// Counts: configuration, layer section and merged image report the bytes they take.
func Counts() {
	psb := sym.Choose("psb", 0, 1) == 1
	d := gray1x1(psb)
	d.cmd = sym.Bytes("cmd", sym.Choose("cmd", 0, 1))
	if k := sym.Choose("res", 0, 1) * sym.Param("res", 2); k > 0 {
		d.res = []rsc{{id: int(sym.U16("id")), name: sym.Bytes("rname", k-1), data: sym.Bytes("rdata", k)}}
	}
	for i := sym.Choose("layers", 0, 2); i > 0; i-- {
		l := lay{rect: [4]int{0, 0, 1, 1}, name: sym.Bytes("name", i)}
		if i == 2 {
			l.mask = sym.Bytes("mask", sym.Choose("mask", 0, 1)*18)
			l.chans = []chn{{id: 0, data: sym.Bytes("px", sym.Choose("px", 0, 2))}}
			if n := len(l.chans[0].data); n == 0 {
				l.chans[0].data = nil
			}
		} else {
			l.noExtra = sym.Choose("noextra", 0, 1) == 1
		}
		d.layers = append(d.layers, l)
	}
	d.info = sym.Choose("info", 0, 1) == 1
	d.infoPad = sym.Choose("infopad", 0, 1) * sym.Param("infopad", 3)
	if len(d.layers) == 0 {
		sym.Assume(d.infoPad == 0)
	}
	d.hasGlobal = sym.Choose("hasglobal", 0, 1) == 1
	if d.hasGlobal {
		d.global = sym.Bytes("global", sym.Choose("global", 0, 1)*2)
		if sym.Choose("block", 0, 1) == 1 {
			d.blocks = []blk{{key: []byte("abcd"), data: sym.Bytes("block", sym.Choose("blocklen", 0, 1))}}
		}
	}
	d.secPad = sym.Choose("secpad", 0, 1) * sym.Param("secpad", 3)
	if psb && d.hasGlobal && d.secPad > 0 {
		d.secPad += 4 // rounded up to a multiple of 8
	}
	if len(d.layers) == 0 && !d.info && !d.hasGlobal {
		sym.Assume(d.secPad == 0)
	}
	c0, c1 := len(d.config()), len(d.layerSection())
	b := append(d.bytes(), 7, 7, 7, 7)
	r := &counter{b: b}
	_, n, err := psd.DecodeConfig(r)
	sym.Assert(err == nil && n == c0 && r.pos == c0, "byte count of the configuration")
	o := &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: sym.Choose("skip", 0, 1) == 1}
	r = &counter{b: b}
	_, n, err = psd.Decode(r, o)
	sym.Assert(err == nil || len(d.layers) == 2 && len(d.layers[0].chans[0].data) != 1, "a valid document is decoded")
	sym.Assert(err != nil || n == c0+c1 && r.pos == c0+c1, "byte count of the layer section")
	o.SkipMergedImage = false
	r = &counter{b: b}
	_, n, err = psd.Decode(r, o)
	sym.Reach("decoded")
	sym.Assert(err != nil || n == len(b)-4 && r.pos == n, "byte count of the document")
}

// Concatenated: two documents in one stream are decoded one after the other.
func Concatenated() {
	a := richDoc(sym.Choose("psb", 0, 1) == 1, true)
	c := gray1x1(false)
	c.merged = sym.Bytes("second", 1)
	b := append(a.bytes(), c.bytes()...)
	r, position := reader(sym.Choose("kind", 2, 8), b)
	_, n, err := psd.Decode(r, nil)
	sym.Assert(err == nil && n == len(a.bytes()) && position() == n, "the first document")
	p, m, err := psd.Decode(r, nil)
	sym.Reach("decoded")
	sym.Assert(err == nil && n+m == len(b) && position() == len(b), "the second document")
	sym.Assert(sym.Eq(p.Data, c.merged), "the picture of the second document")
}
