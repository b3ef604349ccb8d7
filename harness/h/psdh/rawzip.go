package psdh

import (
	"image"

	"github.com/oov/psd"
	"verif/harness/sym"
)

// RawData: raw data is copied, a short stream is an error.
func RawData() {
	n := sym.Choose("n", 0, sym.Param("n", 9))
	have := sym.Choose("have", 0, n+2)
	src := sym.Bytes("src", have)
	mem := sym.Bytes("mem", n+2)
	keep := append([]byte(nil), mem...)
	c := &counter{b: src}
	hint := int64(sym.Range("hint", 0, 20))
	got, err := psd.CompressionMethodRaw.Decode(mem[1:n+1], c, hint, image.Rect(0, 0, n, 1), 8, 1, false)
	sym.Reach("decoded")
	sym.Assert((err == nil) == (have >= n), "success exactly when the stream is long enough")
	sym.Assert(mem[0] == keep[0] && mem[n+1] == keep[n+1], "bytes around the destination")
	if err == nil {
		sym.Assert(got == n && c.pos == n, "byte count")
		sym.Assert(sym.Eq(mem[1:n+1], src[:n]), "copied bytes")
	}
}

// adler is the checksum of a short block (no overflow).
func adler(b []byte) uint32 {
	s1, s2 := uint32(1), uint32(0)
	for _, v := range b {
		s1 += uint32(v)
		s2 += s1
	}
	return (s2%65521)<<16 | s1%65521
}

// stored wraps data in a zlib stream of stored blocks, split at the given place.
func stored(data []byte, split int) []byte {
	b := []byte{0x78, 0x01}
	put := func(d []byte, last byte) {
		b = append(b, last, byte(len(d)), byte(len(d)>>8), ^byte(len(d)), ^byte(len(d)>>8))
		b = append(b, d...)
	}
	if split > 0 && split < len(data) {
		put(data[:split], 0)
		data2 := data[split:]
		put(data2, 1)
	} else {
		put(data, 1)
	}
	return p32(b, int(adler(data)))
}

func refDelta(data []byte, w, depth int) []byte {
	out := append([]byte(nil), data...)
	step := depth / 8
	row := w * step
	for y := 0; y*row < len(data); y++ {
		var acc uint32
		for x := 0; x < w; x++ {
			o := y*row + x*step
			var v uint32
			for k := 0; k < step; k++ {
				v = v<<8 | uint32(data[o+k])
			}
			acc += v
			for k := 0; k < step; k++ {
				out[o+k] = byte(acc >> uint(8*(step-1-k)))
			}
		}
	}
	return out
}

// Zip: stored zlib streams with any contents, with and without prediction.
func Zip() {
	depth := []int{8, 16, 32}[sym.Choose("depth", 0, 2)]
	w := sym.Choose("w", 1, sym.Param("w", 3))
	h := sym.Choose("h", 1, 2)
	ch := sym.Choose("ch", 1, 2)
	n := w * h * ch * depth / 8
	data := sym.Bytes("data", n)
	src := stored(data, sym.Choose("split", 0, 1)*(n/2))
	zlen := len(src)
	method := psd.CompressionMethodZIPWithoutPrediction
	want := data
	if sym.Choose("prediction", 0, 1) == 1 {
		method = psd.CompressionMethodZIPWithPrediction
		want = refDelta(data, w, depth)
	}
	src = append(src, 1, 2, 3)
	hint := []int{0, zlen, zlen + 2}[sym.Choose("hint", 0, 2)]
	mem := make([]byte, n+2)
	mem[0], mem[n+1] = 0xa5, 0x5a
	dest := mem[1 : n+1]
	c := &counter{b: src}
	got, err := method.Decode(dest, c, int64(hint), image.Rect(0, 0, w, h), depth, ch, false)
	sym.Reach("decoded")
	sym.Assert(err == nil, "a valid stream is inflated")
	sym.Assert(got == c.pos, "byte count")
	if hint > 0 {
		sym.Assert(c.pos <= hint, "no byte beyond the size hint is read")
	}
	sym.Assert(sym.Eq(dest, want), "inflated bytes")
	sym.Assert(mem[0] == 0xa5 && mem[n+1] == 0x5a, "bytes around the destination")
}

// ZipShort: a stream that ends early, is limited by the hint or holds too few bytes is an error.
func ZipShort() {
	n := sym.Choose("n", 1, 3)
	have := sym.Choose("have", 0, n)
	data := sym.Bytes("data", have)
	src := stored(data, 0)
	full := len(src)
	method := psd.CompressionMethodZIPWithoutPrediction
	if sym.Choose("prediction", 0, 1) == 1 {
		method = psd.CompressionMethodZIPWithPrediction
	}
	hint := 0
	body := full - 4
	switch sym.Choose("cut", 0, 2) {
	case 0:
		src = src[:sym.Choose("end", 0, body)]
	case 1:
		hint = sym.Choose("hint", 1, body)
		src = append(src, 1, 2, 3, 4, 5, 6, 7, 8)
	case 2:
	}
	short := have < n || len(src) < body || (hint > 0 && hint < body)
	dest := make([]byte, n)
	_, err := method.Decode(dest, &counter{b: src}, int64(hint), image.Rect(0, 0, n, 1), 8, 1, false)
	sym.Reach("decoded")
	if short {
		sym.Assert(err != nil, "a short stream is an error")
	} else if err == nil {
		sym.Reach("whole")
	}
}

// ZipAny: arbitrary bytes behind the zlib header never panic.
func ZipAny() {
	n := sym.Choose("n", 0, sym.Param("bytes", 2))
	src := append([]byte{0x78, 0x01}, sym.Bytes("src", n)...)
	method := psd.CompressionMethod(2 + sym.Choose("prediction", 0, 1))
	dest := make([]byte, 2)
	_, err := method.Decode(dest, &counter{b: src}, int64(sym.Choose("hint", 0, 1)*4), image.Rect(0, 0, 1, 2), 8, 1, false)
	sym.Reach("decoded")
	_ = err
}

// Methods: any other compression method is an error and reads nothing.
func Methods() {
	m := int16(sym.U16("method"))
	sym.Assume(m < 0 || m > 3)
	dest := sym.Bytes("dest", 3)
	keep := append([]byte(nil), dest...)
	c := &counter{b: sym.Bytes("src", 8)}
	n, err := psd.CompressionMethod(m).Decode(dest, c, 0, image.Rect(0, 0, 3, 1), 8, 1, sym.Bool("large"))
	sym.Reach("decoded")
	sym.Assert(err != nil, "an unknown method is rejected")
	sym.Assert(n == 0 && c.pos == 0, "nothing is read")
	sym.Assert(sym.Eq(dest, keep), "the destination is unchanged")
}

// ZipChecksum: a stream whose header or checksum is wrong is an error.
func ZipChecksum() {
	n := sym.Choose("n", 1, 4)
	data := sym.Bytes("data", n)
	src := stored(data, 0)
	good := true
	if sym.Choose("header", 0, 1) == 1 {
		h := sym.Bytes("header", 2)
		cm, fl := int(h[0]), int(h[1])
		good = sym.And(sym.And(cm&15 == 8, cm>>4 <= 7), sym.And((cm<<8|fl)%31 == 0, fl&0x20 == 0))
		copy(src, h)
	} else {
		sum := sym.Bytes("sum", 4)
		good = sym.Eq(sum, src[len(src)-4:])
		copy(src[len(src)-4:], sum)
	}
	method := psd.CompressionMethod(2 + sym.Choose("prediction", 0, 1))
	dest := make([]byte, n)
	_, err := method.Decode(dest, &counter{b: src}, int64(sym.Choose("hint", 0, 1)*len(src)), image.Rect(0, 0, n, 1), 8, 1, false)
	if err != nil {
		sym.Reach("rejected")
	} else {
		sym.Reach("accepted")
	}
	sym.Assert((err == nil) == good, "the stream is accepted when its header and checksum are right")
}
