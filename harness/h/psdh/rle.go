package psdh

import (
	"image"

	"github.com/oov/psd"
	"verif/harness/sym"
)

// refRow expands one PackBits row; it is valid when it fills exactly width bytes.
func refRow(row []byte, width int) (out []byte, valid bool) {
	i := 0
	for i < len(row) {
		c := int(row[i])
		i++
		switch {
		case c == 128:
		case c < 128:
			if c+1 > len(row)-i || c+1 > width-len(out) {
				return nil, false
			}
			c = sym.Conc(c)
			out = append(out, row[i:i+c+1]...)
			i += c + 1
		default:
			if i >= len(row) || 257-c > width-len(out) {
				return nil, false
			}
			c = sym.Conc(c)
			for k := 0; k < 257-c; k++ {
				out = append(out, row[i])
			}
			i++
		}
	}
	return out, len(out) == width
}

// PackBits: CompressionMethodRLE.Decode on rows of symbolic bytes against the
// reference, for one CPU or several, all depths, channels and both versions.
func PackBits() {
	depth := []int{8, 1, 16, 32}[sym.Choose("depth", 0, sym.Param("depths", 4)-1)]
	large := sym.Choose("large", 0, 1) == 1
	w := sym.Choose("w", 1, sym.Param("w", 2))
	lines := sym.Choose("lines", 1, sym.Param("lines", 2))
	ch := 1
	if lines%2 == 0 && sym.Choose("channels", 0, 1) == 1 {
		ch = 2
	}
	width := (w*depth + 7) >> 3
	packbits(depth, large, w, lines, ch, width, sym.Param("len", 3))
}

func packbits(depth int, large bool, w, lines, ch, width, max int) {
	var src []byte
	var rows [][]byte
	for i := 0; i < lines; i++ {
		row := sym.Bytes("row", sym.Choose("rowlen", 0, max))
		if large {
			src = p32(src, len(row))
		} else {
			src = p16(src, len(row))
		}
		rows = append(rows, row)
	}
	for _, r := range rows {
		src = append(src, r...)
	}
	var want []byte
	valid := true
	for _, r := range rows {
		o, good := refRow(r, width)
		valid = valid && good
		want = append(want, o...)
	}
	sym.Procs(sym.Choose("procs", 1, sym.Param("procs", 3)))
	// the destination is surrounded by bytes that must not change
	mem := sym.Bytes("mem", width*lines+2)
	keep := append([]byte(nil), mem...)
	dest := mem[1 : 1+width*lines]
	c := &counter{b: append(append([]byte(nil), src...), 1, 2)}
	n, err := psd.CompressionMethodRLE.Decode(dest, c, 0, image.Rect(0, 0, w, lines/ch), depth, ch, large)
	sym.Assert(mem[0] == keep[0] && mem[len(mem)-1] == keep[len(mem)-1], "bytes around the destination")
	if err != nil {
		sym.Reach("rejected")
		sym.Assert(!valid, "exactly filled rows are accepted")
		return
	}
	sym.Reach("accepted")
	sym.Assert(valid, "a row that does not fill its scan line is rejected")
	sym.Assert(n == len(src) && c.pos == len(src), "byte count")
	sym.Assert(sym.Eq(dest, want), "expanded bytes")
}

// PackBitsLong: one row with a long literal or run, the other symbolic.
func PackBitsLong() {
	width := []int{127, 128, 129, 130}[sym.Choose("width", 0, 3)]
	large := sym.Choose("large", 0, 1) == 1
	a := sym.Choose("first", 1, 128)
	var row []byte
	var want []byte
	lit := sym.Choose("literal", 0, 1) == 1
	put := func(n int, lit bool) {
		if lit {
			d := sym.Bytes("lit", n)
			row = append(append(row, byte(n-1)), d...)
			want = append(want, d...)
			return
		}
		v := sym.U8("run")
		row = append(row, byte(257-n), v)
		for i := 0; i < n; i++ {
			want = append(want, v)
		}
	}
	if !lit && a < 2 {
		a = 2
	}
	if a > width {
		a = width
	}
	put(a, lit)
	for rest := width - a; rest > 0; {
		n := rest
		if n > 128 {
			n = 128
		}
		put(n, lit == (n == 1) || n == 1)
		rest -= n
	}
	src := p16(p16(nil, len(row)), len(row))
	if large {
		src = p32(p32(nil, len(row)), len(row))
	}
	src = append(append(src, row...), row...)
	dest := make([]byte, 2*width)
	sym.Procs(sym.Choose("procs", 1, 2))
	n, err := psd.CompressionMethodRLE.Decode(dest, &counter{b: src}, 0, image.Rect(0, 0, width, 2), 8, 1, large)
	sym.Reach("decoded")
	sym.Assert(err == nil && n == len(src), "byte count")
	sym.Assert(sym.Eq(dest, append(append([]byte(nil), want...), want...)), "expanded bytes")
}

// PackBitsSplit: many rows (a literal each) for every CPU count; one row may be broken.
func PackBitsSplit() {
	lines := sym.Choose("lines", 1, sym.Param("lines", 12))
	bad := sym.Choose("bad", -1, lines-1)
	var src, want, data []byte
	for i := 0; i < lines; i++ {
		v := sym.U8("v")
		n := 2
		switch {
		case i == bad && i%3 == 0:
			data = append(data, 254, v) // over-fills
			want = append(want, v, v)
		case i == bad && i%3 == 1:
			data = append(data, 0, v) // under-fills
			want = append(want, v, 0)
		case i == bad:
			data = append(data, 255) // reads beyond its length
			n = 1
			want = append(want, 0, 0)
		case i%2 == 0:
			data = append(data, 255, v)
			want = append(want, v, v)
		default:
			data = append(data, 1, v, v+1)
			n = 3
			want = append(want, v, v+1)
		}
		src = p16(src, n)
	}
	src = append(src, data...)
	sym.Procs(sym.Choose("procs", 1, sym.Param("procs", 8)))
	dest := make([]byte, len(want))
	n, err := psd.CompressionMethodRLE.Decode(dest, &counter{b: src}, 0, image.Rect(0, 0, 2, lines), 8, 1, false)
	sym.Reach("decoded")
	if bad >= 0 {
		sym.Assert(err != nil, "a broken row is an error")
		return
	}
	sym.Assert(err == nil && n == len(src), "byte count")
	sym.Assert(sym.Eq(dest, want), "expanded bytes")
}

// PackBitsCounts: any row lengths (also beyond the data) and any data.
func PackBitsCounts() {
	large := sym.Choose("large", 0, 1) == 1
	lines := sym.Choose("lines", 1, 2)
	var src []byte
	total := 0
	for i := 0; i < lines; i++ {
		n := 0
		if large {
			n = int(sym.U32("count"))
			src = p32(src, n)
		} else {
			n = int(sym.U16("count"))
			src = p16(src, n)
		}
		total += n
	}
	extra := sym.Choose("data", 0, sym.Param("data", 3))
	src = append(src, sym.Bytes("data", extra)...)
	sym.Procs(1)
	dest := make([]byte, lines)
	_, err := psd.CompressionMethodRLE.Decode(dest, &counter{b: src}, 0, image.Rect(0, 0, 1, lines), 8, 1, large)
	sym.Reach("decoded")
	sym.Assert(sym.Implies(err == nil, total <= extra), "rows beyond the data are an error")
}
