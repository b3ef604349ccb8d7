package psdh

import (
	"bytes"

	"github.com/oov/psd"
	"verif/harness/sym"
)

func be16(b []byte, o int) int { return int(b[o])<<8 | int(b[o+1]) }
func be32(b []byte, o int) int {
	return int(b[o])<<24 | int(b[o+1])<<16 | int(b[o+2])<<8 | int(b[o+3])
}

// HeaderExact: every 26-byte header followed by a colour mode section of 0..n bytes
// and an empty resource section.
func HeaderExact() {
	hdr := sym.Bytes("hdr", 26)
	n := sym.Choose("cmd", 0, sym.Param("cmd", 3))
	doc := append([]byte(nil), hdr...)
	doc = append(doc, 0, 0, 0, byte(n))
	data := sym.Bytes("data", n)
	doc = append(doc, data...)
	doc = append(doc, 0, 0, 0, 0)
	cfg, read, err := psd.DecodeConfig(bytes.NewReader(doc))

	ver := be16(hdr, 4)
	ch := be16(hdr, 12)
	h, w := be32(hdr, 14), be32(hdr, 18)
	depth := be16(hdr, 22)
	mode := be16(hdr, 24)
	sig := sym.Eq(hdr[:4], []byte("8BPS"))
	v1, v2 := ver == 1, ver == 2
	dims := func(max int) bool {
		return sym.And(sym.And(w >= 1, w <= max), sym.And(h >= 1, h <= max))
	}
	okVer := sym.Or(sym.And(v1, dims(30000)), sym.And(v2, dims(300000)))
	okDepth := sym.Or(sym.Or(depth == 1, depth == 8), sym.Or(depth == 16, depth == 32))
	valid := sym.And(sym.And(sig, okVer), sym.And(sym.And(ch >= 1, ch <= 56), okDepth))
	if err != nil {
		sym.Reach("rejected")
		sym.Assert(!valid, "a valid header is accepted")
		return
	}
	sym.Reach("accepted")
	sym.Assert(valid, "an invalid header is rejected")
	sym.Assert(read == len(doc), "byte count of the configuration")
	sym.Assert(cfg.Version == ver, "version")
	sym.Assert(cfg.Channels == ch, "channels")
	sym.Assert(cfg.Rect.Min.X == 0 && cfg.Rect.Min.Y == 0 && cfg.Rect.Max.X == w && cfg.Rect.Max.Y == h, "size")
	sym.Assert(cfg.Depth == depth, "depth")
	sym.Assert(int(uint16(cfg.ColorMode)) == mode, "colour mode")
	sym.Assert(len(cfg.ColorModeData) == n, "colour mode data length")
	sym.Assert(sym.Eq(cfg.ColorModeData, data), "colour mode data")
	sym.Assert(len(cfg.Res) == 0, "no resources")
	sym.Assert(cfg.PSB() == (ver == 2), "PSB flag")
}
