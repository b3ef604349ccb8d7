From b7ed6ff1966538fdca7e41c7e8dedab582a9408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 01/47] fix: negative infinite and NaN float components are
 black

---
 color/color.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/color/color.go b/color/color.go
index 95f762e..b5cb504 100644
--- a/color/color.go
+++ b/color/color.go
@@ -6,6 +6,9 @@ import (
 )
 
 func fromFloat(v, gamma float64) uint32 {
+	if !(v > 0) {
+		return 0
+	}
 	x := math.Pow(v, gamma)
 	switch {
 	case x >= 1:
-- 
2.43.0


From 00716769ddeff8f921b15b6fc16e67c0d4827feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 02/47] fix: NGrayA, NGrayA32 and NCMYKA80 models recognise
 their own colours

---
 color/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/color/color.go b/color/color.go
index b5cb504..5b59ce6 100644
--- a/color/color.go
+++ b/color/color.go
@@ -88,7 +88,7 @@ func (c NGrayA) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayAModel(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -123,7 +123,7 @@ func (c NGrayA32) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayA32Model(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA32); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -286,7 +286,7 @@ func (c NCMYKA80) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nCMYKA80Model(c color.Color) color.Color {
-	if _, ok := c.(NCMYKA); ok {
+	if _, ok := c.(NCMYKA80); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
-- 
2.43.0


From 3367126c2fbd5e1595d9ef2f1b93b572d1c851a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 03/47] fix: NCMYKAModel divides by alpha before the ink
 separation and accepts zero alpha

---
 color/color.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/color/color.go b/color/color.go
index 5b59ce6..359d897 100644
--- a/color/color.go
+++ b/color/color.go
@@ -253,11 +253,15 @@ func nCMYKAModel(c color.Color) color.Color {
 		return c
 	}
 	r, g, b, a := c.RGBA()
+	if a == 0 {
+		return NCMYKA{255, 255, 255, 255, 0}
+	}
+	if a != 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	cc, mm, yy, kk := color.RGBToCMYK(uint8(r>>8), uint8(g>>8), uint8(b>>8))
-	cc = uint8((uint32(cc) * 0xffff) / a)
-	mm = uint8((uint32(mm) * 0xffff) / a)
-	yy = uint8((uint32(yy) * 0xffff) / a)
-	kk = uint8((uint32(kk) * 0xffff) / a)
 	return NCMYKA{255 - cc, 255 - mm, 255 - yy, 255 - kk, uint8(a >> 8)}
 }
 
-- 
2.43.0


From 3dbffe5ac6a6f035e107fea902c63826e52b92e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 04/47] fix: NCMYKA80Model keeps black and divides by alpha
 before the ink separation

---
 color/color.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/color/color.go b/color/color.go
index 359d897..918febf 100644
--- a/color/color.go
+++ b/color/color.go
@@ -297,6 +297,11 @@ func nCMYKA80Model(c color.Color) color.Color {
 	if a == 0 {
 		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, 0}
 	}
+	if a != 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	w := r
 	if w < g {
 		w = g
@@ -305,19 +310,12 @@ func nCMYKA80Model(c color.Color) color.Color {
 		w = b
 	}
 	if w == 0 {
-		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, uint16(a)}
+		return NCMYKA80{0xffff, 0xffff, 0xffff, 0, uint16(a)}
 	}
 	cc := (w - r) * 0xffff / w
 	mm := (w - g) * 0xffff / w
 	yy := (w - b) * 0xffff / w
 	kk := 0xffff - w
-	if a == 0xffff {
-		return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), 0xffff}
-	}
-	cc = (cc * 0xffff) / a
-	mm = (mm * 0xffff) / a
-	yy = (yy * 0xffff) / a
-	kk = (kk * 0xffff) / a
 	return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), uint16(a)}
 }
 
-- 
2.43.0


From eaae79a0492637de25b5b9e213d3b78015a1974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:16 +0000
Subject: [PATCH 05/47] fix: read alignment padding completely from readers
 that return short reads

---
 util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index cddf128..63f5699 100644
--- a/util.go
+++ b/util.go
@@ -97,7 +97,7 @@ func readUnicodeString(b []byte) string {
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
 	if l&1 != 0 {
 		var b [1]byte
-		return r.Read(b[:])
+		return io.ReadFull(r, b[:])
 	}
 	return 0, nil
 }
@@ -105,7 +105,7 @@ func adjustAlign2(r io.Reader, l int) (read int, err error) {
 func adjustAlign4(r io.Reader, l int) (read int, err error) {
 	if gap := l & 3; gap > 0 {
 		var b [4]byte
-		return r.Read(b[:4-gap])
+		return io.ReadFull(r, b[:4-gap])
 	}
 	return 0, nil
 }
-- 
2.43.0


From 972dc6ba46a78089fa6fbb28126c3ce560e913d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:17 +0000
Subject: [PATCH 06/47] fix: discard neither seeks backwards nor accepts a
 truncated stream

---
 util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 63f5699..9c4713e 100644
--- a/util.go
+++ b/util.go
@@ -114,11 +114,19 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	type discarder interface {
 		Discard(n int) (discarded int, err error)
 	}
+	if skip <= 0 {
+		return 0, nil
+	}
 	switch rr := r.(type) {
 	case discarder:
 		return rr.Discard(skip)
 	case io.Seeker:
-		if _, err = rr.Seek(int64(skip), 1); err != nil {
+		// Seeking beyond the end is not an error, so read the last byte to detect it.
+		if _, err = rr.Seek(int64(skip-1), 1); err != nil {
+			return 0, err
+		}
+		var b [1]byte
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		return skip, nil
-- 
2.43.0


From 0ee396b71b8d1c7794532ac27c30ba804d93cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:17 +0000
Subject: [PATCH 07/47] fix: the real mask rectangle has signed coordinates

---
 layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 7771a92..3239748 100644
--- a/layer.go
+++ b/layer.go
@@ -791,8 +791,8 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	read += l
 	readMask += l
 	layer.Mask.RealRect = image.Rect(
-		int(readUint32(b, 4)), int(readUint32(b, 0)),
-		int(readUint32(b, 12)), int(readUint32(b, 8)),
+		int(int32(readUint32(b, 4))), int(int32(readUint32(b, 0))),
+		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
 	return read, nil
-- 
2.43.0


From efcbb5956ac30d1445c61c421ed176ee065824e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 08/47] fix: skip the padding that follows the real mask
 rectangle

---
 layer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/layer.go b/layer.go
index 3239748..dd92c5d 100644
--- a/layer.go
+++ b/layer.go
@@ -795,6 +795,15 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
+	if maskLen-readMask > 0 {
+		// padding
+		l, err = discard(r, maskLen-readMask)
+		read += l
+		if err != nil {
+			return read, err
+		}
+	}
+
 	return read, nil
 }
 
-- 
2.43.0


From 060af7b40ee7465c150e35e57ee683cd066ce8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 09/47] fix: an unclosed folder is an error instead of silently
 losing layers

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index dd92c5d..2778b0e 100644
--- a/layer.go
+++ b/layer.go
@@ -219,6 +219,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 			n = append(n, l)
 		}
 	}
+	if len(stack) != 0 {
+		return nil, errors.New("psd: layer tree structure is broken(unclosed folder)")
+	}
 	return n, nil
 }
 
-- 
2.43.0


From 7b140d4f3cffbc78853238a92cd4090af0a3561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 10/47] fix: the scan line width of PackBits data counts bytes,
 not pixels

---
 compress.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/compress.go b/compress.go
index 5482877..f5eda1b 100644
--- a/compress.go
+++ b/compress.go
@@ -32,12 +32,8 @@ func (cm CompressionMethod) Decode(dest []byte, r io.Reader, sizeHint int64, rec
 	case CompressionMethodRaw:
 		return io.ReadFull(r, dest)
 	case CompressionMethodRLE:
-		var width int
-		if depth == 1 {
-			width = (rect.Dx() + 7) >> 3
-		} else {
-			width = rect.Dx()
-		}
+		// bytes per scan line
+		width := (rect.Dx()*depth + 7) >> 3
 		return decodePackBits(dest, r, width, rect.Dy()*channels, large)
 	case CompressionMethodZIPWithoutPrediction:
 		return decodeZLIB(dest, r, sizeHint)
-- 
2.43.0


From 9b77ad7b38a160d11f59f9b9991c892248e0c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 11/47] fix: PackBits rows that over-fill or under-fill their
 scan line are errors for every CPU count

---
 compress.go         | 36 ++++++++++++++++++++++++++++++++++++
 compress_other.go   |  6 +++---
 compress_wasm_js.go |  2 +-
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/compress.go b/compress.go
index f5eda1b..24543a0 100644
--- a/compress.go
+++ b/compress.go
@@ -47,6 +47,42 @@ func (cm CompressionMethod) Decode(dest []byte, r io.Reader, sizeHint int64, rec
 	return 0, errors.New("psd: compression method " + itoa(int(cm)) + " is not implemented")
 }
 
+// decodePackBitsLines decodes rows that have to fill exactly width bytes each.
+func decodePackBitsLines(dest []byte, buf []byte, width int, lens []int) error {
+	for i, ln := range lens {
+		if len(dest) < width {
+			return errBrokenPackBits
+		}
+		if err := decodePackBitsPerLine(dest[:width:width], buf[:ln], lens[i:i+1]); err != nil {
+			return err
+		}
+		if packBitsLen(buf[:ln]) != width {
+			return errBrokenPackBits
+		}
+		dest = dest[width:]
+		buf = buf[ln:]
+	}
+	return nil
+}
+
+// packBitsLen returns the number of bytes the row expands to.
+func packBitsLen(row []byte) int {
+	n := 0
+	for i := 0; i < len(row); {
+		switch {
+		case row[i] <= 0x7f:
+			n += int(row[i]) + 1
+			i += int(row[i]) + 2
+		case row[i] == 0x80:
+			i++
+		default:
+			n += int(-row[i]) + 1
+			i += 2
+		}
+	}
+	return n
+}
+
 // decodeZLIB decodes compressed data by zlib.
 // You can pass 0 to length if unknown,
 // but in that case may read more data than necessary from r.
diff --git a/compress_other.go b/compress_other.go
index 9b7e084..1139b4e 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -50,7 +50,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		n--
 	}
 	if n == 1 {
-		err = decodePackBitsPerLine(dest, buf, lens)
+		err = decodePackBitsLines(dest, buf, width, lens)
 		return
 	}
 
@@ -62,13 +62,13 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	for i := 1; i < n; i++ {
 		go func(index int, dest []byte, buf []byte, lens []int) {
 			defer wg.Done()
-			errs[index] = decodePackBitsPerLine(dest, buf, lens)
+			errs[index] = decodePackBitsLines(dest, buf, width, lens)
 		}(i-1, dest[ofs*width:(ofs+step)*width], buf[offsets[ofs]:offsets[ofs+step]], lens[ofs:ofs+step])
 		ofs += step
 	}
 	go func() {
 		defer wg.Done()
-		errs[n-1] = decodePackBitsPerLine(dest[ofs*width:], buf[offsets[ofs]:], lens[ofs:])
+		errs[n-1] = decodePackBitsLines(dest[ofs*width:], buf[offsets[ofs]:], width, lens[ofs:])
 	}()
 	wg.Wait()
 	for i := 0; i < n; i++ {
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index 8009a24..d22239b 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -43,7 +43,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	}
 	read += l
 
-	err = decodePackBitsPerLine(dest, buf, lens)
+	err = decodePackBitsLines(dest, buf, width, lens)
 	return
 }
 
-- 
2.43.0


From e6b04110493451dc7c30332eda0619d08441c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 12/47] fix: undo the prediction of 8 bit ZIP data

---
 compress.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/compress.go b/compress.go
index 24543a0..05bc292 100644
--- a/compress.go
+++ b/compress.go
@@ -108,6 +108,16 @@ func decodeZLIB(dest []byte, r io.Reader, length int64) (read int, err error) {
 
 func decodeDelta(buf []byte, width int, depth int) {
 	switch depth {
+	case 8:
+		var d uint8
+		for i := 0; i < len(buf); {
+			d = 0
+			for j := 0; j < width; j++ {
+				d += buf[i]
+				buf[i] = d
+				i++
+			}
+		}
 	case 16:
 		var d uint16
 		for i := 0; i < len(buf); {
-- 
2.43.0


From 5e598333da55a993f7975f6bfa565915f0162941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 13/47] fix: indexed images with a short palette or
 transparency index do not panic

---
 psd.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/psd.go b/psd.go
index 4e66663..1b7253a 100644
--- a/psd.go
+++ b/psd.go
@@ -84,7 +84,7 @@ func (cfg *Config) PSB() bool {
 
 // Palette returns Palette if any.
 func (cfg *Config) Palette() color.Palette {
-	if cfg.ColorMode != ColorModeIndexed {
+	if cfg.ColorMode != ColorModeIndexed || len(cfg.ColorModeData) < 768 {
 		return nil
 	}
 
@@ -92,7 +92,7 @@ func (cfg *Config) Palette() color.Palette {
 	// 0x0417(1046) | (Photoshop 6.0) Transparency Index.
 	//                2 bytes for the index of transparent color, if any.
 	transparentColorIndex := -1
-	if r, ok := cfg.Res[0x0417]; ok {
+	if r, ok := cfg.Res[0x0417]; ok && len(r.Data) >= 2 {
 		transparentColorIndex = int(readUint16(r.Data, 0))
 	}
 	pal := make(color.Palette, len(cfg.ColorModeData)/3)
@@ -115,7 +115,11 @@ func (cfg *Config) makePicker() (picker, error) {
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
-		pk = &pickerPalette{Palette: cfg.Palette()}
+		pal := cfg.Palette()
+		if pal == nil {
+			return nil, errors.New("psd: indexed image has no palette")
+		}
+		pk = &pickerPalette{Palette: pal}
 	case ColorModeBitmap:
 		pk = &pickerGray1{}
 	default:
-- 
2.43.0


From 8ab86f9d13c64138af4e8b1a6a496532cae33738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 14/47] fix: a document with fewer channels than its color mode
 needs is an error

---
 psd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psd.go b/psd.go
index 1b7253a..63b0aca 100644
--- a/psd.go
+++ b/psd.go
@@ -112,6 +112,9 @@ func (cfg *Config) Palette() color.Palette {
 }
 
 func (cfg *Config) makePicker() (picker, error) {
+	if cfg.Channels < cfg.ColorMode.Channels() {
+		return nil, errors.New("psd: color mode " + itoa(int(cfg.ColorMode)) + " needs more than " + itoa(cfg.Channels) + " channels")
+	}
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
-- 
2.43.0


From 554e6fe17fdcfbcdf6a8c1555895a14766588e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 15/47] fix: alpha identifiers of odd length do not panic

---
 imageres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imageres.go b/imageres.go
index af5f22a..0acb72e 100644
--- a/imageres.go
+++ b/imageres.go
@@ -108,7 +108,7 @@ func hasAlphaID0(Res map[int]ImageResource) bool {
 	if !ok {
 		return true
 	}
-	for i, ln := 0, len(aid.Data); i < ln; i += 4 {
+	for i, ln := 0, len(aid.Data)&^3; i < ln; i += 4 {
 		if readUint32(aid.Data, i) == 0 {
 			return true
 		}
-- 
2.43.0


From 570ad0c94a349a15f796f802285919a4144543dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 16/47] fix: a unicode string longer than its block does not
 panic

---
 util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util.go b/util.go
index 9c4713e..96d6068 100644
--- a/util.go
+++ b/util.go
@@ -83,7 +83,13 @@ func writeUint32(b []byte, v uint32, offset int) {
 }
 
 func readUnicodeString(b []byte) string {
+	if len(b) < 4 {
+		return ""
+	}
 	ln := readUint32(b, 0)
+	if max := uint32(len(b)-4) >> 1; ln > max {
+		ln = max
+	}
 	if ln == 0 {
 		return ""
 	}
-- 
2.43.0


From b7b152baebd4456710f135dce3d25897ed66bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 17/47] fix: a section divider setting shorter than its type
 does not panic

---
 layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 2778b0e..4e1f2bc 100644
--- a/layer.go
+++ b/layer.go
@@ -227,7 +227,7 @@ func buildTree(layer []Layer) ([]Layer, error) {
 
 func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType int, err error) {
 	b, ok := l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting]
-	if ok {
+	if ok && len(b) >= 4 {
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
@@ -243,7 +243,7 @@ func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType
 		return typ, blendMode, subType, nil
 	}
 	b, ok = l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting2]
-	if ok {
+	if ok && len(b) >= 4 {
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
-- 
2.43.0


From ed1aa4450db344619491352bcd7384b8b3468d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 18/47] fix: the length of an additional layer information
 block is limited by its section

---
 layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index 4e1f2bc..da812ae 100644
--- a/layer.go
+++ b/layer.go
@@ -861,7 +861,9 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			}
 			read += l
 			var data []byte
-			if ln := int(readUint(b, 0, intSize)); ln > 0 {
+			if ln := int(readUint(b, 0, intSize)); ln > infoLen-read || ln < 0 {
+				return nil, nil, read, errors.New("psd: additional layer info block exceeds its section")
+			} else if ln > 0 {
 				data = make([]byte, ln)
 				if l, err = io.ReadFull(r, data); err != nil {
 					return nil, nil, read, err
-- 
2.43.0


From eb9fa6a9ff7cebb0d7755d7ca4e054db3de24758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 19/47] fix: layers of a color mode that has no picker are an
 error instead of a panic

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index da812ae..d8269a5 100644
--- a/layer.go
+++ b/layer.go
@@ -444,6 +444,9 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *DecodeOptions) (read int, err error) {
 	var l int
 	b := make([]byte, 2)
+	if len(lcis) > 0 && (cfg.ColorMode.Channels() < 0 || findPicker(cfg.Depth, cfg.ColorMode, false) == nil) {
+		return 0, errors.New("psd: layer of color mode " + itoa(int(cfg.ColorMode)) + " depth " + itoa(cfg.Depth) + " is not implemeted")
+	}
 	for i, lci := range lcis {
 		chMap := map[int]Channel{}
 		pickerChs := make([][]byte, cfg.ColorMode.Channels(), 8)
-- 
2.43.0


From 7b886cd3ec10c10f3f71e93eb33be4d9042149f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 20/47] fix: channel indices beyond the color mode neither
 panic nor replace the alpha channel

---
 layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index d8269a5..1bdfbc3 100644
--- a/layer.go
+++ b/layer.go
@@ -503,7 +503,7 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 				Picker: pk,
 			}
 			switch {
-			case j.ChIndex >= 0:
+			case j.ChIndex >= 0 && j.ChIndex < cfg.ColorMode.Channels():
 				pickerChs[j.ChIndex] = data
 			case j.ChIndex == -1:
 				pickerChs = append(pickerChs, data)
-- 
2.43.0


From 68eb540ff8b97f1bd5c21d429223efc943f43009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 21/47] fix: layer and mask rectangles beyond the format limit
 are an error instead of a panic

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index 1bdfbc3..0257469 100644
--- a/layer.go
+++ b/layer.go
@@ -475,6 +475,9 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 			default:
 				rect = lci.Layer.Rect
 			}
+			if rect.Dx() > 300000 || rect.Dy() > 300000 {
+				return read, errors.New("psd: layer: " + itoa(i) + " channel: " + itoa(j.ChIndex) + " unexpected size")
+			}
 			data := make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
 			pk := findGrayPicker(cfg.Depth)
 			pk.setSource(rect, data)
-- 
2.43.0


From 1cca1fe74ea721fa1c897798204e8976b062de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 22/47] fix: the picture of a layer with missing color channels
 can be read

---
 layer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/layer.go b/layer.go
index 0257469..dde378c 100644
--- a/layer.go
+++ b/layer.go
@@ -512,6 +512,16 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 				pickerChs = append(pickerChs, data)
 			}
 		}
+		for j := range pickerChs {
+			if pickerChs[j] == nil {
+				// the channel is not stored
+				rect := lci.Layer.Rect
+				if rect.Dx() > 300000 || rect.Dy() > 300000 {
+					return read, errors.New("psd: layer: " + itoa(i) + " unexpected size")
+				}
+				pickerChs[j] = make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
+			}
+		}
 		pk := findPicker(cfg.Depth, cfg.ColorMode, cfg.ColorMode.Channels() < len(pickerChs))
 		pk.setSource(lci.Layer.Rect, pickerChs...)
 		lci.Layer.Picker = pk
-- 
2.43.0


From 7e6ab2bbc9cf3aab54be904c0c414d5160bb99f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 23/47] fix: indexed images of other depths than 8 are an error
 instead of a panic

---
 psd.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psd.go b/psd.go
index 63b0aca..fa5af2f 100644
--- a/psd.go
+++ b/psd.go
@@ -122,7 +122,9 @@ func (cfg *Config) makePicker() (picker, error) {
 		if pal == nil {
 			return nil, errors.New("psd: indexed image has no palette")
 		}
-		pk = &pickerPalette{Palette: pal}
+		if cfg.Depth == 8 {
+			pk = &pickerPalette{Palette: pal}
+		}
 	case ColorModeBitmap:
 		pk = &pickerGray1{}
 	default:
-- 
2.43.0


From dad528749b1a9eab0723fc96724cb9e5ee0337be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 24/47] fix: the Add blend mode no longer overflows or leaves
 the alpha range

---
 blend/genblend.go | 18 +++++++++---------
 blend/zblends.go  | 30 +++++++++++++++---------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 278ee7a..ceb88a7 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -595,9 +595,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetNRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / a) >> 8)
@@ -608,9 +608,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / 0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / 0xffff) >> 8)
+			dpix[j+2] = uint8(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a) >> 8)
+			dpix[j+1] = uint8(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a) >> 8)
+			dpix[j+0] = uint8(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
@@ -713,9 +713,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 {{.Code.To16}}
 {{end}}
 {{if .OverMax}}
-			out.R = uint16(clip6416(uint64(sr*a2 + dr*a3)/0xffff + uint64(r)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2 + dg*a3)/0xffff + uint64(g)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2 + db*a3)/0xffff + uint64(b)*uint64(a1) / uint64(a)) * a / 0xffff)
+			out.R = uint16(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a))
+			out.G = uint16(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a))
+			out.B = uint16(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a))
 			out.A = uint16(a)
 {{else}}
 			out.R = uint16((r*a1 + sr*a2 + dr*a3) / 0xffff)
diff --git a/blend/zblends.go b/blend/zblends.go
index 888a303..73ceddc 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -5484,9 +5484,9 @@ var drawAddNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5543,9 +5543,9 @@ var drawAddRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5602,9 +5602,9 @@ var drawAddNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a) >> 8)
+			dpix[j+1] = uint8(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a) >> 8)
+			dpix[j+0] = uint8(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5671,9 +5671,9 @@ var drawAddRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0,
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a) >> 8)
+			dpix[j+1] = uint8(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a) >> 8)
+			dpix[j+0] = uint8(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5733,9 +5733,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 
 			b = sb + db
 
-			out.R = uint16(clip6416(uint64(sr*a2+dr*a3)/0xffff+uint64(r)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2+dg*a3)/0xffff+uint64(g)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2+db*a3)/0xffff+uint64(b)*uint64(a1)/uint64(a)) * a / 0xffff)
+			out.R = uint16(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a))
+			out.G = uint16(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a))
+			out.B = uint16(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a))
 			out.A = uint16(a)
 
 			dst.Set(x, y, &out)
-- 
2.43.0


From c027d511e7d5b68d0962c1c0bf79b512c683ab57 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 25/47] fix: SoftLight keeps the fraction of its
 low-destination polynomial

---
 blend/genblend.go |  4 ++--
 blend/zblends.go  | 36 ++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index ceb88a7..6553a86 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -215,7 +215,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest * 32897 >> 23) * (maxValue - dest) * 32897 >> 23);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) * 32897 >> 23) * int32(dest) + maxValue*4) * int32(dest) * 32897 >> 23);
+					tmp = uint32(((int64(dest)<<4 - maxValue*12) * int64(dest) + maxValue*maxValue*4) * int64(dest) / (maxValue*maxValue));
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
@@ -227,7 +227,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest / maxValue) * (maxValue - dest) / maxValue);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) / maxValue) * int32(dest) + maxValue*4) * int32(dest) / maxValue);
+					tmp = uint32(((int64(dest)<<4 - maxValue*12) * int64(dest) + maxValue*maxValue*4) * int64(dest) / (maxValue*maxValue));
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
diff --git a/blend/zblends.go b/blend/zblends.go
index 73ceddc..44f219f 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -6378,7 +6378,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xff - (sr << 1)) * dr * 32897 >> 23) * (0xff - dr) * 32897 >> 23)
 			} else {
 				if dr < 0x40 {
-					tmp = uint32((((int32(dr)<<4-0xff*12)*32897>>23)*int32(dr) + 0xff*4) * int32(dr) * 32897 >> 23)
+					tmp = uint32(((int64(dr)<<4-0xff*12)*int64(dr) + 0xff*0xff*4) * int64(dr) / (0xff * 0xff))
 				} else {
 					tmp = sqrt(dr, 0xff)
 				}
@@ -6389,7 +6389,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xff - (sg << 1)) * dg * 32897 >> 23) * (0xff - dg) * 32897 >> 23)
 			} else {
 				if dg < 0x40 {
-					tmp = uint32((((int32(dg)<<4-0xff*12)*32897>>23)*int32(dg) + 0xff*4) * int32(dg) * 32897 >> 23)
+					tmp = uint32(((int64(dg)<<4-0xff*12)*int64(dg) + 0xff*0xff*4) * int64(dg) / (0xff * 0xff))
 				} else {
 					tmp = sqrt(dg, 0xff)
 				}
@@ -6400,7 +6400,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xff - (sb << 1)) * db * 32897 >> 23) * (0xff - db) * 32897 >> 23)
 			} else {
 				if db < 0x40 {
-					tmp = uint32((((int32(db)<<4-0xff*12)*32897>>23)*int32(db) + 0xff*4) * int32(db) * 32897 >> 23)
+					tmp = uint32(((int64(db)<<4-0xff*12)*int64(db) + 0xff*0xff*4) * int64(db) / (0xff * 0xff))
 				} else {
 					tmp = sqrt(db, 0xff)
 				}
@@ -6450,7 +6450,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr) + 0xffff*0xffff*4) * int64(dr) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6461,7 +6461,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg) + 0xffff*0xffff*4) * int64(dg) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6472,7 +6472,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db) + 0xffff*0xffff*4) * int64(db) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6536,7 +6536,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr) + 0xffff*0xffff*4) * int64(dr) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6547,7 +6547,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg) + 0xffff*0xffff*4) * int64(dg) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6558,7 +6558,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db) + 0xffff*0xffff*4) * int64(db) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6622,7 +6622,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr) + 0xffff*0xffff*4) * int64(dr) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6633,7 +6633,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg) + 0xffff*0xffff*4) * int64(dg) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6644,7 +6644,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db) + 0xffff*0xffff*4) * int64(db) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6718,7 +6718,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr) + 0xffff*0xffff*4) * int64(dr) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6729,7 +6729,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg) + 0xffff*0xffff*4) * int64(dg) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6740,7 +6740,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db) + 0xffff*0xffff*4) * int64(db) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6808,7 +6808,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr) + 0xffff*0xffff*4) * int64(dr) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6819,7 +6819,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg) + 0xffff*0xffff*4) * int64(dg) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6830,7 +6830,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db) + 0xffff*0xffff*4) * int64(db) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
-- 
2.43.0


From 5f86fe4bde1117f08b759ef41f7a72f7c1234353 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 26/47] fix: transparent source pixels leave the destination
 alone in the generic path too

---
 blend/genblend.go |  3 ++
 blend/zblends.go  | 81 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/blend/genblend.go b/blend/genblend.go
index 6553a86..72dc51d 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -671,6 +671,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
diff --git a/blend/zblends.go b/blend/zblends.go
index 44f219f..76e1d5d 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -415,6 +415,9 @@ var drawNormalFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -910,6 +913,9 @@ var drawDarkenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -1357,6 +1363,9 @@ var drawMultiplyFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -1882,6 +1891,9 @@ var drawColorBurnFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -2410,6 +2422,9 @@ var drawLinearBurnFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -2880,6 +2895,9 @@ var drawDarkerColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -3379,6 +3397,9 @@ var drawLightenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -3826,6 +3847,9 @@ var drawScreenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -4351,6 +4375,9 @@ var drawColorDodgeFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -4804,6 +4831,9 @@ var drawLinearDodgeFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -5259,6 +5289,9 @@ var drawLighterColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -5698,6 +5731,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -6193,6 +6229,9 @@ var drawOverlayFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -6775,6 +6814,9 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -7312,6 +7354,9 @@ var drawHardLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -7822,6 +7867,9 @@ var drawLinearLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -8479,6 +8527,9 @@ var drawVividLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -9166,6 +9217,9 @@ var drawPinLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -9988,6 +10042,9 @@ var drawHardMixFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -10552,6 +10609,9 @@ var drawDifferenceFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -10999,6 +11059,9 @@ var drawExclusionFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -11494,6 +11557,9 @@ var drawSubtractFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12031,6 +12097,9 @@ var drawDivideFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12469,6 +12538,9 @@ var drawHueFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12886,6 +12958,9 @@ var drawSaturationFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -13298,6 +13373,9 @@ var drawColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, sr
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -13709,6 +13787,9 @@ var drawLuminosityFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
-- 
2.43.0


From 7fd567e0f28fc5277eaf170cda17398d8ccc4fb9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 27/47] fix: composite no longer writes layer rectangles while
 the decoder copies the layers

---
 composite/layer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index f8a5b2a..cf432d6 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -280,10 +280,26 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	if err = pc.Wait(ctx); err != nil {
 		return nil, nil, err
 	}
+	updateRect(img.Layer, layerImages)
 	img.Config.Rect = transformRect(img.Config.Rect, m)
 	return layerImages, img, nil
 }
 
+// updateRect sets the rectangles of layers to those of the converted images.
+func updateRect(layers []psd.Layer, layerImages map[int]layerImage) {
+	for i := range layers {
+		l := &layers[i]
+		ld := layerImages[l.SeqID]
+		if ld.Canvas != nil {
+			l.Rect = ld.Canvas.Rect()
+		}
+		if ld.Mask != nil {
+			l.Mask.Rect = ld.Mask.Rect()
+		}
+		updateRect(l.Layer, layerImages)
+	}
+}
+
 func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
 	defer pc.Done()
 	for l := range ch {
@@ -299,7 +315,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 				return
 			}
 			ld.Canvas = ti
-			l.Rect = ti.Rect()
 		}
 		if !l.Mask.Rect.Empty() {
 			if a, ok := l.Channel[-2]; ok {
@@ -308,7 +323,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 					return
 				}
 				ld.Mask = m
-				l.Mask.Rect = m.Rect()
 			}
 		}
 
-- 
2.43.0


From cde135700ea39437171dd37d44e05bc9c35744d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 28/47] fix: a layer mask that hides the whole layer is not
 ignored by composite

---
 composite/layer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/composite/layer.go b/composite/layer.go
index cf432d6..a613c29 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -294,7 +294,10 @@ func updateRect(layers []psd.Layer, layerImages map[int]layerImage) {
 			l.Rect = ld.Canvas.Rect()
 		}
 		if ld.Mask != nil {
-			l.Mask.Rect = ld.Mask.Rect()
+			// a mask of its default color alone has no tiles but is still a mask
+			if r := ld.Mask.Rect(); !r.Empty() {
+				l.Mask.Rect = r
+			}
 		}
 		updateRect(l.Layer, layerImages)
 	}
-- 
2.43.0


From dc709fb9f6ad25081e85e1e47435e759c431b4c5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 29/47] fix: composite keeps the pixels at negative coordinates

---
 composite/layerimage.go | 25 +++++++++++++++++--------
 composite/renderer.go   |  4 ++--
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 0a44f79..5bf2edf 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -19,6 +19,15 @@ type layerImage struct {
 
 type tiledImage map[image.Point]draw.Image
 
+// tileOrigin returns the origin of the tile that contains v.
+func tileOrigin(v int, tileSize int) int {
+	m := v % tileSize
+	if m < 0 {
+		m += tileSize
+	}
+	return v - m
+}
+
 func (t tiledImage) Get(tileSize int, pt image.Point) (draw.Image, bool) {
 	r, ok := t[pt]
 	if !ok {
@@ -43,8 +52,8 @@ func (t tiledImage) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -231,8 +240,8 @@ func newScaledTiledImage(ctx context.Context, tileSize int, rect image.Rectangle
 }
 
 func newTiledImage(ctx context.Context, tileSize int, rect image.Rectangle, r, g, b, a []byte, deltaX int) (tiledImage, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -356,8 +365,8 @@ func (t tiledMask) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -425,8 +434,8 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 }
 
 func newTiledMask(ctx context.Context, tileSize int, rect image.Rectangle, a []byte, defaultColor int) (tiledMask, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
diff --git a/composite/renderer.go b/composite/renderer.go
index 2dd8aab..bbf9e1f 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -235,8 +235,8 @@ func (r *Renderer) render(ctx context.Context, dest *image.NRGBA, diffOnly bool)
 		Map: map[int]*[]image.Point{},
 	}
 
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
-- 
2.43.0


From 3bc6859815fb616a98dce68c40e08df22978d8b1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 30/47] fix: thumbnails include the last row and column of the
 layer

---
 composite/thumbnail.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index bcd916e..657ef7e 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -20,7 +20,7 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	w, h := src.Rect.Dx(), src.Rect.Dy()
 	stride := src.Stride
 	pix := src.Pix[:h*stride]
-	rect := image.Rectangle{Min: image.Point{X: w, Y: h}, Max: image.Point{X: -1, Y: -1}}
+	rect := image.Rectangle{Min: image.Point{X: w, Y: h}, Max: image.Point{X: 0, Y: 0}}
 	for y := 0; y < h; y++ {
 		for l := 0; l < w; l++ {
 			if pix[l*4+3] > threshold {
@@ -29,8 +29,8 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				}
 				for r := w - 1; r >= l; r-- {
 					if pix[r*4+3] > threshold {
-						if r > rect.Max.X {
-							rect.Max.X = r
+						if r+1 > rect.Max.X {
+							rect.Max.X = r + 1
 						}
 						break
 					}
@@ -38,7 +38,7 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				if y < rect.Min.Y {
 					rect.Min.Y = y
 				}
-				rect.Max.Y = y
+				rect.Max.Y = y + 1
 				break
 			}
 		}
-- 
2.43.0


From bd0d2038d1ad9170fa28104b3072c741865c038d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 31/47] fix: SetDirtyByLayer reaches the root of a tree that is
 not a clone

---
 composite/builder.go | 15 ++++++++++++---
 composite/layer.go   | 27 +++++++++++----------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 3b4b6bb..ffc1d84 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -51,9 +51,18 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
 	b.Rect = b.Rect.Union(psdl.Rect)
-	for i := range psdl.Layer {
-		l.Children = append(l.Children, Layer{Parent: l})
-		b.buildLayer(&l.Children[i], &psdl.Layer[i])
+	b.buildChildren(l, psdl.Layer)
+}
+
+// buildChildren allocates all of the children at once because they are pointed to by their own children.
+func (b *builder) buildChildren(l *Layer, layers []psd.Layer) {
+	if len(layers) == 0 {
+		return
+	}
+	l.Children = make([]Layer, len(layers))
+	for i := range layers {
+		l.Children[i].Parent = l
+		b.buildLayer(&l.Children[i], &layers[i])
 	}
 }
 
diff --git a/composite/layer.go b/composite/layer.go
index a613c29..760f86f 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -217,20 +217,6 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		Img: img,
 		LayerNameEncodingDetector: opt.LayerNameEncodingDetector,
 	}
-	root := Layer{
-		SeqID:      SeqIDRoot,
-		Folder:     true,
-		FolderOpen: true,
-		Visible:    true,
-		BlendMode:  psd.BlendModeNormal,
-		Opacity:    255,
-	}
-	for i := range img.Layer {
-		root.Children = append(root.Children, Layer{})
-		b.buildLayer(&root.Children[i], &img.Layer[i])
-	}
-	b.registerClippingGroup(root.Children)
-
 	r := &Tree{
 		Renderer: &Renderer{
 			cache: map[int]*cache{},
@@ -239,10 +225,19 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		layerImage: layerImages,
 
 		CanvasRect: img.Config.Rect,
-		Rect:       b.Rect.Intersect(img.Config.Rect),
 
-		Root: root,
+		Root: Layer{
+			SeqID:      SeqIDRoot,
+			Folder:     true,
+			FolderOpen: true,
+			Visible:    true,
+			BlendMode:  psd.BlendModeNormal,
+			Opacity:    255,
+		},
 	}
+	b.buildChildren(&r.Root, img.Layer)
+	b.registerClippingGroup(r.Root.Children)
+	r.Rect = b.Rect.Intersect(img.Config.Rect)
 
 	r.Renderer.pool.New = r.Renderer.allocate
 	r.Renderer.tree = r
-- 
2.43.0


From 18697a6788f6a8d2708eaa597c67ba0fb530b4f8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 32/47] fix: canceling composite.New neither hangs nor loses
 layers silently

---
 composite/layer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 760f86f..6f48552 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -275,6 +275,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	if err = pc.Wait(ctx); err != nil {
 		return nil, nil, err
 	}
+	if pc.Aborted() {
+		return nil, nil, ErrAborted
+	}
 	updateRect(img.Layer, layerImages)
 	img.Config.Rect = transformRect(img.Config.Rect, m)
 	return layerImages, img, nil
@@ -301,6 +304,10 @@ func updateRect(layers []psd.Layer, layerImages map[int]layerImage) {
 func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
 	defer pc.Done()
 	for l := range ch {
+		if pc.Aborted() {
+			// keep receiving, otherwise the decoder waits forever
+			continue
+		}
 		var ld layerImage
 		if l.HasImage() && !l.Rect.Empty() {
 			r, g, b := l.Channel[0].Data, l.Channel[1].Data, l.Channel[2].Data
@@ -310,7 +317,8 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 			}
 			ti, err := newScaledTiledImage(ctx, tileSize, l.Rect, r, g, b, a, 1, m, gt)
 			if err != nil {
-				return
+				pc.SetAbort()
+				continue
 			}
 			ld.Canvas = ti
 		}
@@ -318,7 +326,8 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 			if a, ok := l.Channel[-2]; ok {
 				m, err := newScaledTiledMask(ctx, tileSize, l.Mask.Rect, a.Data, l.Mask.DefaultColor, m)
 				if err != nil {
-					return
+					pc.SetAbort()
+					continue
 				}
 				ld.Mask = m
 			}
-- 
2.43.0


From f195628b5e31edc1ddb174f278421f2c8b591352 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 33/47] fix: drawing an image onto itself is not split across
 goroutines

---
 blend/draw.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/blend/draw.go b/blend/draw.go
index af44cdf..0e3170a 100644
--- a/blend/draw.go
+++ b/blend/draw.go
@@ -30,6 +30,11 @@ type uniformDrawer interface {
 	drawUniformToNRGBAUniform(dst *image.NRGBA, r image.Rectangle, src *image.Uniform, sp image.Point, mask *image.Uniform)
 }
 
+// sharesMemory reports whether a and b are parts of the same array.
+func sharesMemory(a, b []byte) bool {
+	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
+}
+
 type drawFunc func(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int)
 
 func (f drawFunc) Parallel(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int) {
@@ -37,6 +42,10 @@ func (f drawFunc) Parallel(dest []byte, src []byte, alpha uint32, d0 int, s0 int
 	for n > 1 && n<<1 > y {
 		n--
 	}
+	if sharesMemory(dest, src) {
+		// rows of the destination may be rows of the source, so the order matters
+		n = 1
+	}
 	if n == 1 {
 		f(dest, src, alpha, d0, s0, y, sx0, sx1, sxDelta, syDelta, dx0, dx1, dxDelta, dyDelta)
 		return
@@ -102,6 +111,10 @@ func (f drawFallbackFunc) Parallel(dst draw.Image, pX int, pY int, src image.Ima
 	for n > 1 && n<<1 > y {
 		n--
 	}
+	if image.Image(dst) == src {
+		// rows of the destination may be rows of the source, so the order matters
+		n = 1
+	}
 	if n == 1 {
 		f(dst, pX, pY, src, spX, spY, mask, mpX, mpY, endX, endY, dx, dy)
 		return
-- 
2.43.0


From 7f3fe8839476149a9cf29551426460f238a088aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 34/47] fix: the canvas of a composite tree is not larger than
 the picture

---
 composite/layer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 6f48552..4639465 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -159,7 +159,7 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 		dx, dy := sx*m[0]+sy*m[1]+m[2], sx*m[3]+sy*m[4]+m[5]
 		if i == 0 {
 			xMin, yMin = dx, dy
-			xMax, yMax = dx+1, dy+1
+			xMax, yMax = dx, dy
 			continue
 		}
 		if xMin > dx {
@@ -168,8 +168,6 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 		if yMin > dy {
 			yMin = dy
 		}
-		dx++
-		dy++
 		if xMax < dx {
 			xMax = dx
 		}
-- 
2.43.0


From e63bb80373f94af3f7a0b8421f07427e9862ab6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 35/47] fix: copying NRGBA pixels keeps their colors exactly

---
 blend/genporterduff.go | 11 +++++++++++
 blend/zporterduffs.go  | 41 +++++++----------------------------------
 2 files changed, 18 insertions(+), 34 deletions(-)

diff --git a/blend/genporterduff.go b/blend/genporterduff.go
index 93abc7e..1f782a6 100644
--- a/blend/genporterduff.go
+++ b/blend/genporterduff.go
@@ -442,6 +442,16 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 	}
 {{end}}
 {{template "drawMain1" .}}
+{{if eq .Name "Copy"}}
+	// premultiplying would lose precision
+	if sa == 0 {
+		sr, sg, sb = 0, 0, 0
+	}
+	dpix[j+3] = uint8(sa >> 8)
+	dpix[j+2] = uint8(sb >> 8)
+	dpix[j+1] = uint8(sg >> 8)
+	dpix[j+0] = uint8(sr >> 8)
+{{else}}
 {{if and (ne .SrcRead "skip") (ne .SrcRead "alpha")}}
 	{{template "drawMain1_SrcNRGBAToRGBA" .}}
 {{end}}
@@ -450,6 +460,7 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{end}}
 {{template "drawMain2" .}}
 {{template "drawMain2_SetByNRGBA" .}}
+{{end}}
 {{template "drawMain3" .}}
 }
 
diff --git a/blend/zporterduffs.go b/blend/zporterduffs.go
index ecace5e..974aa9f 100644
--- a/blend/zporterduffs.go
+++ b/blend/zporterduffs.go
@@ -597,41 +597,14 @@ var drawCopyNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 			sg := uint32(spix[i+1]) * 0x0101
 			sr := uint32(spix[i]) * 0x0101
 
-			if sa == 0x0000 {
-				sr = 0
-				sg = 0
-				sb = 0
-			} else if sa < 0xffff {
-				sr = sr * sa / 0xffff
-				sg = sg * sa / 0xffff
-				sb = sb * sa / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
-			_ = tmp
-
-			a = sa
-
-			r = sr
-
-			g = sg
-
-			b = sb
-
-			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
-				dpix[j+2] = 0
-				dpix[j+1] = 0
-				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
+			// premultiplying would lose precision
+			if sa == 0 {
+				sr, sg, sb = 0, 0, 0
 			}
+			dpix[j+3] = uint8(sa >> 8)
+			dpix[j+2] = uint8(sb >> 8)
+			dpix[j+1] = uint8(sg >> 8)
+			dpix[j+0] = uint8(sr >> 8)
 
 		}
 		d0 += dyDelta
-- 
2.43.0


From f379294b9de8d3a7be962a8ec11afacdf9a2d190 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 36/47] fix: a transformation matrix that turns the picture is
 not overwritten

---
 composite/layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 4639465..8747048 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -192,10 +192,10 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	if opt.TileSize == 0 {
 		opt.TileSize = DefaultTileSize
 	}
-	if opt.TransformMatrix[0] == 0 {
+	if opt.TransformMatrix[0] == 0 && opt.TransformMatrix[1] == 0 {
 		opt.TransformMatrix[0] = 1
 	}
-	if opt.TransformMatrix[4] == 0 {
+	if opt.TransformMatrix[3] == 0 && opt.TransformMatrix[4] == 0 {
 		opt.TransformMatrix[4] = 1
 	}
 	var gt *gammaTable
-- 
2.43.0


From eed086bf71ab3280601bc6afda437d6f1033babb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 37/47] fix: Dest, DestIn and DestOut keep the colors of NRGBA
 pixels exactly

---
 blend/genporterduff.go |  33 ++++
 blend/zporterduffs.go  | 360 ++++++-----------------------------------
 2 files changed, 81 insertions(+), 312 deletions(-)

diff --git a/blend/genporterduff.go b/blend/genporterduff.go
index 1f782a6..b3df899 100644
--- a/blend/genporterduff.go
+++ b/blend/genporterduff.go
@@ -435,6 +435,23 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 {{end}}
+{{define "drawMain2_ScaleDestNRGBA"}}
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
+			_ = tmp
+			{{if .Alpha16}}
+				{{.Alpha16.To16.Channel "a"}}
+			{{else if .Alpha}}
+				{{.Alpha.To16.Channel "a"}}
+			{{end}}
+			dpix[j+3] = uint8(a >> 8)
+			if a == 0 {
+				dpix[j+2] = 0
+				dpix[j+1] = 0
+				dpix[j+0] = 0
+			}
+{{end}}
 {{define "drawMain3"}}
 		}
 		d0 += dyDelta
@@ -455,22 +472,30 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{if and (ne .SrcRead "skip") (ne .SrcRead "alpha")}}
 	{{template "drawMain1_SrcNRGBAToRGBA" .}}
 {{end}}
+{{if or (eq .Name "Dest") (eq .Name "DestIn") (eq .Name "DestOut")}}
+	{{template "drawMain2_ScaleDestNRGBA" .}}
+{{else}}
 {{if and (ne .DestRead "skip") (ne .DestRead "alpha")}}
 	{{template "drawMain1_DestNRGBAToRGBA" .}}
 {{end}}
 {{template "drawMain2" .}}
 {{template "drawMain2_SetByNRGBA" .}}
 {{end}}
+{{end}}
 {{template "drawMain3" .}}
 }
 
 var draw{{.Name}}RGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0, s0, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int) {
 	{{template "drawMain1" .}}
+	{{if or (eq .Name "Dest") (eq .Name "DestIn") (eq .Name "DestOut")}}
+		{{template "drawMain2_ScaleDestNRGBA" .}}
+	{{else}}
 	{{if and (ne .DestRead "skip") (ne .DestRead "alpha")}}
 		{{template "drawMain1_DestNRGBAToRGBA" .}}
 	{{end}}
 	{{template "drawMain2" .}}
 	{{template "drawMain2_SetByNRGBA" .}}
+	{{end}}
 	{{template "drawMain3" .}}
 }
 
@@ -575,11 +600,15 @@ var draw{{.Name}}AlphaToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 	}
 {{end}}
 {{template "drawMainAlpha1" .}}
+{{if or (eq .Name "Dest") (eq .Name "DestIn") (eq .Name "DestOut")}}
+	{{template "drawMain2_ScaleDestNRGBA" .}}
+{{else}}
 {{if and (ne .DestRead "skip") (ne .DestRead "alpha")}}
 	{{template "drawMainAlpha1_DestNRGBAToRGBA" .}}
 {{end}}
 {{template "drawMainAlpha2" .}}
 {{template "drawMainAlpha2_SetByNRGBA" .}}
+{{end}}
 {{template "drawMainAlpha3" .}}
 }
 
@@ -662,11 +691,15 @@ var draw{{.Name}}UniformToNRGBA drawUniformFunc = func(dest []byte, sr, sg, sb,
 	}
 {{end}}
 {{template "drawMainUniform1" .}}
+{{if or (eq .Name "Dest") (eq .Name "DestIn") (eq .Name "DestOut")}}
+	{{template "drawMain2_ScaleDestNRGBA" .}}
+{{else}}
 {{if and (ne .DestRead "skip") (ne .DestRead "alpha")}}
 	{{template "drawMainUniform1_DestNRGBAToRGBA" .}}
 {{end}}
 {{template "drawMainUniform2" .}}
 {{template "drawMainUniform2_SetByNRGBA" .}}
+{{end}}
 {{template "drawMainUniform3" .}}
 }
 
diff --git a/blend/zporterduffs.go b/blend/zporterduffs.go
index 974aa9f..e126995 100644
--- a/blend/zporterduffs.go
+++ b/blend/zporterduffs.go
@@ -1107,40 +1107,18 @@ var drawDestNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			a = da
 
-			r = dr
-
-			g = dg
-
-			b = db
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -1162,40 +1140,18 @@ var drawDestRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			a = da
 
-			r = dr
-
-			g = dg
-
-			b = db
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -1292,40 +1248,18 @@ var drawDestAlphaToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			a = da
 
-			r = dr
-
-			g = dg
-
-			b = db
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -1387,40 +1321,18 @@ var drawDestUniformToNRGBA drawUniformFunc = func(dest []byte, sr, sg, sb, sa ui
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			a = da
 
-			r = dr
-
-			g = dg
-
-			b = db
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -3491,40 +3403,18 @@ var drawDestInNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			a = (da * sa) / 0xffff
 
-			r = (sa * dr) / 0xffff
-
-			g = (sa * dg) / 0xffff
-
-			b = (sa * db) / 0xffff
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -3550,40 +3440,18 @@ var drawDestInRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			a = (da * sa) / 0xffff
 
-			r = (sa * dr) / 0xffff
-
-			g = (sa * dg) / 0xffff
-
-			b = (sa * db) / 0xffff
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -3692,40 +3560,18 @@ var drawDestInAlphaToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			a = (da * sa) / 0xffff
 
-			r = (sa * dr) / 0xffff
-
-			g = (sa * dg) / 0xffff
-
-			b = (sa * db) / 0xffff
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -3791,40 +3637,18 @@ var drawDestInUniformToNRGBA drawUniformFunc = func(dest []byte, sr, sg, sb, sa
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			a = (da * sa) / 0xffff
 
-			r = (sa * dr) / 0xffff
-
-			g = (sa * dg) / 0xffff
-
-			b = (sa * db) / 0xffff
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -4646,41 +4470,19 @@ var drawDestOutNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			tmp = 0xffff - sa
 			a = (tmp * da) / 0xffff
 
-			r = (tmp * dr) / 0xffff
-
-			g = (tmp * dg) / 0xffff
-
-			b = (tmp * db) / 0xffff
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -4706,41 +4508,19 @@ var drawDestOutRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			tmp = 0xffff - sa
 			a = (tmp * da) / 0xffff
 
-			r = (tmp * dr) / 0xffff
-
-			g = (tmp * dg) / 0xffff
-
-			b = (tmp * db) / 0xffff
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -4851,41 +4631,19 @@ var drawDestOutAlphaToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			tmp = 0xffff - sa
 			a = (tmp * da) / 0xffff
 
-			r = (tmp * dr) / 0xffff
-
-			g = (tmp * dg) / 0xffff
-
-			b = (tmp * db) / 0xffff
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
@@ -4952,41 +4710,19 @@ var drawDestOutUniformToNRGBA drawUniformFunc = func(dest []byte, sr, sg, sb, sa
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
-			if da == 0x0000 {
-				dr = 0
-				dg = 0
-				db = 0
-			} else if da < 0xffff {
-				dr = dr * da / 0xffff
-				dg = dg * da / 0xffff
-				db = db * da / 0xffff
-			}
-
-			var r, g, b, a, tmp uint32
+			// the colors stay as they are, premultiplying them would lose precision
+			_, _, _ = dr, dg, db
+			var a, tmp uint32
 			_ = tmp
 
 			tmp = 0xffff - sa
 			a = (tmp * da) / 0xffff
 
-			r = (tmp * dr) / 0xffff
-
-			g = (tmp * dg) / 0xffff
-
-			b = (tmp * db) / 0xffff
-
 			dpix[j+3] = uint8(a >> 8)
-			if a == 0xffff {
-				dpix[j+2] = uint8(b >> 8)
-				dpix[j+1] = uint8(g >> 8)
-				dpix[j+0] = uint8(r >> 8)
-			} else if a == 0 {
+			if a == 0 {
 				dpix[j+2] = 0
 				dpix[j+1] = 0
 				dpix[j+0] = 0
-			} else {
-				dpix[j+2] = uint8((b * 0xffff / a) >> 8)
-				dpix[j+1] = uint8((g * 0xffff / a) >> 8)
-				dpix[j+0] = uint8((r * 0xffff / a) >> 8)
 			}
 
 		}
-- 
2.43.0


From 896e591b833ea274f5bd3d4e65433ffbc2d7b062 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 38/47] fix: a masked pass-through group shows what lies below
 where the mask hides it

---
 composite/draw.go     | 31 +++++++++++++++++++++++++++++++
 composite/renderer.go |  8 ++++----
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/composite/draw.go b/composite/draw.go
index eaae508..49ab65f 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -51,3 +51,34 @@ func removeAlpha(b *image.NRGBA) {
 		d[i+3] = 255
 	}
 }
+
+// mixByMask shows below through b where mask hides b.
+// mask is nil if it has its default color only.
+func mixByMask(b *image.NRGBA, below *image.NRGBA, mask *image.Alpha, defaultColor int) {
+	for y := b.Rect.Min.Y; y < b.Rect.Max.Y; y++ {
+		for x := b.Rect.Min.X; x < b.Rect.Max.X; x++ {
+			m := 0
+			if mask != nil {
+				m = int(mask.AlphaAt(x, y).A)
+			}
+			if defaultColor == 255 {
+				m = 255 - m
+			}
+			if m == 255 {
+				continue
+			}
+			d := b.Pix[b.PixOffset(x, y):]
+			s := below.Pix[below.PixOffset(x, y):]
+			da, sa := int(d[3])*m, int(s[3])*(255-m)
+			a := da + sa
+			if a == 0 {
+				d[0], d[1], d[2], d[3] = 0, 0, 0, 0
+				continue
+			}
+			for i := 0; i < 3; i++ {
+				d[i] = uint8((int(d[i])*da + int(s[i])*sa + a>>1) / a)
+			}
+			d[3] = uint8((a + 127) / 255)
+		}
+	}
+}
diff --git a/composite/renderer.go b/composite/renderer.go
index bbf9e1f..9cf845d 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -402,7 +402,10 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 	}
 
 	if l.MaskEnabled {
-		if ldMask, ok := ld.Mask[pt]; ok {
+		ldMask, ok := ld.Mask[pt]
+		if blendMode == psd.BlendModePassThrough {
+			mixByMask(buf, b, ldMask, l.MaskDefaultColor)
+		} else if ok {
 			if l.MaskDefaultColor != 255 {
 				blend.DestIn.Draw(buf, buf.Rect, ldMask, pt)
 			} else {
@@ -413,9 +416,6 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 				blend.Clear.Draw(buf, buf.Rect, image.Transparent, image.Point{})
 			}
 		}
-		if blendMode == psd.BlendModePassThrough {
-			blend.DestOver.Draw(buf, buf.Rect, b, pt)
-		}
 	}
 
 	if len(l.Clip) == 0 {
-- 
2.43.0


From 1bfa0c8e0fe6b5e2f173c27069711b0d1d3377f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 39/47] fix: a layer mask without pixels that hides the whole
 layer is not ignored

---
 composite/builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/composite/builder.go b/composite/builder.go
index ffc1d84..3c64778 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -48,7 +48,9 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.FolderOpen = psdl.FolderIsOpen()
 
 	l.MaskDefaultColor = psdl.Mask.DefaultColor
-	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
+	// a mask that hides the whole layer may have an empty rectangle
+	_, hasMask := psdl.Channel[-2]
+	l.MaskEnabled = psdl.Mask.Enabled() && hasMask
 
 	b.Rect = b.Rect.Union(psdl.Rect)
 	b.buildChildren(l, psdl.Layer)
-- 
2.43.0


From c86f805a27fb7b7607310c110c3746839f76223c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 40/47] fix: composite draws blend modes it does not know as
 normal

---
 composite/draw.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/composite/draw.go b/composite/draw.go
index 49ab65f..f26ef05 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -40,7 +40,11 @@ var blendModes = map[psd.BlendMode]blend.Drawer{
 }
 
 func drawWithOpacity(dst draw.Image, r image.Rectangle, src draw.Image, sp image.Point, opacity int, bm psd.BlendMode) {
-	blendModes[bm].DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
+	d, ok := blendModes[bm]
+	if !ok {
+		d = blend.Normal // such as dissolve
+	}
+	d.DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
 }
 
 func removeAlpha(b *image.NRGBA) {
-- 
2.43.0


From b077cac193d77b9b80737baf7f8509ae9830c000 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:08:23 +0000
Subject: [PATCH 41/47] fix: composite no longer panics on a layer without a
 color channel

---
 composite/layer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/composite/layer.go b/composite/layer.go
index 8747048..cea0b1e 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -308,7 +308,7 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 		}
 		var ld layerImage
 		if l.HasImage() && !l.Rect.Empty() {
-			r, g, b := l.Channel[0].Data, l.Channel[1].Data, l.Channel[2].Data
+			r, g, b := colorData(l, 0), colorData(l, 1), colorData(l, 2)
 			var a []byte
 			if ach, ok := l.Channel[-1]; ok {
 				a = ach.Data
@@ -336,3 +336,11 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 		pc.M.Unlock()
 	}
 }
+
+// colorData returns the data of the color channel, it is blank if the channel is not stored.
+func colorData(l *psd.Layer, id int) []byte {
+	if ch, ok := l.Channel[id]; ok {
+		return ch.Data
+	}
+	return make([]byte, l.Rect.Dx()*l.Rect.Dy())
+}
-- 
2.43.0


From 07325f8f0a6be372396983686abee66e1e7331c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:08:23 +0000
Subject: [PATCH 42/47] fix: composite does not read 16-bit and 32-bit layers
 as 8-bit ones

---
 composite/layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite/layer.go b/composite/layer.go
index cea0b1e..44cf515 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -262,6 +262,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			if c.ColorMode != psd.ColorModeRGB {
 				return errors.New("Unsupported color mode")
 			}
+			if c.Depth != 8 {
+				return errors.New("Unsupported depth")
+			}
 			return nil
 		},
 		LayerImageLoaded: func(l *psd.Layer, index int, total int) { ch <- l },
-- 
2.43.0


From a6756f9c4a283209662ab1b5dda4c3293979ea0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 43/47] fix: SetDirtyByLayer of a group reaches the
 pass-through groups in it

---
 composite/renderer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composite/renderer.go b/composite/renderer.go
index 9cf845d..a5e1f45 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -166,6 +166,8 @@ func (r *Renderer) setDirtyByLayerRecursive(l *Layer, areaMap []image.Point) {
 
 func (r *Renderer) setDirtyByLayer(l *Layer) {
 	areaMap := r.buildAreaMap(l)
+	// what groups pass through to their own children may have changed too
+	r.setDirtyByLayerPassThrough(l, areaMap)
 	r.setDirtyByLayerRecursive(l, areaMap)
 }
 
-- 
2.43.0


From 0babfd6db18de3d1c0ff7dbe40e6a059b235b665 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 44/47] fix: thumbnails of long thin layers are not empty

---
 composite/thumbnail.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index 657ef7e..4fb1200 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -63,6 +63,13 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	src.Pix = src.Pix[:rect.Dy()*w]
 }
 
+func atLeast1(v int) int {
+	if v < 1 {
+		return 1
+	}
+	return v
+}
+
 // Thumbnail creates thumbnail.
 func (t *Tree) Thumbnail(seqID int, size int, tempBuffer []byte) (*image.NRGBA, error) {
 	ld, ok := t.layerImage[seqID]
@@ -95,9 +102,9 @@ func (t *Tree) Thumbnail(seqID int, size int, tempBuffer []byte) (*image.NRGBA,
 		return nil, errors.Wrap(errNoCanvas, "composite: failed to create thumbnail")
 	}
 	if sw > sh {
-		dest = image.NewNRGBA(image.Rect(0, 0, size, sh*size/sw))
+		dest = image.NewNRGBA(image.Rect(0, 0, size, atLeast1(sh*size/sw)))
 	} else {
-		dest = image.NewNRGBA(image.Rect(0, 0, sw*size/sh, size))
+		dest = image.NewNRGBA(image.Rect(0, 0, atLeast1(sw*size/sh), size))
 	}
 	if err := downscale.NRGBAFast(context.Background(), dest, src); err != nil {
 		return nil, errors.Wrap(err, "composite: failed to create thumbnail")
-- 
2.43.0


From c27e3e30d49740fdf64c389c2fb00638e9445897 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 45/47] fix: transforming a mask whose default color is white
 does not hide its surroundings

---
 composite/layerimage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 5bf2edf..3307bce 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -425,6 +425,14 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 	if m[0] == 1 && m[1] == 0 && m[2] == 0 && m[3] == 0 && m[4] == 1 && m[5] == 0 {
 		return newTiledMask(ctx, tileSize, rect, a, defaultColor)
 	}
+	if defaultColor != 0 {
+		// the transformation leaves 0 outside of the mask, so what is hidden is transformed
+		hidden := make([]byte, len(a))
+		for i, v := range a {
+			hidden[i] = 255 - v
+		}
+		a, defaultColor = hidden, 0
+	}
 	tmp := createMask(rect, a)
 	trRect := transformRect(rect, m)
 	tmp2 := image.NewAlpha(trRect)
-- 
2.43.0


From c3c0d4ff99ad209edfcf329e66844d13358cb7b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 46/47] fix: trimming a thumbnail does not read beyond the last
 row

---
 composite/thumbnail.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index 4fb1200..91b343b 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -54,9 +54,7 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	s := d[stride*rect.Min.Y+rect.Min.X*4:]
 	w, h = rect.Dx()*4, rect.Dy()
 	for y := 0; y < h; y++ {
-		copy(d, s[:w])
-		d = d[w:]
-		s = s[stride:]
+		copy(d[y*w:y*w+w], s[y*stride:])
 	}
 	src.Rect = rect
 	src.Stride = w
-- 
2.43.0


From 1a7b17d4cb6487497a7e1b37bf7058e08221557c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 47/47] fix: partially transparent colors keep their brightness
 in the float models

---
 color/color.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/color/color.go b/color/color.go
index 918febf..3441701 100644
--- a/color/color.go
+++ b/color/color.go
@@ -166,12 +166,11 @@ func nGrayA64Model(c color.Color) color.Color {
 		return NGrayA64{0, 0}
 	}
 	y := (299*r + 587*g + 114*b + 500) / 1000
-	x := float32(toFloat(y, 2.2))
 	if a == 0xffff {
-		return NGrayA64{x, 1}
+		return NGrayA64{float32(toFloat(y, 2.2)), 1}
 	}
-	xa := float32(a) / 0xffff
-	return NGrayA64{x / xa, xa}
+	// the gamma applies to the color without its alpha
+	return NGrayA64{float32(math.Pow(float64(y)/float64(a), 2.2)), float32(a) / 0xffff}
 }
 
 type NRGBA128 struct {
@@ -203,19 +202,16 @@ func nRGBA128Model(c color.Color) color.Color {
 	}
 	r, g, b, a := c.RGBA()
 	const gamma = 2.2
-	fr := float32(toFloat(r, gamma))
-	fg := float32(toFloat(g, gamma))
-	fb := float32(toFloat(b, gamma))
 	switch {
 	case a >= 0xffff:
-		return NRGBA128{fr, fg, fb, 1}
+		return NRGBA128{float32(toFloat(r, gamma)), float32(toFloat(g, gamma)), float32(toFloat(b, gamma)), 1}
 	case a == 0:
 		return NRGBA128{}
 	}
-	fa := 0xffff / float32(a)
-	fr *= fa
-	fg *= fa
-	fb *= fa
+	// the gamma applies to the color without its alpha
+	fr := float32(math.Pow(float64(r)/float64(a), gamma))
+	fg := float32(math.Pow(float64(g)/float64(a), gamma))
+	fb := float32(math.Pow(float64(b)/float64(a), gamma))
 	return NRGBA128{fr, fg, fb, float32(a) / 0xffff}
 }
 
-- 
2.43.0

