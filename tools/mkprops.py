#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below.
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over if isinstance(over,list) else [over],text=text),
        why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=list(observe),hook_needed=None)))

prop("C01","Decoding arbitrary bytes never panics",
 "Decode, DecodeConfig, CompressionMethod.Decode and the image package entry points return an error (or a result whose pictures can be read at every point of their bounds) for every byte sequence; malformed, truncated or hostile input never makes them panic with an index, slice, nil-pointer or negative-length error.",
 "inputs","every input byte sequence (well-formed, truncated or corrupted in any field), both versions, every colour mode and depth",
 "The tests decode about forty intact files produced by Photoshop; no corrupted field value is ever fed to the parser.",
 ["psd.go","layer.go","imageres.go","compress.go","compress_other.go","util.go","picker.go"],
 [("length checks before indexing","layer.go/imageres.go/util.go"),("errors for unsupported mode/depth","psd.go Config.makePicker, layer.go readLayerImage")],
 ["Decode","DecodeConfig","Config.Palette","Layer.Picker.At"])
prop("C02","Decoding is independent of how the reader delivers the bytes",
 "For a given byte stream, Decode and DecodeConfig return the same values, the same byte count (of documents whose merged image is not ZIP compressed) and the same success or failure however the io.Reader splits it into reads (short reads, data returned together with io.EOF) and whether or not it is also an io.Seeker or has Discard; they never consume bytes beyond the end of the document when it is not ZIP compressed.",
 ["inputs","schedules"],"every byte stream, every legal sequence of read sizes and end-of-file delivery of the reader, with and without Seek/Discard",
 "Tests read from os.File and bytes.Reader only, which never return short reads in the middle.",
 ["util.go","psd.go","layer.go","imageres.go","compress.go"],
 [("io.ReadFull on every field","psd.go, layer.go, imageres.go"),("alignment padding","util.go adjustAlign2/adjustAlign4"),("skipping","util.go discard")],
 ["Decode","DecodeConfig"])
prop("C03","A truncated document never decodes successfully",
 "If Decode succeeds on a document stored without ZIP compression and reports n bytes read, then decoding any proper prefix of those n bytes with the same options, from whatever reader, returns an error, never a silently incomplete picture.",
 ["inputs","crash_points"],"every document within bounds and every cut position",
 "No test truncates a file.",
 ["psd.go","layer.go","imageres.go","compress.go","compress_other.go","util.go"],
 [("io.ReadFull everywhere","psd.go, layer.go, imageres.go, compress_other.go")],["Decode"])
prop("C04","The reported byte count is the number of bytes consumed",
 "When decoding succeeds, the returned count equals the number of bytes taken from the reader, for the configuration, the layer section, and the merged image, so that the caller's position in a concatenated stream is right.",
 "inputs","every document within bounds, both versions, every combination of optional sections",
 "Tests compare the count only with the sizes of the sample files.",
 ["psd.go","layer.go","imageres.go","compress.go"],
 [("read counters","psd.go Decode, layer.go read*")],["Decode","DecodeConfig"])
prop("C05","The header is validated and reported exactly",
 "DecodeConfig accepts a header exactly when its signature is 8BPS, the version is 1 or 2, channels are 1 to 56, both dimensions are between 1 and 30,000 (300,000 for PSB) and the depth is 1, 8, 16 or 32; the accepted configuration carries exactly the values and the colour mode data stored in the file.",
 "inputs","every 26-byte header and colour mode data length within bounds",
 "The sample files use a handful of sizes and never an invalid header.",
 ["psd.go"],[("header checks","psd.go DecodeConfig")],["DecodeConfig"])
prop("C06","Image resources are all returned with exact id, name and data",
 "Every image resource block of the resource section is returned under its id with its exact name and data whatever the parity of the name and data lengths, a later block with the same id wins, and a block whose signature is not one of the known ones makes decoding fail.",
 "inputs","every sequence of resource blocks within bounds on count and lengths",
 "Tests only touch resources through sample files and never check names or odd lengths.",
 ["imageres.go","util.go"],[("block loop with even padding","imageres.go readImageResource")],["DecodeConfig"])
prop("C07","PackBits data is decompressed exactly, regardless of CPU count",
 "RLE compressed image data is expanded to exactly the bytes denoted by the PackBits rows, for every row encoding, depth, channel count and document version, and the result (bytes, count and error) does not depend on the number of CPUs used; a row that reads beyond its length, that over-fills or under-fills its scan line, is reported as an error without touching other rows' memory.",
 ["inputs","configurations","schedules"],"every row encoding within bounds, every GOMAXPROCS value, all goroutine interleavings of the row decoders",
 "Results are only compared on whole sample files at one CPU count; 16-bit RLE and malformed rows are never reached.",
 ["compress_other.go","compress.go"],[("row partition over goroutines","compress_other.go decodePackBits"),("row decoder","compress_other.go decodePackBitsPerLine")],
 ["CompressionMethod.Decode"])
prop("C08","Raw and ZIP image data are decoded exactly",
 "Raw data is copied verbatim; ZIP data is inflated within the given size hint; ZIP with prediction additionally yields the row-wise running sum of the stored differences (modulo 2 to the depth), every scan line starting afresh; a stream that is short, or whose header or checksum is wrong, is an error and unknown compression methods are rejected.",
 "inputs","every inflated content, width, height, depth and failing point within bounds",
 "Only a few sample files are ZIP compressed, all complete.",
 ["compress.go"],[("inflate","compress.go decodeZLIB"),("prediction","compress.go decodeDelta")],["CompressionMethod.Decode"])
prop("C09","Layer records are decoded field for field",
 "For every layer record the decoder reports exactly the stored rectangle, blend mode, opacity, clipping, flags, channel list, name and order, for both document versions and for positive or negative (merged-alpha) layer counts; a wrong signature is an error.",
 "inputs","every field value of every layer record within bounds on counts and lengths",
 "Golden files fix a few field values.",
 ["layer.go"],[("record parser","layer.go readLayerInfo")],["Decode"])
prop("C10","Layer mask data is decoded for every documented size",
 "For every layer mask block size and every combination of the optional parameters the decoder reports the stored rectangle, default colour, flags, densities, feathers, real flags, real background and real rectangle (signed coordinates included), defaults for absent fields, and stays in step with the rest of the record.",
 "inputs","every mask block of every length up to the bound and every byte value",
 "Sample files contain two or three mask shapes.",
 ["layer.go"],[("mask parser","layer.go readLayerMaskAndAdjustmentLayerData")],["Layer.Mask"])
prop("C11","Additional layer information blocks are kept or interpreted exactly",
 "Every additional information block is returned under its key with exactly its data, with 4- or 8-byte lengths as the key and version demand and with or without padding between blocks; the unicode name, the clipped-blending flag and the section divider (type, blend mode, subtype) are taken from their blocks, with the documented defaults when they are absent.",
 "inputs","every sequence of blocks within bounds, both versions",
 "Sample files only.",
 ["layer.go","util.go"],[("block loop","layer.go readAdditionalLayerInfo"),("LenSize","psd.go AdditionalInfoKey.LenSize"),("divider","layer.go readSectionDividerSetting"),("unicode","util.go readUnicodeString")],
 ["Layer.AdditionalLayerInfo","Layer.UnicodeName","Layer.SectionDividerSetting"])
prop("C12","The layer tree mirrors the section dividers and loses no layer",
 "The flat layer list is turned into a tree in which every ordinary layer and every folder appears exactly once, in file order, inside the folder whose dividers enclose it; unbalanced dividers (a folder end without start, or a start without end) are an error, never a silent loss of layers.",
 "histories","every sequence of divider types up to the bound",
 "Golden trees cover a few nestings, all balanced.",
 ["layer.go"],[("tree builder","layer.go buildTree")],["PSD.Layer"])
prop("C13","Decoded pixels have the exact stored channel values",
 "For every supported colour mode, depth and alpha presence, the picture of the merged image, of every layer and of every channel has the stored bounds and returns at each point the colour whose components are exactly the stored samples at that position (transparency from channel -1 or the extra merged channel when alpha identifiers say so, opaque otherwise).",
 "inputs","every sample value, every rectangle position (negative included) and every point within bounds",
 "Tests compare a few golden pictures.",
 ["picker.go","layer.go","psd.go","imageres.go"],[("pickers","picker.go"),("channel routing","layer.go readLayerImage, psd.go Decode"),("alpha rule","imageres.go hasAlphaID0")],["PSD.Picker","Layer.Picker","Channel.Picker"])
prop("C14","Indexed images use the stored palette and transparent index",
 "For an indexed document the palette has the stored 256 planar entries, the entry named by the transparency index resource is fully transparent and all others are opaque, and each pixel is the palette entry of its stored index (8 bits per pixel; other depths are an error).",
 "inputs","every palette content, transparency index and index value",
 "One indexed sample file.",
 ["psd.go","picker.go"],[("palette","psd.go Config.Palette")],["Config.Palette","PSD.Picker","image.DecodeConfig"])
prop("C15","Decode options only skip work; callbacks are faithful",
 "Skipping layer images or the merged image changes nothing else in the result; the configuration callback is called exactly once with the decoded configuration and its error is returned, and the layer callback is called once per layer in order with the right index and total after the layer's picture is ready.",
 ["inputs","configurations"],"every document within bounds and all option combinations",
 "Options are exercised on single files, not compared with each other.",
 ["psd.go","layer.go"],[("options","psd.go Decode, layer.go readLayerInfo/readLayerImage")],["Decode"])
prop("C16","image.Decode and image.DecodeConfig agree with Decode",
 "For every document, the registered image format decoder succeeds exactly when the native one (without layers) does, with the same pixels, and image.DecodeConfig reports the size and the colour model of the picture image.Decode returns; PSD and PSB signatures are both recognised.",
 "inputs","every document within bounds",
 "One decode test through the image package.",
 ["psd.go"],[("format registration","psd.go init, decode, decodeConfig")],["image.Decode","image.DecodeConfig"])
prop("C17","Colours report valid alpha-premultiplied values",
 "Every colour type of the color package returns components not above alpha and alpha not above 0xffff, equal to its stored (non-premultiplied) components times alpha; full alpha keeps the components exactly, zero alpha yields zero, and float colours stay in range for every float value including negative, infinite and NaN.",
 "inputs","every value of every component of every colour type",
 "The package has almost no tests.",
 ["color/color.go"],[("RGBA methods","color/color.go")],["RGBA()"])
prop("C18","Colour model conversion is total, idempotent and alpha-preserving",
 "Converting any valid colour with a model of the color package never panics, always yields the model's own colour type, returns a colour of that type unchanged, keeps full and zero alpha, keeps every other alpha within rounding, and keeps black black and white white for every alpha; an opaque grey becomes the nearer of black and white in a bitmap; the integer models keep the colour within rounding.",
 "inputs","every valid source colour of every type",
 "The package has almost no tests.",
 ["color/color.go"],[("model functions","color/color.go *Model")],["color.Model.Convert"])
prop("C19","Drawing touches exactly the clipped rectangle",
 "Every blend mode and Porter-Duff operator changes no byte of the destination outside the requested rectangle clipped to destination, source and mask, pairs each destination pixel with the source and mask pixel at the same offset, and never panics, whatever the rectangle, points, strides and (possibly negative) origins.",
 "inputs","every rectangle, source point, mask point and image origin within bounds, for each draw path",
 "Golden tests draw full-size images at the origin.",
 ["blend/draw.go","blend/util.go","blend/zblends.go","blend/zporterduffs.go"],[("clip","blend/util.go clip"),("offset preparation","blend/util.go prepare4to4, prepare1to4")],["Drawer.Draw","Drawer.DrawMask"])
prop("C20","Transparent sources and zero masks leave the destination unchanged",
 "With any blend mode, a fully transparent source pixel or a zero mask value leaves the destination pixel exactly as it was, and drawing onto a fully transparent destination stores the source colour itself (within a level of rounding) with the source's alpha.",
 "inputs","every destination, source and mask pixel value, each blend mode and draw path",
 "Golden images sample a small set of pixel values.",
 ["blend/zblends.go"],[("skip of zero source alpha","blend/zblends.go draw*"),("alpha weights","blend/zblends.go draw*")],["Drawer.DrawMask"])
prop("C21","Opaque blending implements each mode's formula",
 "For opaque source and destination pixels the result of each blend mode is the mode's documented formula on the two colours (within the rounding of 8-bit arithmetic), is opaque, and is the same for every supported image type and for the generic path up to rounding.",
 "inputs","every pair of opaque 8-bit colours, each of the blend modes and draw paths",
 "Golden images sample a small set of colour pairs and several of these tests already fail.",
 ["blend/zblends.go","blend/util.go"],[("mode kernels","blend/zblends.go draw*, blend/util.go")],["Drawer.Draw"])
prop("C22","Alpha is composited by the over rule with opacity",
 "With every blend mode the resulting alpha is source alpha times mask, over destination alpha, within 8-bit rounding, and the resulting premultiplied colour is the sum of the source, destination and blended colours with the weights of the W3C compositing formula (Add clips only the sum); premultiplied destinations stay valid, no colour exceeding its alpha.",
 "inputs","every source, destination and mask alpha and colour value, each draw path",
 "Golden images sample a small set of alpha pairs.",
 ["blend/zblends.go"],[("alpha weights","blend/zblends.go draw*")],["Drawer.DrawMask"])
prop("C23","Porter-Duff operators follow their definitions",
 "Each of the twelve Porter-Duff operators computes the result alpha and colour of its definition (source and destination fractions) for every pixel pair within 8-bit rounding, for RGBA and NRGBA destinations and for RGBA, NRGBA, Alpha and Uniform sources as well as for generic images (an Alpha source counts as black on the RGBA and NRGBA destinations).",
 "inputs","every source, destination and mask value, each operator and draw path",
 "Golden images sample a small set of pixel values.",
 ["blend/zporterduffs.go"],[("operator kernels","blend/zporterduffs.go")],["Drawer.Draw"])
prop("C24","Parallel drawing equals sequential drawing and is race-free",
 "The picture drawn does not depend on the number of CPUs: the rows are split so that each is drawn exactly once and no two goroutines access the same byte with at least one writing, for every height and CPU count, for distinct source and destination.",
 ["schedules","configurations"],"all heights, GOMAXPROCS values and goroutine interleavings within bounds, every draw path",
 "Tests run at one CPU count and compare whole pictures; the race detector only sees the schedule that happened.",
 ["blend/draw.go"],[("row partition","blend/draw.go Parallel")],["Drawer.Draw"])
prop("C25","Overlapping self-copy reads unmodified source pixels",
 "Drawing an image onto itself with overlapping rectangles gives the result of first copying the source area, in every direction of overlap.",
 "inputs","every rectangle and source point within bounds",
 "No test draws an image onto itself.",
 ["blend/util.go","blend/draw.go"],[("processing order","blend/util.go prepare4to4, processBackward")],["Drawer.Draw"])
prop("C26","Blend mode names and keys map one to one",
 "Every four-byte blend mode key stored in a file is reported unchanged, each of the 28 documented keys has its own documented name, different keys never share a name, and unknown keys are reported as unknown with the key preserved.",
 "inputs","every four-byte key",
 "Never tested.",
 ["blendmode.go","composite/draw.go"],[("String","blendmode.go BlendMode.String")],["BlendMode.String"])
prop("C27","Cutting a layer image into tiles preserves every pixel",
 "Splitting a layer or mask picture into tiles of any size and position loses, duplicates or moves no pixel: composing the tiles back gives the picture at its place, negative coordinates included.",
 "inputs","every rectangle position (negative included), tile size, and pixel content within bounds",
 "composite's tests render two whole files.",
 ["composite/layerimage.go"],[("tile cutting","composite/layerimage.go newTiledImage")],["Renderer.Render"])
prop("C28","Rendering equals sequential layer compositing",
 "Rendering a tree of layers equals drawing the visible layers bottom to top with their opacity, blend mode and masks, with groups isolated unless pass-through and with clipped layers limited to their base layer, independent of tile size and CPU count.",
 ["inputs","configurations"],"every small layer tree and attribute assignment within bounds",
 "composite's tests render two whole files.",
 ["composite/builder.go","composite/draw.go","composite/renderer.go"],[("builder","composite/builder.go"),("renderer","composite/renderer.go")],["Renderer.Render"])
prop("C29","Incremental rendering equals a fresh rendering",
 "After any sequence of layer attribute changes announced with SetDirty, an incremental rendering shows exactly the same picture as a fresh renderer would, and an aborted rendering does not corrupt later ones; cloned trees share no mutable state with their original.",
 "histories","every sequence of attribute changes and renderings within bounds",
 "composite's tests never change a layer after rendering.",
 ["composite/renderer.go","composite/cloner.go"],[("dirty tracking","composite/renderer.go"),("clone","composite/cloner.go")],["Renderer.RenderDiff"])
prop("C30","Thumbnails show exactly the visible part of a layer",
 "The thumbnail of a layer is made of exactly the smallest rectangle around its visible pixels, unchanged, and has that rectangle's shape with the requested size as its longer side (at least one pixel wide and high); a layer without visible pixels has none; a thumbnail sheet shows the thumbnail of every layer once, in cells that do not overlap, centred and on the sheet.",
 "inputs","every layer picture, position, tile size, thumbnail size and CPU count within bounds",
 "No test makes a thumbnail.",
 ["composite/thumbnail.go"],[("trimming","composite/thumbnail.go trimUnusedArea"),("sheet","composite/thumbnail.go thumbnailSheetInner")],["Tree.Thumbnail","Tree.ThumbnailSheet"])
prop("C31","The compositor survives any picture and any cancellation",
 "composite.New refuses or accepts every decodable picture, and what it accepts renders, without panicking: unknown blend modes, missing channels, odd rectangles, masks and section dividers included; only 8-bit RGB pictures are accepted; canceling New, Transform or Thumbnails at any point neither hangs nor yields a tree that lacks layers: either the complete result or ErrAborted.",
 ["inputs","schedules"],"every combination of layer parts and every cancellation point within bounds",
 "composite's tests render two intact files and never cancel.",
 ["composite/layer.go","composite/builder.go","composite/context.go","composite/draw.go"],[("canvas workers","composite/layer.go createCanvasInner"),("abort","composite/context.go Wait")],["composite.New","Renderer.Render"])
prop("C32","The WebAssembly build decodes RLE data alike",
 "In the WebAssembly build, which has its own implementation, RLE compressed image data is expanded to exactly the bytes denoted by the PackBits rows, for every row encoding, depth, channel count and document version, with the same byte count as elsewhere; a row that reads beyond its length, or over-fills or under-fills its scan line, is an error that leaves other memory alone.",
 ["inputs","configurations"],"every row encoding within bounds, with the file that only GOOS=js GOARCH=wasm compiles",
 "compress_wasm_js.go is not compiled on the platforms the tests run on.",
 ["compress_wasm_js.go","compress.go"],[("row lengths and offsets","compress_wasm_js.go decodePackBits"),("row decoder","compress_wasm_js.go decodePackBitsPerLine")],["CompressionMethod.Decode"])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
