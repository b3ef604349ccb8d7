// Package psdh holds the harnesses for the decoder.
package psdh

// Table lists the harnesses.
var Table = map[string]func(){
	"AnyBlocks": AnyBlocks,
	"AnyConfig": AnyConfig,
	"AnyData": AnyData,
	"AnyImage": AnyImage,
	"AnyKnownBlocks": AnyKnownBlocks,
	"AnyLayerImage": AnyLayerImage,
	"AnyLayerRect": AnyLayerRect,
	"AnyLengths": AnyLengths,
	"AnyMaskImage": AnyMaskImage,
	"AnyMerged": AnyMerged,
	"AnyResourceData": AnyResourceData,
	"AnyResources": AnyResources,
	"AnySections": AnySections,
	"AnyWindow": AnyWindow,
	"BlockSig": BlockSig,
	"ChannelIDs": ChannelIDs,
	"Concatenated": Concatenated,
	"ConfigError": ConfigError,
	"Counts": Counts,
	"DeepTree": DeepTree,
	"DocBlocks": DocBlocks,
	"HeaderExact": HeaderExact,
	"ImageDecode": ImageDecode,
	"ImageDecodeLayers": ImageDecodeLayers,
	"IndexedPixels": IndexedPixels,
	"InfoFlags": InfoFlags,
	"InfoLayers": InfoLayers,
	"LayerBlocks": LayerBlocks,
	"LayerNames": LayerNames,
	"LayerPackBits": LayerPackBits,
	"LayerPixels": LayerPixels,
	"LayerRecords": LayerRecords,
	"LayerSig": LayerSig,
	"Masks": Masks,
	"MergedMethods": MergedMethods,
	"MergedPixels": MergedPixels,
	"MergedSizes": MergedSizes,
	"Methods": Methods,
	"ModeKeys": ModeKeys,
	"ModeNames": ModeNames,
	"ModeNamesDistinct": ModeNamesDistinct,
	"Options": Options,
	"PackBits": PackBits,
	"PackBitsCounts": PackBitsCounts,
	"PackBitsLong": PackBitsLong,
	"PackBitsSplit": PackBitsSplit,
	"PaletteModes": PaletteModes,
	"RawData": RawData,
	"ReaderBroken": ReaderBroken,
	"ReaderConfig": ReaderConfig,
	"ReaderCut": ReaderCut,
	"ReaderSplit": ReaderSplit,
	"ReaderZip": ReaderZip,
	"Readers": Readers,
	"ResourceLong": ResourceLong,
	"Resources": Resources,
	"Tree": Tree,
	"Truncated": Truncated,
	"TruncatedAny": TruncatedAny,
	"UnicodeName": UnicodeName,
	"WideTree": WideTree,
	"Zip": Zip,
	"ZipAny": ZipAny,
	"ZipChecksum": ZipChecksum,
	"ZipShort": ZipShort,
}
