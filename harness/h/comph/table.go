// Package comph holds the harnesses for the composite package.
package comph

// Table lists the harnesses.
var Table = map[string]func(){
	"AnyConfig": AnyConfig,
	"AnyPicture": AnyPicture,
	"AnyTree": AnyTree,
	"Cancel": Cancel,
	"CancelTransform": CancelTransform,
	"Clones": Clones,
	"Histories": Histories,
	"LayerTiles": LayerTiles,
	"MaskTiles": MaskTiles,
	"Modes": Modes,
	"Moved": Moved,
	"Parallel": Parallel,
	"Sheet": Sheet,
	"Thumbnail": Thumbnail,
	"TilesParallel": TilesParallel,
	"WhiteMask": WhiteMask,
}
