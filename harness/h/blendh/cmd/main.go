package main

import (
	"verif/harness/h/blendh"
	"verif/harness/sym"
)

func main() { sym.Main(blendh.Table) }
