package main

import (
	"verif/harness/h/psdh"
	"verif/harness/sym"
)

func main() { sym.Main(psdh.Table) }
