package main

import (
	"verif/harness/h/comph"
	"verif/harness/sym"
)

func main() { sym.Main(comph.Table) }
