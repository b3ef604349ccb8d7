package main

import (
	"verif/harness/h/colorh"
	"verif/harness/sym"
)

func main() { sym.Main(colorh.Table) }
