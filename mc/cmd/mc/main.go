package main

import (
	_ "verifmc/checks"
	"verifmc/core"
)

func main() { core.Main() }
