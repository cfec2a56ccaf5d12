// genschema prints the property schema of the current tree. It was run once;
// its reviewed output is checks/schema.json. No check runs it.
package main

import (
	"os"

	"verifmc/checks"
)

func main() { os.Stdout.Write(checks.GenSchema()) }
