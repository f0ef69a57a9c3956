// check is the model checker binary: harnesses plus explorer.
package main

import (
	_ "vh/harness"
	"vh/mc"
)

func main() { mc.Main() }
