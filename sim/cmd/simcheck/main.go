// Command simcheck runs the simulations that decide the properties.
package main

import (
	"verifsim/harness"
	_ "verifsim/props"
)

func main() { harness.Main() }
