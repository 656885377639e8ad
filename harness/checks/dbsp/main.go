// Command dbsp decides the properties of the incremental computation engine: graph rewriting and
// Z-set algebra.
package main

import (
	"verif/core"
)

func main() { core.Main(checkP04, checkP05) }
