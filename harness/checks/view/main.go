// Command view decides the properties of the view cache, on the real code.
package main

import "verif/core"

func main() { core.Main(checkP15, checkP16) }
