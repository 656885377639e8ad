// Command conc decides the properties of concurrent use, on the real code under a controlled scheduler.
package main

import "verif/core"

func main() { core.Main(checkP17) }
