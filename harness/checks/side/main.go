// Command side checks what puts native kinds and view kinds side by side: the client, the cache, the
// discovery and the mappers made of a part for either.
package main

import "verif/core"

func main() { core.Main(checkP23, checkP24) }
