// Command api decides the properties of the embedded API server and its access control, on the real
// code, which it drives through HTTP.
package main

import "verif/core"

func main() { core.Main(checkP18, checkP19, checkP20, checkP22) }
