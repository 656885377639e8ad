// Command sys checks the program as a whole: operator custom resources, the operators made from
// them, the storage they share and the API server, against an in-memory Kubernetes.
package main

import "verif/core"

func main() { core.Main(checkP21, checkP28) }
