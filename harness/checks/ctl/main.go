// Command ctl decides the properties of targets, sources and controllers, on the real code over an
// in-memory API server and the real view cache.
package main

import (
	"reflect"
	"time"

	"k8s.io/client-go/util/retry"

	"verif/core"
)

func main() {
	retry.DefaultRetry.Duration = 0
	retry.DefaultBackoff.Duration = 0
	core.Main(checkP10, checkP11, checkP12, checkP14)
}

var _ = time.Now
var _ = reflect.DeepEqual
