package main

import (
	"context"

	toolscache "k8s.io/client-go/tools/cache"

	"verif/core"
)

// events counts the events a view target's watchers see until stop is called (always 0 for native
// targets, whose versions tell).
func (e *env) events() (*int, func()) {
	n := 0
	if e.vc == nil {
		return &n, func() {}
	}
	inf, err := e.vc.GetInformerForKind(context.Background(), e.gvk)
	if err != nil {
		core.Abort("%v", err)
	}
	reg, err := inf.AddEventHandler(toolscache.ResourceEventHandlerDetailedFuncs{
		AddFunc: func(_ any, initial bool) {
			if !initial {
				n++
			}
		},
		UpdateFunc: func(_, _ any) { n++ },
		DeleteFunc: func(_ any) { n++ },
	})
	if err != nil {
		core.Abort("%v", err)
	}
	return &n, func() { inf.RemoveEventHandler(reg) }
}
