package main

import (
	"sync"

	"verif/core"
	"verif/vrt"
)

// gate keeps executions apart when a race has to be attributed to one of them.
var gate sync.RWMutex

// controlled runs one execution of a case: prepare makes the threads, and judge what to say about the outcome.
func controlled(c *core.Choices, prepare func() ([]func(), func(res vrt.Result) error)) error {
	once := func(c *core.Choices) (error, int) {
		before := vrt.Races()
		bodies, judge := prepare()
		res := vrt.Run(c.Trail(), c.Limit(), bodies...)
		c.Adopt(res.Trail, res.Width)
		var err error
		switch {
		case res.Panic != "":
			err = core.V("a thread panics: %s", res.Panic)
		case res.Deadlock:
			err = core.V("the threads deadlock")
		default:
			err = judge(res)
		}
		return err, vrt.Races() - before
	}
	gate.RLock()
	trail := append([]int{}, c.Trail()...)
	err, races := once(c)
	gate.RUnlock()
	if err != nil || races == 0 {
		return err
	}
	// Somebody raced. Was it this case?
	gate.Lock()
	defer gate.Unlock()
	c2 := *c
	c2.Adopt(trail, nil)
	err, races = once(&c2)
	if err == nil && races > 0 {
		err = core.V("data race:\n%s", vrt.LastRace())
	}
	return err
}
