package main

import (
	"fmt"
	"strings"

	"verif/core"
	. "verif/vobj"
	"verif/vrt"
)

func names(as []action) string {
	var s []string
	for _, a := range as {
		n := a.name
		if a.key.Name != "" {
			n += " " + a.key.Name
		}
		s = append(s, n)
	}
	return strings.Join(s, ", ")
}

// explore runs all schedules of all scenarios.
func explore(r *core.Run, space string, bound int, scs []*scenario) {
	before := len(scs)
	counts := make([]int, len(scs))
	r.Parallel(len(scs), func(i int) {
		sc := scs[i]
		counts[i] = r.Explore(space+"/"+sc.name, bound, func(t *core.T, c *core.Choices) error {
			return controlled(c, func() ([]func(), func(vrt.Result) error) { return sc.prepare(t) })
		})
	})
	sum := 0
	for _, n := range counts {
		sum += n
	}
	r.Space(space, "scenarios", before, "preemption_bound", bound, "schedules", sum)
}

func scen(initName string, init map[string]M, pre []int, threads ...[]action) *scenario {
	var n []string
	for _, t := range threads {
		n = append(n, names(t))
	}
	return &scenario{name: fmt.Sprintf("%s handlers%v: %s", initName, pre, strings.Join(n, " || ")), init: init, pre: pre, threads: threads}
}

func runP17(r *core.Run) {
	if !vrt.Race {
		r.Note("built without the race detector")
	}
	empty, withA := map[string]M{}, map[string]M{"x": cA}
	inits := []struct {
		name string
		m    map[string]M
	}{{"empty", empty}, {"x=A", withA}}

	writes := []action{
		create("A", keyX, cA), create("B", keyX, cB), add("C", keyX, cC), update("B", keyX, cB), update("A", keyX, cA), store("B", keyX, cB),
		patch("spec.x", keyX, `{"spec":{"x":9}}`), patch("label", keyX, `{"metadata":{"labels":{"z":"1"}}}`), status("S", keyX, `{"s":1}`), del(keyX),
	}
	others := []action{get(keyX), list(), create("A", keyY, cA), del(keyY)}
	hs := func(n int) []action {
		return []action{attach(n), detach(0), detach(1), drop(1), drop(2), stop(1), stop(2)}
	}

	// All pairs of operations.
	var pairs []*scenario
	for _, in := range inits {
		for i, a := range writes {
			for _, b := range writes[i:] {
				pairs = append(pairs, scen(in.name, in.m, []int{0, 1}, []action{a}, []action{b}))
			}
			for _, b := range append(append([]action{}, others...), hs(2)...) {
				pairs = append(pairs, scen(in.name, in.m, []int{0, 1}, []action{a}, []action{b}))
			}
		}
		for _, a := range hs(2) {
			for _, b := range hs(3) {
				if a.attach == 0 && b.attach == 0 && a.detach == b.detach && a.detach > 0 {
					continue
				}
				pairs = append(pairs, scen(in.name, in.m, []int{0, 1}, []action{a}, []action{b}))
			}
		}
	}
	explore(r, "pairs", r.Pick(2, 3), pairs)

	// Operators that come and go.
	var ops []*scenario
	for _, pre := range [][]int{{1, 2, 3}, {3, 1, 2}, {2, 3, 1}} {
		goes := []action{detach(0), detach(1), drop(1), drop(2), stop(1), stop(2)}
		for i, a := range goes {
			for _, b := range append(goes[i:], drop(3), stop(3), attach(3), update("B", keyX, cB)) {
				if a.detach == b.detach && a.detach > 0 {
					continue
				}
				ops = append(ops, scen("x=A", withA, pre, []action{a}, []action{b}))
			}
		}
	}
	explore(r, "operators", r.Pick(2, 3), ops)

	// A storage that has never seen the kind, and no informers.
	var cold []*scenario
	first := []action{create("A", keyX, cA), add("B", keyX, cB), attach(0), get(keyX), list(), del(keyX), update("A", keyX, cA), store("B", keyX, cB), drop(1), stop(2)}
	for i, a := range first {
		for _, b := range first[i:] {
			if b.attach > 0 && a.attach > 0 {
				b = attach(1)
			}
			cold = append(cold, scen("cold", empty, nil, []action{a}, []action{b}))
		}
	}
	explore(r, "cold", r.Pick(2, 3), cold)

	// Watches.
	var ws []*scenario
	for _, in := range inits {
		for _, a := range [][]action{{watching(1)}, {unwatch(0, false)}, {unwatch(0, true)}, {watching(1), unwatch(1, false)}, {watching(1), unwatch(1, true)}} {
			for _, b := range append(append([]action{}, writes...), create("A", keyY, cA), attach(2), watching(2), unwatch(0, false), stop(2)) {
				ws = append(ws, scen(in.name, in.m, []int{10}, a, []action{b}))
			}
		}
	}
	explore(r, "watches", r.Pick(2, 3), ws)

	// Two operations in each thread.
	var quads []*scenario
	some := []action{create("B", keyX, cB), update("B", keyX, cB), patch("spec.x", keyX, `{"spec":{"x":9}}`), del(keyX), create("A", keyY, cA), get(keyX)}
	seqs := [][]action{}
	for _, a := range some {
		for _, b := range some {
			seqs = append(seqs, []action{a, b})
		}
	}
	seqs = append(seqs, []action{attach(1), detach(1)}, []action{attach(1), del(keyX)}, []action{del(keyX), attach(1)}, []action{drop(1), attach(1)}, []action{detach(0), attach(1)})
	for _, in := range inits {
		for i, a := range seqs {
			for _, b := range seqs[i:] {
				if len(names(a)) > 0 && usesHandler(a) && usesHandler(b) {
					continue
				}
				quads = append(quads, scen(in.name, in.m, []int{2}, a, b))
			}
		}
	}
	explore(r, "two each", r.Pick(1, 2), quads)

	// Three threads.
	var threes []*scenario
	three := []action{create("B", keyX, cB), update("B", keyX, cB), patch("spec.x", keyX, `{"spec":{"x":9}}`), patch("label", keyX, `{"metadata":{"labels":{"z":"1"}}}`), status("S", keyX, `{"s":1}`), del(keyX), attach(1), get(keyX)}
	for _, in := range inits {
		for i, a := range three {
			for j := i; j < len(three); j++ {
				for k := j; k < len(three); k++ {
					ts := [][]action{{a}, {three[j]}, {three[k]}}
					n := 0
					for _, t := range ts {
						if t[0].attach > 0 {
							n++
							t[0] = attach(n)
						}
					}
					threes = append(threes, scen(in.name, in.m, []int{2}, ts...))
				}
			}
		}
	}
	explore(r, "three", r.Pick(1, 2), threes)
}

func usesHandler(as []action) bool {
	for _, a := range as {
		if a.attach > 0 || a.detach > 0 {
			return true
		}
	}
	return false
}
