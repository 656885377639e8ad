// Command pipe decides the properties of incremental pipeline evaluation, on the real pipelines.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/l7mp/dcontroller/pkg/object"

	"verif/core"
	"verif/ref"
	"verif/vrt"
)

func main() {
	core.Main(checkP01, checkP02, checkP03, checkP06, checkP13)
}

var checkP01 = &core.Check{
	Property: "P01",
	Level:    "model_checking",
	Rule: "a case is one maximal event history of one pipeline under one map-iteration order; after every event the " +
		"target reached by applying the emitted changes is compared with a from-scratch evaluation by an independent " +
		"reference; distinct_nontrivial counts distinct sequences of targets",
	Run: func(r *core.Run) { runHistories(r, false) },
}

var checkP02 = &core.Check{
	Property: "P02",
	Level:    "model_checking",
	Rule:     "as P01; every emitted batch is checked against the target before it",
	Run:      func(r *core.Run) { runHistories(r, true) },
}

func runHistories(r *core.Run, stream bool) {
	for _, order := range []int{vrt.Asc, vrt.Desc} {
		vrt.SetOrder(order)
		for _, s := range scenarios() {
			s.init()
			depth := r.Pick(s.depth[0], s.depth[1])
			var hs [][]event
			s.histories(depth, false, func(h []event) { hs = append(hs, h) })
			s := s
			r.Parallel(len(hs), func(i int) {
				h := hs[i]
				id := fmt.Sprintf("%s order=%d: %s", s.name, order, s.histString(h))
				r.Exec(id, map[string]any{"scenario": s.name, "pipeline": s.ops, "history": s.histString(h), "map_order": order},
					func(t *core.T) error { return s.run(t, h, stream) })
			})
			r.Space(s.name, "map_order", order, "depth", depth, "histories", len(hs))
		}
	}
}

func (s *scenario) run(t *core.T, h []event, stream bool) error {
	p, err := s.pipeline()
	if err != nil {
		return core.V("pipeline %s does not build: %v", s.ops, err)
	}
	st := make(state, len(s.slots))
	for i := range st {
		st[i] = -1
	}
	store := map[string]string{}
	prev := s.expect(st)
	for n, e := range h {
		d := s.delta(e, st)
		same := e.to >= 0 && st[e.slot] == e.to
		st[e.slot] = e.to
		exp := s.expect(st)
		if exp.dup || exp.err != nil {
			return nil // results not uniquely named (or not evaluable): outside the property
		}
		out, err := p.Evaluate(d)
		if err != nil {
			return core.V("after %s: evaluation failed: %v", s.histString(h[:n+1]), err)
		}
		if stream {
			if err := s.checkStream(out, store, same, prev, exp); err != nil {
				return core.V("after %s: %v", s.histString(h[:n+1]), err)
			}
		}
		apply(store, out)
		if !exp.match(store) && !stream {
			return core.V("after %s: target is {%s}, from-scratch evaluation gives %s", s.histString(h[:n+1]), fmtMap(store), exp)
		}
		prev = exp
		t.Step(s.name + "|" + st.key() + "|" + fmtMap(store))
		t.Out("%s|", fmtMap(store))
	}
	if stream {
		// the pipeline's own idea of the target agrees with what a consumer of the stream has
		got := map[string]string{}
		for _, o := range p.GetTargetCache().List() {
			got[objKey(o)] = canonObj(o)
		}
		if !eqMap(got, store) {
			return core.V("after %s: consumer has {%s}, pipeline believes {%s}", s.histString(h), fmtMap(store), fmtMap(got))
		}
	}
	return nil
}

func apply(store map[string]string, out []object.Delta) {
	for _, d := range out {
		if d.Type == object.Deleted {
			delete(store, objKey(d.Object))
		} else {
			store[objKey(d.Object)] = canonObj(d.Object)
		}
	}
}

func (s *scenario) checkStream(out []object.Delta, store map[string]string, same bool, prev, exp *expected) error {
	seen := map[string]bool{}
	upsert := false
	for _, d := range out {
		if d.Object == nil {
			return fmt.Errorf("change without an object")
		}
		k := objKey(d.Object)
		if d.Object.GetName() == "" {
			return fmt.Errorf("change without a name")
		}
		if d.Object.GroupVersionKind() != s.target {
			return fmt.Errorf("change %s has kind %s, expected %s", k, d.Object.GroupVersionKind(), s.target)
		}
		if seen[k] {
			return fmt.Errorf("several changes for %s in one batch", k)
		}
		seen[k] = true
		switch d.Type {
		case object.Deleted:
			if upsert {
				return fmt.Errorf("deletion of %s after an upsert", k)
			}
			if _, ok := store[k]; !ok {
				return fmt.Errorf("deletion of %s, which does not exist in the target", k)
			}
		case object.Upserted:
			upsert = true
		default:
			return fmt.Errorf("unexpected change type %q for %s", d.Type, k)
		}
	}
	if same && len(out) > 0 {
		return fmt.Errorf("an event that changes nothing produced %d changes", len(out))
	}
	if len(prev.alts) == 1 && len(exp.alts) == 1 && eqMap(prev.alts[0], exp.alts[0]) && len(out) > 0 {
		return fmt.Errorf("the result did not change but %d changes were emitted: %v", len(out), out)
	}
	return nil
}

var checkP03 = &core.Check{
	Property: "P03",
	Level:    "model_checking",
	Rule: "a case is one maximal history of source events interleaved with resyncs, before each of which the target " +
		"is left alone, loses an object, has one altered, has a foreign one added, or is emptied, under one map order; " +
		"the target reached by applying the emitted changes is compared with a from-scratch evaluation",
	Run: func(r *core.Run) {
		for _, order := range []int{vrt.Asc, vrt.Desc} {
			vrt.SetOrder(order)
			for _, s := range scenarios() {
				s.init()
				depth := r.Pick(s.depth[0], s.depth[1])
				if !s.narrow {
					depth = min(depth, r.Pick(4, 5))
				}
				var hs [][]event
				s.histories(depth, true, func(h []event) {
					for _, e := range h {
						if e.sync {
							hs = append(hs, h)
							return
						}
					}
				})
				s := s
				r.Parallel(len(hs), func(i int) {
					h := hs[i]
					id := fmt.Sprintf("%s order=%d: %s", s.name, order, s.histString(h))
					r.Exec(id, map[string]any{"scenario": s.name, "pipeline": s.ops, "history": s.histString(h), "map_order": order},
						func(t *core.T) error { return s.runSync(t, h) })
				})
				r.Space(s.name, "map_order", order, "depth", depth, "histories", len(hs))
			}
		}
	},
}

func (s *scenario) runSync(t *core.T, h []event) error {
	p, err := s.pipeline()
	if err != nil {
		return core.V("pipeline %s does not build: %v", s.ops, err)
	}
	st := make(state, len(s.slots))
	for i := range st {
		st[i] = -1
	}
	store := map[string]string{}
	tc := p.GetTargetCache()
	for n, e := range h {
		var out []object.Delta
		if e.sync {
			objs := tc.List()
			sort.Slice(objs, func(i, j int) bool { return objKey(objs[i]) < objKey(objs[j]) })
			switch {
			case e.drift == 1 && len(objs) > 0:
				tc.Delete(objs[0])
				delete(store, objKey(objs[0]))
			case e.drift == 2 && len(objs) > 0:
				o := object.DeepCopy(objs[len(objs)-1])
				o.UnstructuredContent()["drifted"] = "yes"
				tc.Update(o)
				store[objKey(o)] = canonObj(o)
			case e.drift == 3:
				o := object.New()
				o.SetGroupVersionKind(s.target)
				o.SetName("foreign")
				o.SetNamespace("zz")
				tc.Add(o)
				store[objKey(o)] = canonObj(o)
			case e.drift == 4 && len(objs) > 0:
				for _, o := range objs {
					tc.Delete(o)
				}
				store = map[string]string{}
			}
			before := map[string]bool{}
			for k := range store {
				before[k] = true
			}
			out, err = p.Sync()
			if err != nil {
				return core.V("after %s: resync failed: %v", s.histString(h[:n+1]), err)
			}
			up := false
			seen := map[string]bool{}
			for _, d := range out {
				k := objKey(d.Object)
				if seen[k] {
					return core.V("after %s: several changes for %s in one resync", s.histString(h[:n+1]), k)
				}
				seen[k] = true
				if d.Object.GroupVersionKind() != s.target {
					return core.V("after %s: change %s has kind %s", s.histString(h[:n+1]), k, d.Object.GroupVersionKind())
				}
				switch d.Type {
				case object.Deleted:
					if up || !before[k] {
						return core.V("after %s: resync emits a misplaced deletion of %s", s.histString(h[:n+1]), k)
					}
				case object.Upserted:
					up = true
				default:
					return core.V("after %s: unexpected change %s", s.histString(h[:n+1]), d.Type)
				}
			}
		} else {
			d := s.delta(e, st)
			st[e.slot] = e.to
			if exp := s.expect(st); exp.dup || exp.err != nil {
				return nil
			}
			out, err = p.Evaluate(d)
			if err != nil {
				return core.V("after %s: evaluation failed: %v", s.histString(h[:n+1]), err)
			}
		}
		apply(store, out)
		exp := s.expect(st)
		if !exp.match(store) {
			return core.V("after %s: target is {%s}, from-scratch evaluation gives %s", s.histString(h[:n+1]), fmtMap(store), exp)
		}
		t.Step(s.name + "|" + st.key() + "|" + fmtMap(store))
		t.Out("%s|", fmtMap(store))
	}
	got := map[string]string{}
	for _, o := range tc.List() {
		got[objKey(o)] = canonObj(o)
	}
	if !eqMap(got, store) {
		return core.V("after %s: consumer has {%s}, pipeline believes {%s}", s.histString(h), fmtMap(store), fmtMap(got))
	}
	return nil
}

var checkP06 = &core.Check{
	Property: "P06",
	Level:    "model_checking",
	Rule: "a case is one maximal history of source events and resyncs, run twice: undisturbed, and with every input and " +
		"every emitted object overwritten after use while a second pipeline gets the same event objects; every input " +
		"must be left as it was and the outputs of the two runs must be the same",
	Run: func(r *core.Run) {
		for _, order := range []int{vrt.Asc, vrt.Desc} {
			vrt.SetOrder(order)
			for _, s := range scenarios() {
				s.init()
				depth := min(r.Pick(s.depth[0], s.depth[1]), r.Pick(3, 4))
				var hs [][]event
				s.histories(depth, false, func(h []event) { hs = append(hs, append(h, event{sync: true})) })
				s := s
				r.Parallel(len(hs), func(i int) {
					h := hs[i]
					id := fmt.Sprintf("%s order=%d: %s", s.name, order, s.histString(h))
					r.Exec(id, map[string]any{"scenario": s.name, "pipeline": s.ops, "history": s.histString(h), "map_order": order},
						func(t *core.T) error { return s.runIsolation(t, h) })
				})
				r.Space(s.name, "map_order", order, "depth", depth, "histories", len(hs))
			}
		}
	},
}

// scribble overwrites everything reachable from a value.
func scribble(v any) {
	switch x := v.(type) {
	case map[string]any:
		for _, e := range x {
			scribble(e)
		}
		for k := range x {
			x[k] = "scribbled"
		}
		x["scribbled"] = true
	case []any:
		for i := range x {
			scribble(x[i])
			x[i] = "scribbled"
		}
	}
}

func deltasString(out []object.Delta) string {
	ss := []string{}
	for _, d := range out {
		ss = append(ss, string(d.Type)+" "+objKey(d.Object)+" "+canonObj(d.Object))
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

func (s *scenario) runIsolation(t *core.T, h []event) error {
	run := func(disturb bool) ([]string, error) {
		p, err := s.pipeline()
		if err != nil {
			return nil, core.V("pipeline %s does not build: %v", s.ops, err)
		}
		q, err := s.pipeline()
		if err != nil {
			return nil, core.V("pipeline %s does not build: %v", s.ops, err)
		}
		st := make(state, len(s.slots))
		for i := range st {
			st[i] = -1
		}
		var res []string
		for n, e := range h {
			var out, out2 []object.Delta
			if e.sync {
				out, err = p.Sync()
			} else {
				d := s.delta(e, st)
				st[e.slot] = e.to
				if exp := s.expect(st); exp.dup || exp.err != nil {
					return res, nil
				}
				before := canonObj(d.Object)
				out, err = p.Evaluate(d)
				if canonObj(d.Object) != before {
					return nil, core.V("after %s: the event's object was changed from %s to %s", s.histString(h[:n+1]), before, canonObj(d.Object))
				}
				if disturb && err == nil {
					for i := range out {
						before = canonObj(out[i].Object)
						out2, err = q.Evaluate(d)
						if canonObj(out[i].Object) != before {
							return nil, core.V("after %s: an emitted object was changed by another pipeline", s.histString(h[:n+1]))
						}
						break
					}
					if len(out) == 0 {
						out2, err = q.Evaluate(d)
					}
					scribble(d.Object.UnstructuredContent())
				}
			}
			if err != nil {
				return nil, core.V("after %s: evaluation failed: %v", s.histString(h[:n+1]), err)
			}
			res = append(res, deltasString(out))
			t.Step(s.name + "|" + st.key() + "|" + deltasString(out))
			if disturb {
				if !e.sync && deltasString(out2) != deltasString(out) {
					return nil, core.V("after %s: two pipelines disagree: %s, %s", s.histString(h[:n+1]), deltasString(out), deltasString(out2))
				}
				for _, d := range append(out, out2...) {
					scribble(d.Object.UnstructuredContent())
				}
			}
		}
		return res, nil
	}
	a, err := run(false)
	if err != nil {
		return err
	}
	b, err := run(true)
	if err != nil {
		return err
	}
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return core.V("outputs differ when inputs and outputs are overwritten after use: %v, undisturbed %v", b, a)
	}
	t.Out("%v", a)
	return nil
}

var _ = ref.Canon
