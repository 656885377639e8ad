package main

import (
	"fmt"
	"strings"

	"github.com/l7mp/dcontroller/pkg/object"

	"verif/core"
	"verif/vrt"
)

// rejScenarios have contents that some part of the pipeline cannot process.
func rejScenarios() []*scenario {
	one := []string{"A"}
	ab := []string{"A", "B"}
	a := func(cs []map[string]any) []slot {
		return []slot{{kind: "A", ns: "n1", name: "x", contents: cs}, {kind: "A", ns: "n2", name: "y", contents: cs}}
	}
	var out []*scenario
	add := func(s *scenario) {
		if s.depth[0] == 0 {
			s.depth = [2]int{4, 5}
		}
		out = append(out, s)
	}
	add(&scenario{name: "rej-name", kinds: one, slots: a(c(`{"spec":{"n":"p","v":1}}`, `{"spec":{"n":"p","v":2}}`, `{"spec":{"v":1}}`, `{"spec":{"n":7}}`, `{"spec":{"n":""}}`))[:1],
		ops: `[{"@project":{"metadata":{"name":"$.spec.n"},"v":"$.spec.v"}}]`, depth: [2]int{4, 5}})
	add(&scenario{name: "rej-nonmap-metadata", kinds: one, slots: a(c(`{"spec":{"m":{"name":"p"}}}`, `{"spec":{"m":{"name":"p","namespace":"s"}}}`, `{"spec":{"m":"x"}}`, `{"spec":{"m":{"name":"p","namespace":3}}}`, `{}`))[:1],
		ops: `[{"@project":{"metadata":"$.spec.m"}}]`, depth: [2]int{4, 5}})
	add(&scenario{name: "rej-select", kinds: one, slots: a(c(`{"spec":{"v":1}}`, `{"spec":{"v":5}}`, `{"spec":{"v":"s"}}`)),
		ops: `[{"@select":{"@gt":["$.spec.v",2]}}]`})
	add(&scenario{name: "rej-late", kinds: one, slots: a(c(`{"spec":{"g":"p","v":1}}`, `{"spec":{"g":"q","v":2}}`, `{"spec":{"g":"p","v":"s"}}`)),
		ops: `[{"@gather":["$.spec.g","$.spec.v"]},{"@project":{"metadata":{"name":"$.spec.g","namespace":"d"},"s":{"@sum":"$.spec.v"}}}]`})
	add(&scenario{name: "rej-unwind", kinds: one, slots: a(c(`{"spec":{"l":[1,2]}}`, `{"spec":{"l":[3]}}`, `{"spec":{"l":[1,"s"]}}`)),
		ops: `[{"@unwind":"$.spec.l"},{"@project":{"metadata":"$.metadata","v":{"@add":["$.spec.l",1]}}}]`})
	add(&scenario{name: "rej-unwind-gather", kinds: one, slots: a(c(`{"spec":{"g":"p","l":[1,2]}}`, `{"spec":{"g":"p","l":[3]}}`, `{"spec":{"g":"p","l":[1,"s"]}}`)),
		ops: `[{"@unwind":"$.spec.l"},{"@project":{"metadata":"$.metadata","g":"$.spec.g","v":{"@mul":["$.spec.l",2]}}},{"@gather":["$.g","$.v"]},{"@project":{"metadata":{"name":"$.g"},"s":{"@sum":"$.v"}}}]`})
	js := func(ac, bc []map[string]any) []slot {
		return []slot{{kind: "A", ns: "n1", name: "x", contents: ac}, {kind: "B", ns: "n1", name: "y", contents: bc}, {kind: "B", ns: "n1", name: "z", contents: bc}}
	}
	jn := `"metadata":{"name":{"@concat":["$.A.metadata.name","-","$.B.metadata.name"]},"namespace":"d"}`
	add(&scenario{name: "rej-join-predicate", kinds: ab, slots: js(c(`{"spec":{"k":1}}`, `{"spec":{"k":"s"}}`), c(`{"spec":{"k":1}}`, `{"spec":{"k":3}}`)),
		ops: `[{"@join":{"@lte":["$.A.spec.k","$.B.spec.k"]}},{"@project":{` + jn + `,"k":"$.B.spec.k"}}]`})
	add(&scenario{name: "rej-join-output", kinds: ab, slots: js(c(`{"spec":{"k":1}}`, `{"spec":{"k":2}}`), c(`{"spec":{"k":1}}`, `{"spec":{"k":"s"}}`)),
		ops: `[{"@join":true},{"@project":{` + jn + `,"k":{"@add":["$.A.spec.k","$.B.spec.k"]}}}]`})
	add(&scenario{name: "rej-join-gather", kinds: ab, slots: js(c(`{"spec":{"k":1}}`, `{"spec":{"k":2}}`), c(`{"spec":{"k":1}}`, `{"spec":{"k":"s"}}`)),
		ops: `[{"@join":true},{"@gather":["$.A.metadata.name","$.B.spec.k"]},{"@project":{"metadata":{"name":"$.A.metadata.name"},"k":{"@sum":"$.B.spec.k"}}}]`})
	add(&scenario{name: "rej-join-3", kinds: []string{"A", "B", "C"}, slots: []slot{
		{kind: "A", ns: "n1", name: "x", contents: c(`{"spec":{"k":1}}`, `{"spec":{"k":"s"}}`)},
		{kind: "B", ns: "n1", name: "x", contents: c(`{"spec":{"k":1}}`)},
		{kind: "C", ns: "n1", name: "x", contents: c(`{"spec":{"k":2}}`, `{"spec":{"k":"s"}}`)}},
		ops: `[{"@join":{"@gte":["$.C.spec.k","$.B.spec.k"]}},{"@project":{"metadata":{"name":"$.A.metadata.name"},"k":{"@add":["$.A.spec.k","$.C.spec.k"]}}}]`})
	// many objects, of which some cannot be processed with others
	num := func(i int) []map[string]any { return c(fmt.Sprintf(`{"spec":{"k":%d}}`, i)) }
	mix := func(i int) []map[string]any {
		return c(fmt.Sprintf(`{"spec":{"k":%d}}`, i), fmt.Sprintf(`{"spec":{"k":%d}}`, i+50), `{"spec":{"k":"s"}}`)
	}
	crowd := func(name string, kinds []string, sl []slot, ops string) {
		s := &scenario{name: name, kinds: kinds, slots: sl, ops: ops, depth: [2]int{3, 4}}
		for i := range sl {
			if sl[i].still {
				s.prefix = append(s.prefix, event{slot: i, typ: object.Added})
			}
		}
		add(s)
	}
	fill := func(kind string, n int, more ...slot) (out []slot) {
		for i := range n {
			out = append(out, slot{kind: kind, ns: "n1", name: fmt.Sprintf("o%d", i), contents: num(i), still: true})
		}
		return append(out, more...)
	}
	crowd("rej-crowd-gather", one, fill("A", 20, slot{kind: "A", ns: "n1", name: "x", contents: mix(20)}),
		`[{"@project":{"metadata":{"name":"all","namespace":"d"},"k":"$.spec.k"}},{"@gather":["$.metadata.name","$.k"]},{"@project":{"metadata":"$.metadata","s":{"@sum":"$.k"}}}]`)
	crowd("rej-crowd-join", ab, fill("A", 10, slot{kind: "A", ns: "n1", name: "x", contents: mix(3)}, slot{kind: "B", ns: "n1", name: "y", contents: mix(5)}),
		`[{"@join":{"@lte":["$.A.spec.k","$.B.spec.k"]}},{"@project":{`+jn+`,"k":{"@add":["$.A.spec.k","$.B.spec.k"]}}}]`)
	return out
}

// rejEvent is a change of a slot to a content (-1: delete; slot -1: an event of a kind that is no source).
type rejEvent struct {
	slot int
	to   int8
	typ  object.DeltaType
}

func (s *scenario) rejString(h []rejEvent) string {
	var out []string
	for _, e := range h {
		switch {
		case e.slot < 0:
			out = append(out, "foreign")
		case e.to < 0:
			out = append(out, "del("+s.slots[e.slot].kind+"/"+s.slots[e.slot].name+")")
		default:
			out = append(out, fmt.Sprintf("%s(%s/%s#%d)", e.typ, s.slots[e.slot].kind, s.slots[e.slot].name, e.to))
		}
	}
	return strings.Join(out, " ")
}

var checkP13 = &core.Check{
	Property: "P13",
	Level:    "model_checking",
	Rule: "a case is one history of events, some of which the pipeline cannot process, under one map order; after every " +
		"event acceptance, the changes, the source cache and the target are compared with a reference that evaluates the " +
		"accepted contents from scratch; the history is followed by a resync",
	Run: func(r *core.Run) {
		types := []object.DeltaType{object.Added, object.Updated, object.Upserted, object.Replaced}
		for _, order := range []int{vrt.Asc, vrt.Desc} {
			vrt.SetOrder(order)
			for _, s := range rejScenarios() {
				s.init()
				depth := r.Pick(s.depth[0], s.depth[1])
				var hs [][]rejEvent
				var h []rejEvent
				for _, e := range s.prefix {
					h = append(h, rejEvent{e.slot, e.to, e.typ})
				}
				var rec func()
				rec = func() {
					if len(h) == len(s.prefix)+depth {
						hs = append(hs, append([]rejEvent{}, h...))
						return
					}
					for i, sl := range s.slots {
						if sl.still {
							continue
						}
						for k := range sl.contents {
							h = append(h, rejEvent{i, int8(k), types[(len(h)+i+k)%4]})
							rec()
							h = h[:len(h)-1]
						}
						h = append(h, rejEvent{i, -1, object.Deleted})
						rec()
						h = h[:len(h)-1]
					}
					if len(h) == len(s.prefix)+1 {
						h = append(h, rejEvent{-1, 0, object.Added})
						rec()
						h = h[:len(h)-1]
					}
				}
				rec()
				s := s
				r.Parallel(len(hs), func(i int) {
					h := hs[i]
					id := fmt.Sprintf("%s order=%d: %s", s.name, order, s.rejString(h))
					r.Exec(id, map[string]any{"scenario": s.name, "pipeline": s.ops, "history": s.rejString(h), "map_order": order},
						func(t *core.T) error { return s.runReject(t, h) })
				})
				r.Space(s.name, "map_order", order, "depth", depth, "histories", len(hs))
			}
		}
	},
}

func (s *scenario) runReject(t *core.T, h []rejEvent) error {
	p, err := s.pipeline()
	if err != nil {
		return core.V("pipeline %s does not build: %v", s.ops, err)
	}
	st := make(state, len(s.slots))
	for i := range st {
		st[i] = -1
	}
	store := map[string]string{}
	for n, e := range h {
		at := s.rejString(h[:n+1])
		var d object.Delta
		next := append(state{}, st...)
		reject := false
		switch {
		case e.slot < 0:
			o := object.New()
			o.SetUnstructuredContent(map[string]any{"spec": map[string]any{"v": int64(1), "n": "f", "k": int64(1)}})
			g := s.gvk("A")
			g.Kind = "Foreign"
			o.SetGroupVersionKind(g)
			o.SetName("x")
			o.SetNamespace("n1")
			d, reject = object.Delta{Type: object.Added, Object: o}, true
		case e.to < 0:
			c := s.slots[e.slot].contents[0]
			d = object.Delta{Type: object.Deleted, Object: s.object(e.slot, c)}
			reject = st[e.slot] < 0
			next[e.slot] = -1
		default:
			d = object.Delta{Type: e.typ, Object: s.object(e.slot, s.slots[e.slot].contents[e.to])}
			next[e.slot] = e.to
			reject = s.expect(next).err != nil
		}
		if s.expect(next).dup {
			return nil
		}
		out, err := p.Evaluate(d)
		if (e.slot < 0) && err == nil && len(out) == 0 {
			continue // ignoring events that are no input of the pipeline is as good
		}
		if reject {
			if err == nil {
				return core.V("after %s: the event cannot be processed but no error is reported", at)
			}
			if len(out) > 0 {
				return core.V("after %s: a rejected event emitted %d changes", at, len(out))
			}
		} else {
			if err != nil {
				return core.V("after %s: the event can be processed but was rejected: %v", at, err)
			}
			st = next
			apply(store, out)
		}
		exp := s.expect(st)
		if !exp.match(store) {
			return core.V("after %s: target is {%s}, the accepted contents give %s", at, fmtMap(store), exp)
		}
		t.Step(s.name + "|" + st.key() + "|" + fmt.Sprint(reject) + fmtMap(store))
		t.Out("%v%s|", reject, fmtMap(store))
	}
	// what the pipeline recorded is right too
	got := map[string]string{}
	for _, o := range p.GetTargetCache().List() {
		got[objKey(o)] = canonObj(o)
	}
	if !eqMap(got, store) {
		return core.V("after %s: consumer has {%s}, pipeline believes {%s}", s.rejString(h), fmtMap(store), fmtMap(got))
	}
	out, err := p.Sync()
	if err != nil {
		return core.V("after %s: resync failed: %v", s.rejString(h), err)
	}
	apply(store, out)
	if !s.expect(st).match(store) {
		return core.V("after %s: a resync turned the target into {%s}, the accepted contents give %s", s.rejString(h), fmtMap(store), s.expect(st))
	}
	return nil
}
