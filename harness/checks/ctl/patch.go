package main

import (
	"context"
	"fmt"
	"reflect"
	"strings"

	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/object"

	"verif/core"
)

// mergeRef is RFC 7386, except that lists are merged by position.
func mergeRef(o, m any) any {
	switch x := m.(type) {
	case map[string]any:
		ret := map[string]any{}
		if om, ok := o.(map[string]any); ok {
			for k, v := range om {
				ret[k] = runtime.DeepCopyJSONValue(v)
			}
		}
		for k, v := range x {
			if v == nil {
				delete(ret, k)
			} else {
				ret[k] = mergeRef(ret[k], v)
			}
		}
		return ret
	case []any:
		ol, _ := o.([]any)
		ret := []any{}
		for i := 0; i < len(ol) || i < len(x); i++ {
			switch {
			case i >= len(x):
				ret = append(ret, runtime.DeepCopyJSONValue(ol[i]))
			case i >= len(ol):
				ret = append(ret, mergeRef(nil, x[i]))
			default:
				ret = append(ret, mergeRef(ol[i], x[i]))
			}
		}
		return ret
	default:
		return m
	}
}

// removalRef turns all leaves of a delta into nulls.
func removalRef(m map[string]any) map[string]any {
	ret := map[string]any{}
	for k, v := range m {
		if x, ok := v.(map[string]any); ok {
			ret[k] = removalRef(x)
		} else {
			ret[k] = nil
		}
	}
	return ret
}

func patcherRef(e *env, old map[string]any, w write) map[string]any {
	if old == nil {
		return nil
	}
	m := js(w.content)
	if w.typ == object.Deleted {
		m = removalRef(m)
	}
	return ident(e, mergeRef(old, m).(map[string]any))
}

var patches = []string{
	`{}`,
	`{"spec":{"a":1,"n":{"x":{"y":1}}}}`,
	`{"metadata":{"annotations":{"a1":"p","a3":"q"}}}`,
	`{"metadata":{"labels":{"l1":null,"l9":"n"}},"spec":{"a":null,"q":{"gone":null,"kept":2},"l":[5,{"k":1}]}}`,
	`{"status":{"s":2,"c":"v"},"data":{"d":"z"}}`,
	`{"spec":"scalar","status":{"t":{"u":[1,2]}}}`,
}

// bigDoc is a large document: labels, fields, a long list and deep nesting, n of each, from which those
// at positions that skip says are left out.
func bigDoc(n int, val string, skip func(i int) bool) string {
	var labels, fields, list []string
	deep := `{"end":` + val + `}`
	for i := range n {
		list = append(list, fmt.Sprintf(`{"i":%d,"v":%s}`, i, val))
		deep = fmt.Sprintf(`{"d":%s,"e%d":%s}`, deep, i, val)
		if !skip(i) {
			labels = append(labels, fmt.Sprintf(`"l%d":"x%d"`, i, len(val)))
			fields = append(fields, fmt.Sprintf(`"f%d":%s`, i, val), fmt.Sprintf(`"g%d":{"h":%s}`, i, val))
		}
	}
	l, f := strings.Join(labels, ","), strings.Join(fields, ",")
	return fmt.Sprintf(`{"metadata":{"labels":{%s},"annotations":{%s}},"spec":{%s},"list":[%s],"deep":%s,"top":%s}`, l, l, f, strings.Join(list, ","), deep, val)
}

// bigDocs are a large document to start with, and some to change it to.
func bigDocs() (init string, more []string) {
	all := func(int) bool { return false }
	return bigDoc(16, "1", all), []string{
		bigDoc(16, `"other"`, all), bigDoc(16, "1", func(i int) bool { return i%2 == 0 }), bigDoc(18, "22", func(i int) bool { return i < 14 }), bigDoc(3, "1", all), bigDoc(40, "true", all)}
}

// removals have no lists, nulls or empty maps, for which what to remove is not said.
var removals = []string{
	`{"spec":{"a":1}}`,
	`{"metadata":{"annotations":{"a1":"whatever"},"labels":{"l2":"keep"}},"spec":{"b":{"c":7}},"status":{"s":1}}`,
	`{"data":{"d":"x"},"absent":{"deep":{"er":true}},"f":1.5}`,
}

var patchInitials = []string{
	``,
	`{"spec":{"a":1}}`,
	`{"metadata":{"labels":{"l1":"old","l2":"keep"},"annotations":{"a1":"old"},"finalizers":["f"]},"spec":{"a":9,"b":{"c":1,"d":2},"l":[1,{"j":2},3]},"status":{"s":1},"data":{"d":"x"},"f":1}`,
}

var checkP11 = &core.Check{
	Property: "P11",
	Level:    "model_checking",
	Rule: "a case is one sequence of patches to one kind of target from one initial state, with one choice of original objects, " +
		"under one sequence of failures and foreign writes at the client's calls, or one document with one patch; after every write " +
		"the stored objects are compared with the reference; distinct_nontrivial counts distinct sequences of stored objects",
	Assumptions: checkP10.Assumptions,
	Run: func(r *core.Run) {
		type job struct {
			b    *backend
			key  types.NamespacedName
			init string
			ws   []write
			lim  int
		}
		var jobs []job
		var alpha []write
		for _, c := range patches {
			alpha = append(alpha, write{typ: object.Upserted, content: c})
		}
		for _, c := range removals {
			alpha = append(alpha, write{typ: object.Deleted, content: c})
		}
		for _, b := range backends(opv1a1.Patcher) {
			for ki, key := range keys {
				for _, in := range patchInitials {
					for snap := 0; snap <= 4; snap++ {
						for _, w := range alpha {
							w.snap = snap
							lim := r.Pick(1, 3)
							if ki == 1 {
								lim = r.Pick(0, 1)
							}
							jobs = append(jobs, job{b, key, in, []write{w}, lim})
							if snap == 0 && ki == 0 && w.typ != object.Deleted {
								for _, t := range []object.DeltaType{object.Added, object.Updated, object.Replaced, object.Sync, ""} {
									jobs = append(jobs, job{b, key, in, []write{{typ: t, content: w.content}}, 0})
								}
							}
							if ki == 1 && !r.Thorough() {
								continue
							}
							for _, w2 := range alpha {
								for s2 := 0; s2 <= r.Pick(2, 4); s2 += 2 {
									w2.snap = s2
									lim := 0
									if snap%2 == 0 && s2 == 2 {
										lim = r.Pick(1, 2)
									}
									jobs = append(jobs, job{b, key, in, []write{w, w2}, lim})
								}
							}
						}
					}
				}
			}
		}
		// large documents
		big, bigs := bigDocs()
		for _, b := range backends(opv1a1.Patcher) {
			for _, c := range bigs {
				for _, d := range bigs {
					jobs = append(jobs, job{b, keys[0], big, []write{{typ: object.Upserted, content: c}, {typ: object.Upserted, content: d}}, 0})
				}
			}
			for _, n := range []int{1, 5, 16} { // nothing of lists
				c := fmt.Sprintf(`{"spec":{%s},"deep":{"d":{"d":{"e%d":1}}},"top":1}`, strings.TrimSuffix(strings.Repeat(`"f%d":1,`, n), ","), n%14)
				var is []any
				for i := range n {
					is = append(is, i)
				}
				c = fmt.Sprintf(c, is...)
				jobs = append(jobs, job{b, keys[0], big, []write{{typ: object.Deleted, content: c}}, 0}, job{b, keys[0], big, []write{{typ: object.Upserted, content: bigs[0]}, {typ: object.Deleted, content: c}}, 0})
			}
		}
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			id := fmt.Sprintf("%s %s init=%s writes=", j.b.name, j.key, j.init)
			for _, w := range j.ws {
				id += fmt.Sprintf("%s/snapshot=%d ", w, w.snap)
			}
			r.Explore(id, j.lim, func(t *core.T, c *core.Choices) error { return runPatcher(t, c, j.b, j.key, j.init, j.ws) })
		})
		r.Space("patcher", "jobs", len(jobs))
		docs := documents(r.Pick(1, 2))
		r.Parallel(len(docs), func(i int) {
			for _, m := range docs {
				id := fmt.Sprintf("patch %s with %s", str(docs[i]), str(m))
				r.Exec(id, nil, func(t *core.T) error { return runPatch(t, docs[i], m) })
			}
		})
		r.Space("documents", "documents", len(docs), "pairs", len(docs)*len(docs))
	},
}

// documents are all maps over keys a and b with values from a small universe, nested.
func documents(depth int) []map[string]any {
	vals := []any{"absent", nil, int64(1), "s", []any{}, []any{int64(1), nil}, []any{map[string]any{"a": int64(2)}, "z"}, map[string]any{}}
	inner := []map[string]any{{"a": int64(1)}, {"b": nil}, {"a": nil, "b": "s"}, {"a": map[string]any{"b": nil, "a": true}}, {"a": []any{map[string]any{"c": nil}}}}
	for _, m := range inner {
		vals = append(vals, m)
	}
	if depth > 1 {
		vals = append(vals, 1.5, false, []any{[]any{int64(1)}, map[string]any{"a": nil, "b": int64(1)}, nil}, map[string]any{"a": map[string]any{"a": map[string]any{"b": nil}}},
			map[string]any{"a": []any{int64(3)}, "b": "s"})
	}
	var ret []map[string]any
	for _, a := range vals {
		for _, b := range vals {
			m := map[string]any{}
			if a != "absent" {
				m["a"] = a
			}
			if b != "absent" {
				m["b"] = b
			}
			ret = append(ret, m)
		}
	}
	return ret
}

// hasNull says whether a null occurs in a list of a document, where what a null means is not said.
func nullInList(v any) bool {
	switch x := v.(type) {
	case map[string]any:
		for _, y := range x {
			if nullInList(y) {
				return true
			}
		}
	case []any:
		for _, y := range x {
			if y == nil || nullInList(y) {
				return true
			}
		}
	}
	return false
}

// noNulls drops nulls from maps: stored objects have none.
func noNulls(v any) any {
	switch x := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, y := range x {
			if y != nil {
				r[k] = noNulls(y)
			}
		}
		return r
	case []any:
		r := []any{}
		for _, y := range x {
			r = append(r, noNulls(y))
		}
		return r
	}
	return v
}

func runPatch(t *core.T, doc, m map[string]any) error {
	doc = noNulls(doc).(map[string]any)
	if nullInList(m) {
		return nil
	}
	o := &unstructured.Unstructured{Object: runtime.DeepCopyJSON(doc)}
	pm := runtime.DeepCopyJSON(m)
	if err := object.Patch(o, pm); err != nil {
		return core.V("Patch fails: %v", err)
	}
	want := mergeRef(doc, m)
	t.Step(str(want))
	t.Out("%s", str(want))
	if !reflect.DeepEqual(o.Object, want) {
		return core.V("result is %s, expected %s", str(o.Object), str(want))
	}
	if !reflect.DeepEqual(pm, m) {
		return core.V("the patch itself changed to %s", str(pm))
	}
	scribble(pm)
	if !reflect.DeepEqual(o.Object, want) {
		return core.V("overwriting the patch afterwards changed the result to %s", str(o.Object))
	}
	return nil
}

func runPatcher(t *core.T, c *core.Choices, b *backend, key types.NamespacedName, init string, ws []write) error {
	e := b.start(key)
	var model map[string]any
	if init != "" {
		model = ident(e, js(init))
		e.put(key, js(init))
	}
	if err := e.check(t, "setup", model); err != nil {
		core.Abort("%v", err)
	}
	stale := e.get()
	if e.srv != nil && init != "" {
		// The object has moved on since the stale snapshot was taken.
		e.applyForeign(1)
		model = ident(e, foreign[1].f(model))
	}
	var before *unstructured.Unstructured
	for _, w := range ws {
		// A lagging cache may also not have the object yet, but then there is nothing to remove from, and no
		// snapshot either.
		e.lag, e.lagging = before, before != nil || w.typ != object.Deleted && w.snap != 1 && w.snap != 2
		trace, bad := "", ""
		gone := false
		e.hooked.Hook = e.hook(c, func(s string) {
			trace += s + " "
			if strings.HasPrefix(s, "CALL") {
				bad = s
			}
		}, func(i int) {
			e.applyForeign(i)
			model = foreign[i].f(model)
			if model != nil {
				model = ident(e, model)
			}
			if foreign[i].name == "delete" {
				gone = true
			}
		})
		var snap object.Object
		switch w.snap {
		case 1:
			snap = e.get()
		case 2:
			if stale != nil {
				snap = object.DeepCopy(stale)
			}
		case 3:
			snap = obj(e.gvk, types.NamespacedName{Namespace: key.Namespace, Name: "bystander"}, js(`{"spec":{"x":1,"other":true}}`))
			snap.SetResourceVersion("1")
		case 4:
			snap = obj(e.gvk, key, js(`{"spec":{"a":4,"old":true},"status":{"old":true}}`))
		}
		if snap == nil && (w.snap == 1 || w.snap == 2) {
			return nil // as without a snapshot
		}
		delta := object.Delta{Type: w.typ, Object: obj(srcGVK, key, js(w.content))}
		before = e.get()
		ok, err := e.drive(t, w, delta, snap, func() bool { return isWrite(w.typ) && e.get() == nil })
		e.hooked.Hook = nil
		if bad != "" {
			return core.V("write %s: %s", w, bad)
		}
		if err != nil {
			return err
		}
		if isWrite(w.typ) && model == nil && ok && snap == nil && !gone {
			return core.V("%s of an object that does not exist reports success (%s)", w, trace)
		}
		if isWrite(w.typ) || w.typ == object.Deleted {
			model = patcherRef(e, model, w)
		} else if !reflect.DeepEqual(before, e.get()) && trace == "" {
			return core.V("a delta of type %q changed the target", w.typ)
		}
		what := fmt.Sprintf("%s/snapshot=%d (%s)", w, w.snap, trace)
		if err := e.check(t, what, model); err != nil {
			return err
		}
		scribble(delta.Object.Object)
		if snap != nil {
			scribble(snap.Object)
		}
		if err := e.check(t, "overwriting the arguments of "+what, model); err != nil {
			return err
		}
		if model != nil && w.typ != object.Sync && w.typ != "" {
			n, stop := e.events()
			prev := e.get()
			d := object.Delta{Type: w.typ, Object: obj(srcGVK, key, js(w.content))}
			if err := e.tgt.Write(context.Background(), d, nil); err != nil {
				return core.V("repeating %s fails: %v", w, err)
			}
			stop()
			if now := e.get(); !reflect.DeepEqual(prev, now) || *n > 0 {
				return core.V("repeating %s changed the object (%d events): %s, was %s", w, *n, str(now), str(prev))
			}
		}
	}
	return nil
}
