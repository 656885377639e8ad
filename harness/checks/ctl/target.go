package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"

	"verif/core"
	"verif/kfake"
)

const op = "op"

var (
	nativeGVK = schema.GroupVersionKind{Group: "apps.io", Version: "v2", Kind: "Thing"}
	plainGVK  = schema.GroupVersionKind{Group: "", Version: "v1", Kind: "Plain"}
	viewGVK   = schema.GroupVersionKind{Group: op + ".view.dcontroller.io", Version: "v1alpha1", Kind: "TView"}
	view2GVK  = schema.GroupVersionKind{Group: "other.view.dcontroller.io", Version: "v1alpha1", Kind: "TView"}
	srcGVK    = schema.GroupVersionKind{Group: op + ".view.dcontroller.io", Version: "v1alpha1", Kind: "Src"}
)

// js parses JSON with numbers as the engine represents them.
func js(s string) map[string]any {
	u := &unstructured.Unstructured{}
	m := map[string]any{}
	if err := json.Unmarshal([]byte(s), &m); err != nil {
		core.Abort("bad JSON %s: %v", s, err)
	}
	u.Object = m
	fix(m)
	return m
}

func fix(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k := range x {
			x[k] = fix(x[k])
		}
	case []any:
		for i := range x {
			x[i] = fix(x[i])
		}
	case float64:
		if x == float64(int64(x)) {
			return int64(x)
		}
	}
	return v
}

func obj(gvk schema.GroupVersionKind, key types.NamespacedName, content map[string]any) *unstructured.Unstructured {
	o := &unstructured.Unstructured{Object: runtime.DeepCopyJSON(content)}
	o.SetGroupVersionKind(gvk)
	o.SetNamespace(key.Namespace)
	o.SetName(key.Name)
	return o
}

func str(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}

// backend is where a target writes to.
type backend struct {
	name   string
	gvk    schema.GroupVersionKind
	target opv1a1.Target
	// sub says whether the status is a subresource.
	sub, needRV bool
	srv         *kfake.Server
	vc          *cache.ViewCache
}

func p(s string) *string { return &s }

func backends(typ opv1a1.TargetType) []*backend {
	t := func(g, v *string, kind string) opv1a1.Target {
		return opv1a1.Target{Resource: opv1a1.Resource{Group: g, Version: v, Kind: kind}, Type: typ}
	}
	return []*backend{
		{name: "native", gvk: nativeGVK, target: t(p("apps.io"), p("v2"), "Thing"), sub: true},
		{name: "native-needrv-mapped", gvk: nativeGVK, target: t(p("apps.io"), nil, "Thing"), sub: true, needRV: true},
		{name: "native-nostatus", gvk: plainGVK, target: t(p(""), p("v1"), "Plain")},
		{name: "view", gvk: viewGVK, target: t(nil, nil, "TView")},
		{name: "view-other-op", gvk: view2GVK, target: t(p("other.view.dcontroller.io"), nil, "TView")},
	}
}

func (b *backend) isView() bool { return b.vc != nil }

// env is one run's backend state.
type env struct {
	*backend
	hooked *kfake.Hooked
	mgr    *kfake.Mgr
	tgt    reconciler.Target
	key    types.NamespacedName
	others map[string]string
	// what a lagging cache may still return for the object, once per write
	lag     *unstructured.Unstructured
	lagging bool
}

func (b *backend) start(key types.NamespacedName) *env {
	nb := *b
	e := &env{backend: &nb, key: key}
	var c client.Client
	if strings.HasPrefix(b.name, "view") {
		nb.vc = cache.NewViewCache(cache.CacheOptions{})
		c = nb.vc.GetClient()
	} else {
		nb.srv = kfake.New()
		nb.srv.NeedRV = b.needRV
		if !b.sub {
			nb.srv.NoStatus[b.gvk.Kind] = true
		}
		c = nb.srv.Client()
	}
	e.hooked = &kfake.Hooked{Client: c}
	e.mgr = &kfake.Mgr{C: e.hooked, Mapper: kfake.NewMapper(nativeGVK, plainGVK)}
	e.tgt = reconciler.NewTarget(e.mgr, op, b.target)
	// Objects that are none of the target's business.
	for _, k := range []types.NamespacedName{{Namespace: key.Namespace, Name: "bystander"}, {Namespace: "elsewhere", Name: key.Name}} {
		e.put(k, js(`{"metadata":{"labels":{"by":"stander"}},"spec":{"x":1}}`))
	}
	e.others = e.snapshotOthers()
	return e
}

func (e *env) snapshotOthers() map[string]string {
	ret := map[string]string{}
	if e.srv != nil {
		for k, o := range e.srv.All(e.gvk) {
			if k != e.key.String() {
				ret[k] = str(o.Object)
			}
		}
		return ret
	}
	ix, err := e.vc.GetCacheForKind(e.gvk)
	if err != nil {
		core.Abort("%v", err)
	}
	for _, x := range ix.List() {
		o := x.(*unstructured.Unstructured)
		if client.ObjectKeyFromObject(o) != e.key {
			ret[client.ObjectKeyFromObject(o).String()] = str(o.Object)
		}
	}
	return ret
}

// put writes an object as somebody else would.
func (e *env) put(key types.NamespacedName, content map[string]any) {
	o := obj(e.gvk, key, content)
	if e.srv != nil {
		e.srv.Edit(e.gvk, key, func(x *unstructured.Unstructured) bool {
			for k, v := range o.Object {
				if k != "metadata" {
					x.Object[k] = v
				}
			}
			if m, ok := content["metadata"].(map[string]any); ok {
				for k, v := range m {
					unstructured.SetNestedField(x.Object, runtime.DeepCopyJSONValue(v), "metadata", k)
				}
			}
			return true
		})
		return
	}
	if err := e.vc.Add(o); err != nil {
		core.Abort("%v", err)
	}
}

// get returns what is stored, or nil.
func (e *env) get() *unstructured.Unstructured {
	if e.srv != nil {
		return e.srv.Peek(e.gvk, e.key)
	}
	o := &unstructured.Unstructured{}
	o.SetGroupVersionKind(e.gvk)
	if err := e.vc.Get(context.Background(), e.key, o); err != nil {
		if apierrors.IsNotFound(err) {
			return nil
		}
		core.Abort("%v", err)
	}
	return o
}

// strip removes what the server assigns.
func strip(o *unstructured.Unstructured) map[string]any {
	if o == nil {
		return nil
	}
	m := runtime.DeepCopyJSON(o.Object)
	if md, ok := m["metadata"].(map[string]any); ok {
		for _, k := range []string{"resourceVersion", "uid", "generation", "creationTimestamp"} {
			delete(md, k)
		}
		for _, k := range []string{"labels", "annotations"} {
			if x, ok := md[k].(map[string]any); ok && len(x) == 0 {
				delete(md, k)
			}
		}
		if md["namespace"] == "" {
			delete(md, "namespace")
		}
	}
	return m
}

// write is a delta to be written.
type write struct {
	typ     object.DeltaType
	content string
	snap    int // snapshot handed over (patchers): 0 none, 1 fresh, 2 stale, 3 of another object, 4 without a version
}

func (w write) String() string { return fmt.Sprintf("%s:%s", w.typ, w.content) }

func isWrite(t object.DeltaType) bool {
	return t == object.Added || t == object.Upserted || t == object.Updated || t == object.Replaced
}

// updaterRef is what an updater makes of a stored object.
func updaterRef(e *env, old map[string]any, content map[string]any) map[string]any {
	n := map[string]any{}
	if old == nil {
		old = map[string]any{"metadata": map[string]any{}}
	}
	md := runtime.DeepCopyJSON(old["metadata"].(map[string]any))
	for k, v := range content {
		if k != "metadata" {
			n[k] = runtime.DeepCopyJSONValue(v)
		}
	}
	if e.sub {
		if _, ok := n["status"]; !ok {
			if st, ok := old["status"]; ok {
				n["status"] = runtime.DeepCopyJSONValue(st)
			}
		}
	}
	if nm, ok := content["metadata"].(map[string]any); ok {
		for _, k := range []string{"labels", "annotations"} {
			if add, ok := nm[k].(map[string]any); ok && len(add) > 0 {
				m, _ := md[k].(map[string]any)
				if m == nil {
					m = map[string]any{}
				}
				for a, b := range add {
					m[a] = b
				}
				md[k] = m
			}
		}
	}
	n["metadata"] = md
	return ident(e, n)
}

func ident(e *env, n map[string]any) map[string]any {
	n["apiVersion"], n["kind"] = e.gvk.GroupVersion().String(), e.gvk.Kind
	md, _ := n["metadata"].(map[string]any)
	if md == nil {
		md = map[string]any{}
		n["metadata"] = md
	}
	md["name"] = e.key.Name
	delete(md, "namespace")
	if e.key.Namespace != "" {
		md["namespace"] = e.key.Namespace
	}
	for _, k := range []string{"labels", "annotations"} {
		if x, ok := md[k].(map[string]any); ok && len(x) == 0 {
			delete(md, k)
		}
	}
	return n
}

// foreign are the things other writers may do to the object just before a call.
var foreign = []struct {
	name string
	f    func(m map[string]any) map[string]any // nil: absent
}{
	{"label", func(m map[string]any) map[string]any {
		if m != nil {
			unstructured.SetNestedField(m, "1", "metadata", "labels", "foreign")
		}
		return m
	}},
	{"spec", func(m map[string]any) map[string]any {
		if m != nil {
			if _, ok := m["spec"].(map[string]any); !ok {
				m["spec"] = map[string]any{}
			}
			unstructured.SetNestedField(m, int64(77), "spec", "foreign")
		}
		return m
	}},
	{"status", func(m map[string]any) map[string]any {
		if m != nil {
			if _, ok := m["status"].(map[string]any); !ok {
				m["status"] = map[string]any{}
			}
			unstructured.SetNestedField(m, int64(78), "status", "foreign")
		}
		return m
	}},
	{"finalizer", func(m map[string]any) map[string]any {
		if m != nil {
			unstructured.SetNestedSlice(m, []any{"fin"}, "metadata", "finalizers")
		}
		return m
	}},
	{"delete", func(m map[string]any) map[string]any { return nil }},
	{"create", func(m map[string]any) map[string]any {
		if m == nil {
			return js(`{"metadata":{"labels":{"foreign":"2"}},"spec":{"foreign":5},"status":{"foreign":6}}`)
		}
		return m
	}},
}

// applyForeign performs a foreign action on the server.
func (e *env) applyForeign(i int) {
	e.srv.Edit(e.gvk, e.key, func(x *unstructured.Unstructured) bool {
		var cur map[string]any
		if x.GetResourceVersion() != "" {
			cur = x.Object
		}
		n := foreign[i].f(cur)
		if n == nil {
			return false
		}
		if cur == nil {
			for k, v := range n {
				if k != "metadata" {
					x.Object[k] = v
				}
			}
			x.SetLabels(map[string]string{"foreign": "2"})
		}
		return true
	})
}

var errFault = errors.New("injected failure")

// hook makes every call of the client a decision: pass, fail before or after taking effect, or have another
// writer interfere just before it.
func (e *env) hook(c *core.Choices, note func(string), onForeign func(i int)) func(kfake.Call) kfake.Fate {
	return func(call kfake.Call) kfake.Fate {
		if call.Key != e.key || call.GVK != e.gvk {
			note(fmt.Sprintf("CALL-ON-OTHER %s %s %s", call.Verb, call.GVK, call.Key))
			return kfake.Fate{}
		}
		if call.Verb == "status" && !e.sub {
			return kfake.Fate{} // there is no such subresource: the write is complete already
		}
		n := 3
		if e.srv != nil {
			n += len(foreign)
		}
		lag := call.Verb == "get" && e.lagging && e.srv != nil && !reflect.DeepEqual(e.lag, e.get())
		if lag {
			n++
		}
		x := c.Fault(n)
		if lag && x == n-1 {
			note("lag")
			e.lagging = false
			return kfake.Fate{Read: func(o client.Object) error {
				if e.lag == nil {
					return apierrors.NewNotFound(schema.GroupResource{Group: e.gvk.Group, Resource: "things"}, e.key.Name)
				}
				o.(*unstructured.Unstructured).Object = e.lag.DeepCopy().Object
				return nil
			}}
		}
		note(fmt.Sprintf("%s%d", call.Verb[:2], x))
		switch {
		case x == 0:
		case x == 1:
			return kfake.Fate{Before: apierrors.NewInternalError(errFault)}
		case x == 2:
			return kfake.Fate{After: apierrors.NewTimeoutError("injected", 1)}
		default:
			onForeign(x - 3)
		}
		return kfake.Fate{}
	}
}

// drive writes a delta until that succeeds; the injected failures being limited, it has to.
func (e *env) drive(t *core.T, w write, delta object.Delta, snap object.Object, mustFail func() bool) (bool, error) {
	for i := 0; ; i++ {
		in := object.DeepCopy(delta.Object)
		var sin object.Object
		if snap != nil {
			sin = object.DeepCopy(snap)
		}
		err := e.tgt.Write(context.Background(), delta, snap)
		if !reflect.DeepEqual(in.Object, delta.Object.Object) {
			return false, core.V("Write changed the delta it was given: %s became %s", str(in.Object), str(delta.Object.Object))
		}
		if snap != nil && !reflect.DeepEqual(sin.Object, snap.Object) {
			return false, core.V("Write changed the original object it was given: %s became %s", str(sin.Object), str(snap.Object))
		}
		if err == nil {
			return true, nil
		}
		if mustFail != nil && mustFail() {
			return false, nil
		}
		if i > 12 {
			return false, core.V("write %s still fails after %d retries without failures: %v", w, i, err)
		}
	}
}

// check compares what is stored with what is expected.
func (e *env) check(t *core.T, what string, want map[string]any) error {
	got := strip(e.get())
	if want != nil {
		want = strip(&unstructured.Unstructured{Object: want})
	}
	t.Step(e.name + str(got))
	t.Out("%s;", str(got))
	if (got == nil) != (want == nil) || got != nil && !reflect.DeepEqual(got, want) {
		return core.V("after %s: stored %s, expected %s", what, str(got), str(want))
	}
	if o := e.snapshotOthers(); !reflect.DeepEqual(o, e.others) {
		return core.V("after %s: other objects changed: %v, were %v", what, o, e.others)
	}
	return nil
}

var keys = []types.NamespacedName{{Namespace: "ns", Name: "obj"}, {Name: "obj"}}

var initials = []string{
	``,
	`{"spec":{"a":1}}`,
	`{"metadata":{"labels":{"l1":"old","l2":"keep"},"annotations":{"a1":"old"},"finalizers":["f"]},"spec":{"a":9,"b":{"c":1}},"status":{"s":1},"data":{"d":"x"}}`,
}

var contents = []string{
	`{}`,
	`{"spec":{"a":1}}`,
	`{"metadata":{"labels":{"l1":"new"},"annotations":{"a2":"n"}},"spec":{"b":{"d":2},"l":[1,"x",{"y":null},1.5]},"status":{"s":2,"t":[]}}`,
	`{"metadata":{"labels":{},"finalizers":["mine"],"uid":"other"},"data":{"e":"y"},"top":"str","num":3,"flag":false}`,
	`{"spec":{},"status":{}}`,
}

var checkP10 = &core.Check{
	Property: "P10",
	Level:    "model_checking",
	Rule: "a case is one sequence of writes to one kind of target from one initial state under one sequence of failures and " +
		"foreign writes at the client's calls; after every successful write the stored objects are compared with the reference; " +
		"distinct_nontrivial counts distinct sequences of stored objects",
	Assumptions: []string{"native API servers behave as the in-memory one (resource versions, optimistic concurrency, status subresource)",
		"foreign writers of view targets, which have no resource versions, do not interfere between a read and a write"},
	Run: func(r *core.Run) {
		type job struct {
			b    *backend
			key  types.NamespacedName
			init string
			ws   []write
			lim  int
		}
		var jobs []job
		types1 := []object.DeltaType{object.Added, object.Upserted, object.Updated, object.Replaced, object.Deleted, object.Sync, ""}
		var alpha []write
		for _, c := range contents {
			for _, t := range []object.DeltaType{object.Upserted, object.Deleted} {
				alpha = append(alpha, write{typ: t, content: c})
			}
		}
		for _, b := range backends(opv1a1.Updater) {
			for ki, key := range keys {
				for _, in := range initials {
					// single writes of every type, with faults
					for _, t := range types1 {
						for _, c := range contents {
							lim := r.Pick(1, 3)
							if ki == 1 {
								lim = r.Pick(0, 1)
							}
							jobs = append(jobs, job{b, key, in, []write{{typ: t, content: c}}, lim})
						}
					}
					if ki == 1 && !r.Thorough() {
						continue
					}
					// sequences
					for _, w1 := range alpha {
						for _, w2 := range alpha {
							jobs = append(jobs, job{b, key, in, []write{w1, w2}, r.Pick(1, 2)})
							if r.Thorough() && ki == 0 {
								for _, w3 := range alpha {
									jobs = append(jobs, job{b, key, in, []write{w1, w2, w3}, 1})
								}
							}
						}
					}
				}
			}
		}
		// large documents
		big, bigs := bigDocs()
		for _, b := range backends(opv1a1.Updater) {
			for _, in := range []string{"", initials[2], big} {
				for _, c := range bigs {
					for _, d := range bigs {
						jobs = append(jobs, job{b, keys[0], in, []write{{typ: object.Upserted, content: c}, {typ: object.Upserted, content: d}}, 0})
					}
					jobs = append(jobs, job{b, keys[0], in, []write{{typ: object.Upserted, content: c}, {typ: object.Deleted, content: c}}, 1})
				}
			}
		}
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			id := fmt.Sprintf("%s %s init=%s writes=%v", j.b.name, j.key, j.init, j.ws)
			r.Explore(id, j.lim, func(t *core.T, c *core.Choices) error { return runUpdater(t, c, j.b, j.key, j.init, j.ws) })
		})
		r.Space("updater", "jobs", len(jobs))
	},
}

func runUpdater(t *core.T, c *core.Choices, b *backend, key types.NamespacedName, init string, ws []write) error {
	e := b.start(key)
	var model map[string]any // what is (to be) stored
	if init != "" {
		model = ident(e, js(init))
		e.put(key, js(init))
	}
	if err := e.check(t, "setup", model); err != nil {
		core.Abort("%v", err)
	}
	var before *unstructured.Unstructured
	for _, w := range ws {
		e.lag, e.lagging = before, true
		trace := ""
		disappeared := false
		bad := ""
		e.hooked.Hook = e.hook(c, func(s string) {
			trace += s + " "
			if strings.HasPrefix(s, "CALL") {
				bad = s
			}
		}, func(i int) {
			e.applyForeign(i)
			if foreign[i].name == "delete" {
				disappeared = true
			}
			if model != nil || foreign[i].name == "create" {
				if model == nil && e.get() != nil && foreign[i].name == "create" {
					// it may have been created by us by now, in which case nothing happened
					if l := e.get().GetLabels(); l["foreign"] != "2" {
						return
					}
				}
				model = foreign[i].f(model)
				if model != nil {
					model = ident(e, model)
				}
			} else if model == nil && e.get() != nil {
				// a foreign change to what we have just created
				if strings.Contains("label finalizer status", foreign[i].name) {
					cur := strip(e.get())
					model = ident(e, map[string]any{"metadata": cur["metadata"], "status": cur["status"]})
					if model["status"] == nil {
						delete(model, "status")
					}
				}
			}
		})
		// the result comes with the kind of a source
		delta := object.Delta{Type: w.typ, Object: obj(srcGVK, key, js(w.content))}
		before = e.get()
		ok, err := e.drive(t, w, delta, nil, nil)
		e.hooked.Hook = nil
		if bad != "" {
			return core.V("write %s: %s", w, bad)
		}
		if err != nil {
			return err
		}
		if !ok {
			continue
		}
		switch {
		case isWrite(w.typ):
			model = updaterRef(e, model, js(w.content))
			if disappeared && e.get() == nil {
				model = nil // it has been deleted by somebody else in the meantime
			}
		case w.typ == object.Deleted:
			model = nil
		default:
			if !reflect.DeepEqual(before, e.get()) && trace == "" {
				return core.V("a delta of type %q changed the target", w.typ)
			}
		}
		if err := e.check(t, fmt.Sprintf("%s (%s)", w, trace), model); err != nil {
			return err
		}
		// What was passed in is the caller's.
		scribble(delta.Object.Object)
		if err := e.check(t, fmt.Sprintf("overwriting the delta of %s", w), model); err != nil {
			return err
		}
		// Writing the same thing again changes nothing, and goes unnoticed.
		if isWrite(w.typ) && model != nil {
			n, stop := e.events()
			prev := e.get()
			d := object.Delta{Type: w.typ, Object: obj(srcGVK, key, js(w.content))}
			if err := e.tgt.Write(context.Background(), d, nil); err != nil {
				return core.V("repeating %s fails: %v", w, err)
			}
			stop()
			if now := e.get(); !reflect.DeepEqual(prev, now) || *n > 0 {
				return core.V("repeating %s changed the object (%d events): %s, was %s", w, *n, str(now), str(prev))
			}
		}
	}
	return nil
}

// scribble overwrites a value in depth.
func scribble(v any) {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range core.Keys(x) {
			scribble(x[k])
			switch x[k].(type) {
			case map[string]any, []any:
			default:
				x[k] = "scribble"
			}
		}
		x["scribble"] = "scribble"
	case []any:
		for i := range x {
			scribble(x[i])
			switch x[i].(type) {
			case map[string]any, []any:
			default:
				x[i] = "scribble"
			}
		}
	}
}
