package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	toolscache "k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"
	ctrlcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"

	"verif/core"
	"verif/kfake"
)

var checkP14 = &core.Check{
	Property: "P14",
	Level:    "model_checking",
	Rule:     "one case per source specification (fed with all events of the alphabet) or per history of a set of objects; the outcome is the list of requests; a case is non-trivial when its requests differ from those of the other cases",
	Run:      runP14,
}

// fakeInformer records the handlers put on it.
type fakeInformer struct {
	ctrlcache.Informer
	mu sync.Mutex
	hs []toolscache.ResourceEventHandler
}

type reg struct{}

func (reg) HasSynced() bool { return true }

func (i *fakeInformer) AddEventHandler(h toolscache.ResourceEventHandler) (toolscache.ResourceEventHandlerRegistration, error) {
	i.mu.Lock()
	defer i.mu.Unlock()
	i.hs = append(i.hs, h)
	return reg{}, nil
}
func (i *fakeInformer) AddEventHandlerWithResyncPeriod(h toolscache.ResourceEventHandler, _ time.Duration) (toolscache.ResourceEventHandlerRegistration, error) {
	return i.AddEventHandler(h)
}
func (i *fakeInformer) AddEventHandlerWithOptions(h toolscache.ResourceEventHandler, _ toolscache.HandlerOptions) (toolscache.ResourceEventHandlerRegistration, error) {
	return i.AddEventHandler(h)
}
func (i *fakeInformer) HasSynced() bool { return true }

// each calls f with the handlers.
func (i *fakeInformer) each(f func(h toolscache.ResourceEventHandler)) {
	i.mu.Lock()
	hs := append([]toolscache.ResourceEventHandler{}, i.hs...)
	i.mu.Unlock()
	for _, h := range hs {
		f(h)
	}
}

// fakeCache has one informer per kind.
type fakeCache struct {
	ctrlcache.Cache
	mu   sync.Mutex
	infs map[schema.GroupVersionKind]*fakeInformer
}

func (c *fakeCache) inf(gvk schema.GroupVersionKind) *fakeInformer {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.infs == nil {
		c.infs = map[schema.GroupVersionKind]*fakeInformer{}
	}
	i := c.infs[gvk]
	if i == nil {
		i = &fakeInformer{}
		c.infs[gvk] = i
	}
	return i
}
func (c *fakeCache) GetInformer(_ context.Context, obj client.Object, _ ...ctrlcache.InformerGetOption) (ctrlcache.Informer, error) {
	return c.inf(obj.GetObjectKind().GroupVersionKind()), nil
}
func (c *fakeCache) GetInformerForKind(_ context.Context, gvk schema.GroupVersionKind, _ ...ctrlcache.InformerGetOption) (ctrlcache.Informer, error) {
	return c.inf(gvk), nil
}
func (c *fakeCache) WaitForCacheSync(context.Context) bool { return true }

// reqQueue collects requests, from any goroutine.
type reqQueue struct {
	workqueue.TypedRateLimitingInterface[reconciler.Request]
	mu   sync.Mutex
	reqs []reconciler.Request
	at   []time.Time
}

func (q *reqQueue) Add(r reconciler.Request) {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.reqs = append(q.reqs, r)
	q.at = append(q.at, time.Now())
}
func (q *reqQueue) AddRateLimited(r reconciler.Request)            { q.Add(r) }
func (q *reqQueue) AddAfter(r reconciler.Request, _ time.Duration) { q.Add(r) }
func (q *reqQueue) Len() int {
	q.mu.Lock()
	defer q.mu.Unlock()
	return len(q.reqs)
}
func (q *reqQueue) take() []reconciler.Request {
	q.mu.Lock()
	defer q.mu.Unlock()
	r := q.reqs
	q.reqs = nil
	return r
}

type syncing interface {
	WaitForSync(ctx context.Context) error
}

// pnode is a predicate of the reference.
type pnode struct {
	op   string // one of the basic predicates or And, Or, Not
	args []*pnode
}

func (n *pnode) json() any {
	if n.op == "And" || n.op == "Or" || n.op == "Not" {
		as := []any{}
		for _, a := range n.args {
			as = append(as, a.json())
		}
		return map[string]any{n.op: as}
	}
	return n.op
}

func (n *pnode) eval(typ object.DeltaType, old, obj *unstructured.Unstructured) bool {
	switch n.op {
	case "And":
		for _, a := range n.args {
			if !a.eval(typ, old, obj) {
				return false
			}
		}
		return true
	case "Or":
		for _, a := range n.args {
			if a.eval(typ, old, obj) {
				return true
			}
		}
		return false
	case "Not":
		return !n.args[0].eval(typ, old, obj)
	}
	if typ != object.Updated {
		return true
	}
	get := func(f ...string) [2]any {
		a, _, _ := unstructured.NestedFieldNoCopy(old.Object, f...)
		b, _, _ := unstructured.NestedFieldNoCopy(obj.Object, f...)
		return [2]any{a, b}
	}
	var p [2]any
	switch n.op {
	case "GenerationChanged":
		p = get("metadata", "generation")
	case "ResourceVersionChanged":
		p = get("metadata", "resourceVersion")
	case "LabelChanged":
		p = get("metadata", "labels")
	case "AnnotationChanged":
		p = get("metadata", "annotations")
	}
	return !reflect.DeepEqual(p[0], p[1])
}

// lsel is a label selector with its reference.
type lsel struct {
	sel   string // JSON
	match func(l map[string]string) bool
}

func lsels() []lsel {
	has := func(k string, vs ...string) func(map[string]string) bool {
		return func(l map[string]string) bool {
			v, ok := l[k]
			if !ok {
				return false
			}
			for _, x := range vs {
				if x == v {
					return true
				}
			}
			return len(vs) == 0
		}
	}
	not := func(f func(map[string]string) bool) func(map[string]string) bool {
		return func(l map[string]string) bool { return !f(l) }
	}
	and := func(f, g func(map[string]string) bool) func(map[string]string) bool {
		return func(l map[string]string) bool { return f(l) && g(l) }
	}
	return []lsel{
		{"", nil},
		{`{}`, func(map[string]string) bool { return true }},
		{`{"matchLabels":{"a":"1"}}`, has("a", "1")},
		{`{"matchLabels":{"a":"1","b":"1"}}`, and(has("a", "1"), has("b", "1"))},
		{`{"matchExpressions":[{"key":"a","operator":"In","values":["1","2"]}]}`, has("a", "1", "2")},
		{`{"matchExpressions":[{"key":"a","operator":"NotIn","values":["1"]}]}`, not(has("a", "1"))},
		{`{"matchExpressions":[{"key":"b","operator":"Exists"}]}`, has("b")},
		{`{"matchExpressions":[{"key":"b","operator":"DoesNotExist"}]}`, not(has("b"))},
		{`{"matchLabels":{"a":"1"},"matchExpressions":[{"key":"b","operator":"DoesNotExist"}]}`, and(has("a", "1"), not(has("b")))},
	}
}

// srcSpec is a source specification.
type srcSpec struct {
	pred *pnode
	sel  lsel
	ns   *string
}

func (s *srcSpec) json() string {
	m := map[string]any{"apiGroup": "apps.io", "version": "v2", "kind": "Thing"}
	if s.pred != nil {
		m["predicate"] = s.pred.json()
	}
	if s.sel.sel != "" {
		m["labelSelector"] = js(s.sel.sel)
	}
	if s.ns != nil {
		m["namespace"] = *s.ns
	}
	return str(m)
}

// want is the request an event is to cause, or "".
func (s *srcSpec) want(typ object.DeltaType, old, o *unstructured.Unstructured) object.DeltaType {
	if s.pred != nil && !s.pred.eval(typ, old, o) {
		return ""
	}
	if s.ns != nil && o.GetNamespace() != *s.ns {
		return ""
	}
	if s.sel.match == nil || s.sel.match(o.GetLabels()) {
		return typ
	}
	return ""
}

var labelSets = []map[string]any{nil, {"a": "1"}, {"a": "2"}, {"a": "1", "b": "1"}}

func srcObj(ns string, l, gen, rv, ann int) *unstructured.Unstructured {
	md := map[string]any{"generation": int64(1 + gen), "resourceVersion": fmt.Sprint(10 + rv)}
	if labelSets[l] != nil {
		md["labels"] = labelSets[l]
	}
	if ann > 0 {
		md["annotations"] = map[string]any{"x": fmt.Sprint(ann)}
	}
	return obj(nativeGVK, types.NamespacedName{Namespace: ns, Name: "o"}, map[string]any{"metadata": md, "spec": map[string]any{"v": []any{int64(l)}}})
}

type srcEvent struct {
	typ      object.DeltaType
	old, obj *unstructured.Unstructured
	tomb     bool
	initial  bool
}

// srcEvents makes the alphabet of events.
func srcEvents(all bool) []srcEvent {
	var evs []srcEvent
	nss := []string{"n1", "n2", ""}
	if !all {
		nss = nss[:1]
	}
	for _, ns := range nss {
		for l := range labelSets {
			o := srcObj(ns, l, 0, 0, 0)
			evs = append(evs, srcEvent{typ: object.Added, obj: o}, srcEvent{typ: object.Added, obj: o, initial: true},
				srcEvent{typ: object.Deleted, obj: o}, srcEvent{typ: object.Deleted, obj: o, tomb: true})
			for l2 := range labelSets {
				for b := 0; b < 8; b++ {
					if !all && l2 > 1 {
						continue
					}
					evs = append(evs, srcEvent{typ: object.Updated, old: o, obj: srcObj(ns, l2, b&1, b>>1&1, b>>2)})
				}
			}
			if !all && l >= 1 {
				break
			}
		}
		// annotations and numbers going back
		evs = append(evs, srcEvent{typ: object.Updated, old: srcObj(ns, 1, 1, 1, 1), obj: srcObj(ns, 1, 0, 0, 0)},
			srcEvent{typ: object.Updated, old: srcObj(ns, 1, 1, 1, 1), obj: srcObj(ns, 1, 1, 1, 2)})
	}
	return evs
}

func predTrees(thorough bool) (shallow, deep []*pnode) {
	var basic []*pnode
	for _, b := range []string{"GenerationChanged", "ResourceVersionChanged", "LabelChanged", "AnnotationChanged"} {
		basic = append(basic, &pnode{op: b})
	}
	shallow = append(shallow, nil)
	shallow = append(shallow, basic...)
	var one []*pnode // depth one
	for _, b := range basic {
		one = append(one, &pnode{"Not", []*pnode{b}})
	}
	for _, op := range []string{"And", "Or"} {
		one = append(one, &pnode{op: op})
		for i, a := range basic {
			one = append(one, &pnode{op, []*pnode{a}})
			for _, b := range basic[i:] {
				one = append(one, &pnode{op, []*pnode{a, b}}, &pnode{op, []*pnode{b, a}})
			}
		}
		one = append(one, &pnode{op, basic[:3]}, &pnode{op, basic})
	}
	shallow = append(shallow, one...)
	for _, a := range one {
		deep = append(deep, &pnode{"Not", []*pnode{a}}, &pnode{"Not", []*pnode{{"Not", []*pnode{a}}}})
	}
	args := append(append([]*pnode{}, basic...), one...)
	for _, op := range []string{"And", "Or"} {
		for _, a := range args {
			for _, b := range args {
				if !thorough && len(a.args)+len(b.args) > 3 {
					continue
				}
				deep = append(deep, &pnode{op, []*pnode{a, b}})
			}
		}
	}
	return
}

// startSource starts the source on the cache and waits until its handlers are there.
func startSource(s reconciler.Source, q workqueue.TypedRateLimitingInterface[reconciler.Request]) (func(), error) {
	rs, err := s.GetSource()
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	if err := rs.Start(ctx, q); err != nil {
		cancel()
		return nil, err
	}
	if sy, ok := rs.(syncing); ok {
		if err := sy.WaitForSync(ctx); err != nil {
			cancel()
			return nil, err
		}
	}
	return cancel, nil
}

func (s *srcSpec) run(t *core.T, evs []srcEvent) error {
	var spec opv1a1.Source
	if err := json.Unmarshal([]byte(s.json()), &spec); err != nil {
		return core.V("the source cannot be read: %v", err)
	}
	variants := []*opv1a1.Source{&spec}
	// What has been copied or written and read back must mean the same.
	variants = append(variants, spec.DeepCopy())
	b, err := json.Marshal(&spec)
	if err != nil {
		return core.V("the source cannot be written: %v", err)
	}
	var again opv1a1.Source
	if err := json.Unmarshal(b, &again); err != nil {
		return core.V("the source cannot be read back from %s: %v", b, err)
	}
	variants = append(variants, &again)
	for vi, v := range variants {
		if vi > 0 {
			if a, b := norm(s.json()), norm(str(v)); a != b {
				return core.V("the copy of the source %s is %s (variant %d)", a, b, vi)
			}
			if s.pred == nil {
				break // the copies are the same, and nothing else can differ
			}
		}
		if err := s.feed(t, v, evs, vi); err != nil {
			return err
		}
	}
	return nil
}

// norm parses and rewrites JSON, without nils.
func norm(s string) string {
	m := js(s)
	for k, v := range m {
		if v == nil || v == "" {
			delete(m, k)
		}
	}
	return str(m)
}

func (s *srcSpec) feed(t *core.T, spec *opv1a1.Source, evs []srcEvent, vi int) error {
	ca := &fakeCache{}
	mgr := &kfake.Mgr{Ca: ca, Mapper: kfake.NewMapper(nativeGVK, plainGVK)}
	src := reconciler.NewSource(mgr, op, *spec)
	q := &reqQueue{}
	stop, err := startSource(src, q)
	if err != nil {
		return core.V("the source cannot be started: %v", err)
	}
	defer stop()
	if len(ca.infs) != 1 || len(ca.inf(nativeGVK).hs) != 1 {
		return core.V("the source watches %v", ca.infs)
	}
	inf := ca.inf(nativeGVK)
	passed := 0
	for _, e := range evs {
		o := e.obj.DeepCopy()
		var old *unstructured.Unstructured
		inf.each(func(h toolscache.ResourceEventHandler) {
			switch e.typ {
			case object.Added:
				h.OnAdd(o, e.initial)
			case object.Updated:
				old = e.old.DeepCopy()
				h.OnUpdate(old, o)
			case object.Deleted:
				if e.tomb {
					h.OnDelete(toolscache.DeletedFinalStateUnknown{Key: "n1/o", Obj: o})
				} else {
					h.OnDelete(o)
				}
			}
		})
		desc := func() string {
			if e.old != nil {
				return fmt.Sprintf("%s %s -> %s", e.typ, str(e.old.Object), str(e.obj.Object))
			}
			return fmt.Sprintf("%s %s", e.typ, str(e.obj.Object))
		}
		if !reflect.DeepEqual(o.Object, e.obj.Object) || old != nil && !reflect.DeepEqual(old.Object, e.old.Object) {
			return core.V("the event's object has been changed: %s", desc())
		}
		got := q.take()
		want := s.want(e.typ, e.old, e.obj)
		if want == "" {
			if len(got) != 0 {
				return core.V("event %s caused the request %s (variant %d)", desc(), got[0].String(), vi)
			}
			continue
		}
		passed++
		if len(got) != 1 {
			return core.V("event %s caused %d requests, not one %s (variant %d)", desc(), len(got), want, vi)
		}
		if err := checkReq(got[0], want, e.obj, desc()); err != nil {
			return err
		}
		// The request's object is the request's own.
		scribble(o.Object)
		if !reflect.DeepEqual(got[0].Object.Object, e.obj.Object) {
			return core.V("a later change of the event's object shows in the request: %s", desc())
		}
		t.Step(string(want) + s.json())
	}
	t.Out("%d of %d", passed, len(evs))
	return nil
}

func checkReq(r reconciler.Request, typ object.DeltaType, o *unstructured.Unstructured, what string) error {
	if r.EventType != typ || r.Name != o.GetName() || r.Namespace != o.GetNamespace() || r.GVK != o.GroupVersionKind() {
		return core.V("%s: the request is %s, not %s of %s/%s %s", what, r.String(), typ, o.GetNamespace(), o.GetName(), o.GroupVersionKind())
	}
	if r.GetEventType() != typ || r.GetName() != o.GetName() || r.GetNamespace() != o.GetNamespace() || r.GetGVK() != r.GVK || r.GetObject() != r.Object {
		return core.V("%s: the accessors of the request %s tell something else", what, r.String())
	}
	if r.Object == nil || !reflect.DeepEqual(r.Object.Object, o.Object) {
		return core.V("%s: the request carries %s", what, str(r.Object))
	}
	return nil
}

// hist14 feeds the history of two objects through a source and checks that the requests tell at any time
// the last selected version of every object that was not deleted as a selected one.
func hist14(r *core.Run, sel lsel, ns *string, view bool, depth int) {
	type st struct{ l [2]int } // label set per object, -1 when absent
	objs := []types.NamespacedName{{Namespace: "n1", Name: "x"}, {Namespace: "n2", Name: "x"}}
	var rec func(h [][2]int, s st)
	runOne := func(h [][2]int, late int) {
		spec := &srcSpec{sel: sel, ns: ns}
		m := js(spec.json())
		gvk := nativeGVK
		if view {
			delete(m, "apiGroup")
			delete(m, "version")
			m["kind"] = "SView"
			gvk = vgvk("SView")
		}
		id := fmt.Sprintf("history/%s/view=%v/%v/late=%d", str(m), view, h, late)
		r.Exec(id, nil, func(t *core.T) error {
			var s opv1a1.Source
			if err := json.Unmarshal([]byte(str(m)), &s); err != nil {
				return core.V("%v", err)
			}
			var ca ctrlcache.Cache
			fc := &fakeCache{}
			vc := cache.NewViewCache(cache.CacheOptions{})
			ca = fc
			if view {
				ca = vc
			}
			mgr := &kfake.Mgr{Ca: ca, C: vc.GetClient(), Mapper: kfake.NewMapper(nativeGVK, plainGVK)}
			q := &reqQueue{}
			src := reconciler.NewSource(mgr, op, s)
			var stop func()
			defer func() {
				if stop != nil {
					stop()
				}
			}()
			cur := map[int]*unstructured.Unstructured{}
			seen, want := map[string]string{}, map[string]string{}
			selected := func(o *unstructured.Unstructured) bool {
				return (ns == nil || o.GetNamespace() == *ns) && (sel.match == nil || sel.match(o.GetLabels()))
			}
			for i := 0; i <= len(h); i++ {
				if i > 0 {
					e := h[i-1]
					k, l := e[0], e[1]
					old := cur[k]
					var o *unstructured.Unstructured
					if l >= 0 {
						c := map[string]any{"metadata": map[string]any{"resourceVersion": fmt.Sprint(i)}, "spec": map[string]any{"i": int64(i)}}
						if labelSets[l] != nil {
							c["metadata"].(map[string]any)["labels"] = labelSets[l]
						}
						o = obj(gvk, objs[k], c)
					}
					cur[k] = o
					if stop != nil && o != nil && selected(o) {
						want[objs[k].String()] = str(o.Object)
					} else if stop != nil && o == nil && selected(old) {
						delete(want, objs[k].String())
					}
					if view {
						var err error
						switch {
						case old == nil:
							err = vc.Add(o)
						case o == nil:
							err = vc.Delete(old)
						default:
							err = vc.Update(old, o)
						}
						if err != nil {
							return core.V("%v", err)
						}
					} else {
						fc.inf(gvk).each(func(hd toolscache.ResourceEventHandler) {
							switch {
							case old == nil:
								hd.OnAdd(o.DeepCopy(), false)
							case o == nil:
								hd.OnDelete(old.DeepCopy())
							default:
								hd.OnUpdate(old.DeepCopy(), o.DeepCopy())
							}
						})
					}
				}
				if i == late {
					var err error
					if stop, err = startSource(src, q); err != nil {
						return core.V("the source cannot be started: %v", err)
					}
					for k, o := range cur {
						if o != nil && selected(o) {
							want[objs[k].String()] = str(o.Object)
						}
					}
					if !view {
						fc.inf(gvk).each(func(hd toolscache.ResourceEventHandler) {
							for k := range objs {
								if cur[k] != nil {
									hd.OnAdd(cur[k].DeepCopy(), true)
								}
							}
						})
					}
				}
				for _, rq := range q.take() {
					key := rq.Namespace + "/" + rq.Name
					if rq.GVK != gvk || rq.Object == nil || client.ObjectKeyFromObject(rq.Object).String() != key {
						return core.V("odd request %s", rq.String())
					}
					if rq.EventType == object.Deleted {
						delete(seen, key)
						continue
					}
					o := rq.Object.DeepCopy()
					o.SetUID("")
					unstructured.RemoveNestedField(o.Object, "metadata", "uid")
					seen[key] = str(o.Object)
				}
				if !reflect.DeepEqual(want, seen) {
					return core.V("after step %d the requests tell of %v, and not of %v", i, sorted(seen), sorted(want))
				}
				t.Step(sorted(seen) + id[:20])
			}
			t.Out("%s", sorted(seen))
			return nil
		})
	}
	rec = func(h [][2]int, s st) {
		if len(h) == depth {
			for late := 0; late <= 2; late++ {
				runOne(h, late)
			}
			return
		}
		for k := range objs {
			for l := -1; l < len(labelSets); l++ {
				if l == -1 && s.l[k] == -1 {
					continue
				}
				n := s
				n.l[k] = l
				rec(append(append([][2]int{}, h...), [2]int{k, l}), n)
			}
		}
	}
	rec(nil, st{[2]int{-1, -1}})
}

func runP14(r *core.Run) {
	shallow, deep := predTrees(r.Thorough())
	all, some := srcEvents(true), srcEvents(false)
	var specs []*srcSpec
	n1 := "n1"
	for _, pd := range shallow {
		for _, sel := range lsels() {
			for _, ns := range []*string{nil, &n1} {
				specs = append(specs, &srcSpec{pd, sel, ns})
			}
		}
	}
	k := len(specs)
	for _, pd := range deep {
		specs = append(specs, &srcSpec{pred: pd})
		if r.Thorough() {
			specs = append(specs, &srcSpec{pd, lsels()[2], &n1})
		}
	}
	r.Space("source specifications", "specifications", len(specs), "events of the full alphabet", len(all), "events of the small alphabet", len(some))
	r.Parallel(len(specs), func(i int) {
		s := specs[i]
		evs := all
		if i >= k {
			evs = some
		}
		r.Exec("spec/"+s.json(), nil, func(t *core.T) error { return s.run(t, evs) })
	})
	type hs struct {
		sel  lsel
		ns   *string
		view bool
	}
	var hss []hs
	for _, sel := range lsels() {
		for _, ns := range []*string{nil, &n1} {
			hss = append(hss, hs{sel, ns, false}, hs{sel, ns, true})
		}
	}
	depth := r.Pick(3, 4)
	r.Parallel(len(hss), func(i int) { hist14(r, hss[i].sel, hss[i].ns, hss[i].view, depth) })
	badSources(r)
	kinds14(r)
	oneShot(r)
	periodic(r)
}

// badSources: what makes no sense is refused.
func badSources(r *core.Run) {
	bad := []string{`"Foo"`, `""`, `{}`, `{"And":["GenerationChanged"],"Or":["LabelChanged"]}`, `{"Not":[]}`,
		`{"Not":["GenerationChanged","LabelChanged"]}`, `{"Xor":["GenerationChanged"]}`, `{"and":["GenerationChanged"]}`, `"generationChanged"`,
		`{"Or":["GenerationChanged","Foo"]}`, `{"And":[{"Not":["Foo"]}]}`, `{"And":[{"Or":[{"Bad":[]}]}]}`, `{"Or":["LabelChanged",{}]}`, `{"Not":[{"Not":[]}]}`,
		`{"And":["GenerationChanged",{"Not":["LabelChanged","LabelChanged"]}]}`, `[]`, `1`, `{"And":"GenerationChanged"}`, `{"And":{"Or":[]}}`, `true`}
	var cases []string
	for _, b := range bad {
		cases = append(cases, `{"apiGroup":"","version":"v1","kind":"Plain","predicate":`+b+`}`)
	}
	for _, s := range []string{`{"matchExpressions":[{"key":"a","operator":"Foo","values":["1"]}]}`, `{"matchExpressions":[{"key":"a","operator":"In"}]}`,
		`{"matchExpressions":[{"key":"a","operator":"Exists","values":["1"]}]}`, `{"matchLabels":{"a b":"1"}}`, `{"matchLabels":{"a":"1 2"}}`} {
		cases = append(cases, `{"apiGroup":"","version":"v1","kind":"Plain","labelSelector":`+s+`}`, `{"apiGroup":"","version":"v1","kind":"Plain","predicate":"GenerationChanged","namespace":"n1","labelSelector":`+s+`}`)
	}
	for _, typ := range []string{"", "Watcher", "OneShot"} {
		cases = append(cases, fmt.Sprintf(`{"type":%q}`, typ), fmt.Sprintf(`{"apiGroup":"","kind":"","type":%q}`, typ), fmt.Sprintf(`{"apiGroup":"apps.io","kind":"Unknown","type":%q}`, typ),
			fmt.Sprintf(`{"apiGroup":"unknown.io","kind":"Thing","type":%q}`, typ))
	}
	r.Space("invalid sources", "specifications", len(cases))
	for _, c := range cases {
		r.Exec("bad/"+c, nil, func(t *core.T) error {
			var s opv1a1.Source
			if err := json.Unmarshal([]byte(c), &s); err != nil {
				t.Out("unmarshal: %v", err)
				return nil
			}
			srv := kfake.New()
			mgr := &kfake.Mgr{Ca: &fakeCache{}, C: srv.Client(), Mapper: kfake.NewMapper(nativeGVK, plainGVK)}
			_, err := reconciler.NewSource(mgr, op, s).GetSource()
			if err == nil {
				return core.V("the source %s is accepted", c)
			}
			t.Out("%v", err)
			return nil
		})
	}
}

// kinds14: sources and targets resolve to the kind they name.
func kinds14(r *core.Run) {
	gs := []*string{nil, p(""), p("apps.io"), p(op + ".view.dcontroller.io"), p("other.view.dcontroller.io")}
	vs := []*string{nil, p("v1"), p("v2"), p("v1alpha1")}
	want := func(g, v *string, kind string) (schema.GroupVersionKind, bool) {
		own := op + ".view.dcontroller.io"
		switch {
		case g == nil || *g == own:
			return schema.GroupVersionKind{Group: own, Version: "v1alpha1", Kind: kind}, true
		case v != nil:
			return schema.GroupVersionKind{Group: *g, Version: *v, Kind: kind}, true
		case *g == "other.view.dcontroller.io":
			return schema.GroupVersionKind{Group: *g, Version: "v1alpha1", Kind: kind}, true
		case *g == "" && kind == "Plain":
			return plainGVK, true
		case *g == "apps.io" && kind == "Thing":
			return nativeGVK, true
		}
		return schema.GroupVersionKind{}, false
	}
	n := 0
	for _, g := range gs {
		for _, v := range vs {
			for _, kind := range []string{"Plain", "Thing", "AView"} {
				for _, typ := range []opv1a1.SourceType{"", opv1a1.Watcher, opv1a1.OneShot, opv1a1.Periodic} {
					if g != nil && *g == "" && v == nil && kind != "Plain" {
						continue // what is not in the core group may be found elsewhere
					}
					n++
					res := opv1a1.Resource{Group: g, Version: v, Kind: kind}
					r.Exec(fmt.Sprintf("kind/%s/%s", str(res), typ), nil, func(t *core.T) error {
						vc := cache.NewViewCache(cache.CacheOptions{})
						fc := &fakeCache{}
						mgr := &kfake.Mgr{Ca: fc, C: kfake.New().Client(), Mapper: kfake.NewMapper(nativeGVK, plainGVK)}
						_ = vc
						s := reconciler.NewSource(mgr, op, opv1a1.Source{Resource: res, Type: typ})
						wt := typ
						if wt == "" {
							wt = opv1a1.Watcher
						}
						if s.Type() != wt {
							return core.V("the type is %s", s.Type())
						}
						got, err := s.GetGVK()
						w, ok := want(g, v, kind)
						if ok != (err == nil) || ok && got != w {
							return core.V("the source resolves to %s (%v), not %s", got, err, w)
						}
						tg := reconciler.NewTarget(mgr, op, opv1a1.Target{Resource: res, Type: opv1a1.Updater})
						got2, err2 := tg.GetGVK()
						if got2 != got || (err2 == nil) != (err == nil) {
							return core.V("the target resolves to %s (%v), not %s", got2, err2, w)
						}
						t.Out("%s %v", got, err)
						if !ok || typ == opv1a1.Periodic {
							return nil
						}
						stop, err := startSource(s, &reqQueue{})
						if err != nil {
							return core.V("the source cannot be started: %v", err)
						}
						defer stop()
						if len(fc.infs) != 1 || fc.infs[w] == nil {
							return core.V("the source watches %v, not %s", fc.infs, w)
						}
						return nil
					})
				}
			}
		}
	}
	r.Space("resources of sources and targets", "specifications", n)
}

// oneShot: a one-shot source triggers once, also when creating the trigger fails first.
func oneShot(r *core.Run) {
	for _, group := range []*string{nil, p(op + ".view.dcontroller.io"), p("other.view.dcontroller.io")} {
		for fails := 0; fails < 3; fails++ {
			for later := 0; later < 2; later++ {
				res := opv1a1.Resource{Group: group, Kind: "Init"}
				r.Exec(fmt.Sprintf("oneshot/%s/fails=%d/later=%d", str(res), fails, later), nil, func(t *core.T) error {
					vc := cache.NewViewCache(cache.CacheOptions{})
					creates := 0
					hooked := &kfake.Hooked{Client: vc.GetClient(), Hook: func(c kfake.Call) kfake.Fate {
						if c.Verb == "create" {
							creates++
							if creates <= fails {
								return kfake.Fate{Before: errors.New("lost")}
							}
						}
						return kfake.Fate{}
					}}
					mgr := &kfake.Mgr{Ca: vc, C: hooked, Mapper: kfake.NewMapper()}
					s := reconciler.NewSource(mgr, op, opv1a1.Source{Resource: res, Type: opv1a1.OneShot})
					gvk, err := s.GetGVK()
					if err != nil {
						return core.V("%v", err)
					}
					q := &reqQueue{}
					for i := 0; i < fails; i++ {
						if _, err := startSource(s, q); err == nil {
							return core.V("the trigger could not be created, but there is no error")
						}
						if q.Len() != 0 {
							return core.V("a request without a trigger")
						}
					}
					stop, err := startSource(s, q)
					if err != nil {
						return core.V("%v", err)
					}
					defer stop()
					if later == 1 { // other kinds do not trigger it
						if err := vc.Add(obj(vgvk("Elsewhere"), types.NamespacedName{Name: "x"}, nil)); err != nil {
							return core.V("%v", err)
						}
					}
					got := q.take()
					if len(got) != 1 {
						return core.V("%d requests", len(got))
					}
					rq := got[0]
					if rq.EventType != object.Added || rq.Name != "one-shot-trigger" || rq.Namespace != "" || rq.GVK != gvk || rq.Object == nil || rq.Object.GetName() != rq.Name {
						return core.V("odd request %s", rq.String())
					}
					if rq.Object.GetLabels()["dcontroller.io/last-triggered"] == "" {
						return core.V("the trigger has no label: %s", str(rq.Object))
					}
					if l := len(vc.Dump(context.Background(), gvk)); l != 1 {
						return core.V("%d objects", l)
					}
					t.Out("%s", rq.String())
					t.Step(rq.String())
					return nil
				})
			}
		}
	}
}

// periodic: requests come with the period, which is positive; nothing else triggers one.
func periodic(r *core.Run) {
	type pc struct {
		params string
		period time.Duration // 0: refused; <0: the default
	}
	cases := []pc{{`{"period":"10ms"}`, 10 * time.Millisecond}, {`{"period":"0.02s"}`, 20 * time.Millisecond}, {`{"period":"10ms","x":1}`, 10 * time.Millisecond},
		{`{"period":"0s"}`, 0}, {`{"period":"-1s"}`, 0}, {``, -1}, {`{}`, -1}, {`{"period":"5m"}`, -1}}
	r.Space("periodic sources", "specifications", len(cases))
	for _, group := range []*string{nil, p("")} {
		for _, c := range cases {
			kind := "Tick"
			if group != nil {
				kind = "Plain"
			}
			r.Exec(fmt.Sprintf("periodic/%s/%s", kind, c.params), nil, func(t *core.T) error {
				s := map[string]any{"kind": kind, "type": "Periodic"}
				if group != nil {
					s["apiGroup"] = *group
				}
				if c.params != "" {
					s["parameters"] = js(c.params)
				}
				var spec opv1a1.Source
				if err := json.Unmarshal([]byte(str(s)), &spec); err != nil {
					return core.V("%v", err)
				}
				mgr := &kfake.Mgr{Ca: &fakeCache{}, C: kfake.New().Client(), Mapper: kfake.NewMapper(nativeGVK, plainGVK)}
				src := reconciler.NewSource(mgr, op, spec)
				gvk, err := src.GetGVK()
				if err != nil {
					return core.V("%v", err)
				}
				q := &reqQueue{}
				begin := time.Now()
				stop, err := startSource(src, q)
				if c.period == 0 {
					if err == nil {
						stop()
						return core.V("the period %s is accepted", c.params)
					}
					t.Out("%v", err)
					return nil
				}
				if err != nil {
					return core.V("%v", err)
				}
				defer stop()
				if c.period < 0 {
					if !strings.Contains(src.String(), "5m0s") {
						return core.V("the period is not the default: %s", src.String())
					}
					time.Sleep(20 * time.Millisecond)
					if q.Len() != 0 {
						return core.V("a request right away")
					}
					return nil
				}
				// There is one per period; how late they are depends on the machine.
				for i := 0; q.Len() < 3; i++ {
					if i > 30000 {
						return core.V("%d requests after %s", q.Len(), time.Since(begin))
					}
					time.Sleep(time.Millisecond)
				}
				stop()
				q.mu.Lock()
				defer q.mu.Unlock()
				for i, rq := range q.reqs {
					if rq.EventType != object.Updated || rq.Name != "periodic-trigger" || rq.GVK != gvk || rq.Object != nil {
						return core.V("odd request %s", rq.String())
					}
					if el := q.at[i].Sub(begin); el < time.Duration(i+1)*c.period-c.period/2 {
						return core.V("request %d after %s, with a period of %s", i+1, el, c.period)
					}
				}
				t.Out("%s", gvk)
				return nil
			})
		}
	}
}

var _ = sort.Strings
var _ = metav1.NamespaceAll
