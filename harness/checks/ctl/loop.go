package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	apiextv1 "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/util/workqueue"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/event"
	"sigs.k8s.io/controller-runtime/pkg/reconcile"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/controller"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"

	"verif/core"
	"verif/kfake"
	"verif/ref"
	"verif/vrt"
)

// lslot is an object that may exist in a source.
type lslot struct {
	src      int
	key      types.NamespacedName
	contents []map[string]any
	// still: the object is there from the beginning, with its first content, and stays as it is
	still bool
}

// lscen is one controller with the alphabet of its sources.
type lscen struct {
	name    string
	sources []opv1a1.Source
	gvks    []schema.GroupVersionKind
	target  opv1a1.Target
	tgvk    schema.GroupVersionKind
	ops     string
	slots   []lslot
	// prior are objects in the target's kind from before.
	prior map[string]string
	// self: the target is the first source.
	self bool
	// ticks is how many times the periodic source fires.
	ticks int
	depth [2]int
	// faults is the number of failing calls
	faults [2]int
	opsRef []any
}

func src(g, v *string, kind string) opv1a1.Source {
	return opv1a1.Source{Resource: opv1a1.Resource{Group: g, Version: v, Kind: kind}}
}

func tgt(g, v *string, kind string, typ opv1a1.TargetType) opv1a1.Target {
	return opv1a1.Target{Resource: opv1a1.Resource{Group: g, Version: v, Kind: kind}, Type: typ}
}

func vgvk(kind string) schema.GroupVersionKind {
	return schema.GroupVersionKind{Group: op + ".view.dcontroller.io", Version: "v1alpha1", Kind: kind}
}

func nn(s string) types.NamespacedName {
	ns, n, _ := strings.Cut(s, "/")
	return types.NamespacedName{Namespace: ns, Name: n}
}

func docs(s ...string) []map[string]any {
	var out []map[string]any
	for _, x := range s {
		out = append(out, js(x))
	}
	return out
}

// crowd gives n objects that stay as they are.
func crowd(src, n int, content string) []lslot {
	var out []lslot
	for i := range n {
		out = append(out, lslot{src, nn(fmt.Sprintf("s/c%02d", i)), docs(fmt.Sprintf(content, i)), true})
	}
	return out
}

func list(from, to int) string {
	var out []string
	for i := from; i < to; i++ {
		out = append(out, fmt.Sprintf("\"e%02d\"", i))
	}
	return strings.Join(out, ",")
}

func loopScenarios() []*lscen {
	secretGVK := schema.GroupVersionKind{Version: "v1", Kind: "Secret"}
	a, b := vgvk("A"), vgvk("B")
	thing := tgt(p("apps.io"), p("v2"), "Thing", opv1a1.Updater)
	view := tgt(nil, nil, "TView", opv1a1.Updater)
	periodic := opv1a1.Source{Resource: opv1a1.Resource{Kind: "Ticker"}, Type: opv1a1.Periodic,
		Parameters: &apiextv1.JSON{Raw: []byte(`{"period":"1h"}`)}}
	gA, gB := []schema.GroupVersionKind{a}, []schema.GroupVersionKind{a, b}
	sA := []opv1a1.Source{src(nil, nil, "A")}
	sAB := []opv1a1.Source{src(nil, nil, "A"), src(nil, nil, "B")}
	proj := `[{"@project":{"metadata":{"name":"$.spec.n","namespace":"$.metadata.namespace"},"spec":{"v":{"@add":["$.spec.v",1]}}}}]`
	join := `[{"@join":{"@eq":["$.A.spec.k","$.B.spec.k"]}},{"@project":{"metadata":{"name":{"@concat":["$.A.metadata.name","-","$.B.metadata.name"]},"namespace":"d"},"spec":{"v":{"@add":["$.A.spec.v","$.B.spec.v"]}}}}]`
	return []*lscen{
		{name: "rename", sources: sA, gvks: gA, target: thing, tgvk: nativeGVK, ops: proj, depth: [2]int{4, 5}, faults: [2]int{1, 2},
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"n":"p","v":1}}`, `{"spec":{"n":"p","v":2}}`, `{"spec":{"n":"q","v":1}}`), false}}},
		{name: "two", sources: sA, gvks: gA, target: thing, tgvk: nativeGVK, ops: proj, depth: [2]int{4, 5}, faults: [2]int{1, 2},
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"n":"p","v":1}}`, `{"spec":{"n":"q","v":2}}`), false},
				{0, nn("t/a"), docs(`{"spec":{"n":"p","v":1}}`, `{"spec":{"n":"p","v":2}}`), false}}},
		{name: "unwind", sources: sA, gvks: gA, target: view, tgvk: viewGVK, depth: [2]int{4, 5}, faults: [2]int{1, 2},
			ops:   `[{"@unwind":"$.spec.l"},{"@project":{"metadata":{"name":"$.spec.l","namespace":"d"},"data":{"of":"$.spec.v"}}}]`,
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"v":1,"l":["p","q"]}}`, `{"spec":{"v":2,"l":["q","r"]}}`, `{"spec":{"v":1,"l":[]}}`), false}}},
		{name: "join", sources: sAB, gvks: gB, target: view, tgvk: viewGVK, ops: join, depth: [2]int{4, 5}, faults: [2]int{1, 2},
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"k":1,"v":1}}`, `{"spec":{"k":2,"v":1}}`), false},
				{1, nn("s/b"), docs(`{"spec":{"k":1,"v":10}}`, `{"spec":{"k":1,"v":20}}`), false}}},
		{name: "gather", sources: sA, gvks: gA, target: thing, tgvk: nativeGVK, depth: [2]int{4, 5}, faults: [2]int{1, 2},
			ops: `[{"@gather":["$.spec.g","$.spec.v"]},{"@project":{"metadata":{"name":"$.spec.g","namespace":"d"},"spec":{"s":{"@sum":"$.spec.v"}}}}]`,
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"g":"p","v":1}}`, `{"spec":{"g":"q","v":2}}`), false},
				{0, nn("s/b"), docs(`{"spec":{"g":"p","v":4}}`), false}}},
		{name: "bad", sources: sA, gvks: gA, target: thing, tgvk: nativeGVK, ops: proj, depth: [2]int{4, 5}, faults: [2]int{1, 2},
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"n":"p","v":1}}`, `{"spec":{"n":"p","v":"bad"}}`, `{"spec":{"n":"p","v":3}}`), false}}},
		{name: "bad-join", sources: sAB, gvks: gB, target: view, tgvk: viewGVK, ops: join, depth: [2]int{4, 5}, faults: [2]int{1, 2},
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"k":1,"v":1}}`, `{"spec":{"k":1,"v":"bad"}}`), false},
				{1, nn("s/b"), docs(`{"spec":{"k":1,"v":10}}`), false}}},
		{name: "secret", gvks: []schema.GroupVersionKind{secretGVK}, sources: []opv1a1.Source{src(p(""), p("v1"), "Secret")}, target: view, tgvk: viewGVK,
			depth: [2]int{4, 5}, faults: [2]int{2, 3}, ops: `[{"@project":{"metadata":{"name":"$.metadata.name","namespace":"d"},"data":"$.data"}}]`,
			// "bXl6bUE9PQ==" decodes to "myzmA==", which decodes further
			slots: []lslot{{0, nn("s/a"), docs(`{"data":{"k":"bXl6bUE9PQ==","l":"cGxhaW4="}}`, `{"data":{"k":"dHdv"}}`, `{"type":"bad","data":{"a":"cGxhaW4=","k":"%%%","z":"cGxhaW4="}}`), false}}},
		{name: "secret-patch", self: true, gvks: []schema.GroupVersionKind{secretGVK}, sources: []opv1a1.Source{src(p(""), p("v1"), "Secret")},
			target: tgt(p(""), p("v1"), "Secret", opv1a1.Patcher), tgvk: secretGVK, depth: [2]int{3, 4}, faults: [2]int{2, 3},
			ops:   `[{"@project":{"metadata":{"name":"$.metadata.name","namespace":"$.metadata.namespace","annotations":{"is":"$.data.k"}}}}]`,
			slots: []lslot{{0, nn("s/a"), docs(`{"data":{"k":"bXl6bUE9PQ==","l":"cGxhaW4="}}`, `{"data":{"k":"dHdv"}}`), false}}},
		{name: "patch", sources: sA, gvks: gA, target: tgt(p("apps.io"), p("v2"), "Thing", opv1a1.Patcher), tgvk: nativeGVK, depth: [2]int{4, 5}, faults: [2]int{1, 2},
			prior: map[string]string{"d/p": `{"spec":{"x":1,"y":{"z":2}}}`, "d/q": `{"metadata":{"labels":{"own":"ed"}},"spec":{"x":1,"y":{"w":0}}}`},
			ops:   `[{"@project":{"metadata":{"name":"$.spec.n","namespace":"d","labels":{"by":"me"}},"spec":{"y":{"v":"$.spec.v"}}}}]`,
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"n":"p","v":1}}`, `{"spec":{"n":"p","v":2}}`, `{"spec":{"n":"q","v":1}}`), false}}},
		{name: "periodic", sources: append(append([]opv1a1.Source{}, sA...), periodic), gvks: gA, target: thing, tgvk: nativeGVK, ops: proj, depth: [2]int{3, 4}, faults: [2]int{1, 2}, ticks: 2,
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"n":"p","v":1}}`, `{"spec":{"n":"q","v":2}}`, `{"spec":{"n":"p","v":"bad"}}`), false}}},
		{name: "periodic-join", sources: append(append([]opv1a1.Source{}, sAB...), periodic), gvks: gB, target: view, tgvk: viewGVK, ops: join, depth: [2]int{4, 5}, faults: [2]int{1, 2}, ticks: 1,
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"k":1,"v":1}}`), false}, {1, nn("s/b"), docs(`{"spec":{"k":1,"v":10}}`, `{"spec":{"k":2,"v":10}}`), false}}},
		{name: "oneshot", sources: []opv1a1.Source{{Resource: opv1a1.Resource{Kind: "A"}, Type: opv1a1.OneShot}}, gvks: gA, target: thing, tgvk: nativeGVK, depth: [2]int{1, 1}, faults: [2]int{2, 3},
			ops:   `[{"@project":{"metadata":{"name":"init","namespace":"d"},"spec":{"from":"$.metadata.name"}}}]`,
			slots: []lslot{{0, nn("/" + reconciler.OneShotSourceObjectName), docs(`{}`), false}}},
		// Large instances: most of the objects stay as they are.
		{name: "crowd", sources: append(append([]opv1a1.Source{}, sA...), periodic), gvks: gA, target: thing, tgvk: nativeGVK, ops: proj, depth: [2]int{2, 3}, faults: [2]int{1, 2}, ticks: 1,
			slots: append(crowd(0, 24, `{"spec":{"n":"c%02d","v":1}}`),
				lslot{0, nn("s/a"), docs(`{"spec":{"n":"p","v":1}}`, `{"spec":{"n":"q","v":2}}`), false},
				lslot{0, nn("s/zz"), docs(`{"spec":{"n":"r","v":1}}`), false})},
		{name: "crowd-unwind", sources: sA, gvks: gA, target: view, tgvk: viewGVK, depth: [2]int{2, 3}, faults: [2]int{1, 1},
			ops: `[{"@unwind":"$.spec.l"},{"@project":{"metadata":{"name":"$.spec.l","namespace":"d"},"data":{"of":"$.spec.v"}}}]`,
			slots: []lslot{{0, nn("s/a"), docs(`{"spec":{"v":1,"l":[`+list(0, 20)+`]}}`, `{"spec":{"v":2,"l":[`+list(0, 20)+`]}}`,
				`{"spec":{"v":1,"l":[`+list(10, 30)+`]}}`, `{"spec":{"v":1,"l":["e03"]}}`), false}}},
		{name: "crowd-join", sources: sAB, gvks: gB, target: view, tgvk: viewGVK, ops: join, depth: [2]int{2, 3}, faults: [2]int{1, 1},
			slots: append(append(crowd(0, 12, `{"spec":{"k":1,"v":%d,"w":0}}`), crowd(1, 12, `{"spec":{"k":2,"v":1%02d}}`)...),
				lslot{0, nn("s/a"), docs(`{"spec":{"k":2,"v":1}}`, `{"spec":{"k":3,"v":1}}`), false},
				lslot{1, nn("s/b"), docs(`{"spec":{"k":1,"v":10}}`, `{"spec":{"k":1,"v":20}}`), false})},
		{name: "crowd-gather", sources: sA, gvks: gA, target: thing, tgvk: nativeGVK, depth: [2]int{2, 3}, faults: [2]int{1, 2},
			ops: `[{"@gather":["$.spec.g","$.spec.v"]},{"@project":{"metadata":{"name":"$.spec.g","namespace":"d"},"spec":{"s":{"@sum":"$.spec.v"}}}}]`,
			slots: append(crowd(0, 24, `{"spec":{"g":"p","v":1%02d}}`),
				lslot{0, nn("s/a"), docs(`{"spec":{"g":"p","v":1}}`, `{"spec":{"g":"q","v":2}}`), false},
				lslot{0, nn("s/zz"), docs(`{"spec":{"g":"p","v":4}}`), false})},
	}
}

// lev is an event of a history.
type lev struct{ slot, to int }

func (s *lscen) histories(depth int) [][]lev {
	st := make([]int, len(s.slots))
	for i := range st {
		st[i] = -1
	}
	still := 0
	for still < len(s.slots) && s.slots[still].still {
		still++
	}
	var out [][]lev
	var h []lev
	var rec func()
	rec = func() {
		if len(h) == depth {
			out = append(out, append([]lev{}, h...))
			return
		}
		for i, sl := range s.slots {
			if i < still {
				continue
			}
			for to := -1; to < len(sl.contents); to++ {
				if to == st[i] && (to < 0 || len(sl.contents) > 1) {
					continue
				}
				if to == st[i] && to >= 0 { // with one content only: no change
					continue
				}
				old := st[i]
				st[i] = to
				h = append(h, lev{i, to})
				rec()
				h = h[:len(h)-1]
				st[i] = old
			}
		}
	}
	rec()
	return out
}

func (s *lscen) hist(h []lev) string {
	var out []string
	for _, e := range h {
		out = append(out, fmt.Sprintf("%s:%s#%d", s.gvks[s.slots[e.slot].src].Kind, s.slots[e.slot].key, e.to))
	}
	return strings.Join(out, " ")
}

func (s *lscen) kinds() []string {
	var out []string
	for _, g := range s.gvks {
		out = append(out, g.Kind)
	}
	return out
}

// decode is what the pipeline sees of a Secret's content.
func decode(m map[string]any) map[string]any {
	m = runtime.DeepCopyJSON(m)
	if d, ok := m["data"].(map[string]any); ok {
		for k, v := range d {
			if x, ok := map[any]string{"bXl6bUE9PQ==": "myzmA==", "cGxhaW4=": "plain", "dHdv": "two"}[v]; ok {
				d[k] = x
			}
		}
	}
	return m
}

// expect gives the target's objects for a state of the sources, or an error if it cannot be evaluated.
func (s *lscen) expect(st []int) (map[string]map[string]any, error) {
	if s.opsRef == nil {
		s.opsRef = ref.Parse(s.ops).([]any)
	}
	var srcs []ref.Source
	for i, g := range s.gvks {
		x := ref.Source{Kind: g.Kind}
		for j, sl := range s.slots {
			if sl.src == i && st[j] >= 0 {
				o := obj(g, sl.key, sl.contents[st[j]])
				d := o.Object
				if g.Kind == "Secret" {
					d = decode(d)
				}
				if sl.key.Namespace == "" {
					unstructured.RemoveNestedField(d, "metadata", "namespace")
				}
				x.Docs = append(x.Docs, d)
			}
		}
		srcs = append(srcs, x)
	}
	alts, err := ref.Pipeline(s.opsRef, srcs)
	if err != nil {
		return nil, err
	}
	ret := map[string]map[string]any{}
	for _, d := range alts[0] {
		d = fix(runtime.DeepCopyJSON(toJSON(d))).(map[string]any)
		n, _, _ := unstructured.NestedString(d, "metadata", "name")
		ns, _, _ := unstructured.NestedString(d, "metadata", "namespace")
		if n == "" {
			return nil, errors.New("no name")
		}
		ret[ns+"/"+n] = d
	}
	return ret, nil
}

func toJSON(d map[string]any) map[string]any { return js(str(d)) }

// want gives the canonical target store.
func (s *lscen) want(st []int) (map[string]string, error) {
	res, err := s.expect(st)
	if err != nil {
		return nil, err
	}
	ret := map[string]string{}
	if s.target.Type != opv1a1.Patcher {
		for k, d := range res {
			d["apiVersion"], d["kind"] = s.tgvk.GroupVersion().String(), s.tgvk.Kind
			ret[k] = ref.Canon(ref.SortLists(d))
		}
		return ret, nil
	}
	base := map[string]map[string]any{}
	for k, c := range s.prior {
		base[k] = js(c)
	}
	if s.self {
		for j, sl := range s.slots {
			if st[j] >= 0 {
				base[sl.key.String()] = runtime.DeepCopyJSON(sl.contents[st[j]])
			}
		}
	}
	for k, b := range base {
		o := obj(s.tgvk, nn(k), b).Object
		if d, ok := res[k]; ok {
			delete(d, "apiVersion")
			delete(d, "kind")
			mergeInto(o, d)
		}
		ret[k] = ref.Canon(ref.SortLists(o))
	}
	return ret, nil
}

func mergeInto(a, b map[string]any) {
	for k, v := range b {
		if m, ok := v.(map[string]any); ok {
			if n, ok := a[k].(map[string]any); ok {
				mergeInto(n, m)
				continue
			}
		}
		a[k] = v
	}
}

// queue collects the requests a source generates.
type queue struct {
	workqueue.TypedRateLimitingInterface[reconciler.Request]
	reqs []reconciler.Request
}

func (q *queue) Add(r reconciler.Request)            { q.reqs = append(q.reqs, r) }
func (q *queue) AddRateLimited(r reconciler.Request) { q.reqs = append(q.reqs, r) }

type recon interface {
	Reconcile(context.Context, reconciler.Request) (reconcile.Result, error)
}

// request is a request that is under way.
type request struct {
	src   int
	req   reconciler.Request
	snap  string
	ev    *lev
	stale bool // failed, and nothing has happened since
}

var errLost = errors.New("connection lost")

func (s *lscen) run(t *core.T, c *core.Choices, h []lev, faults bool) error {
	srv := kfake.New()
	srv.NeedRV = s.tgvk.Group == "apps.io"
	for k, v := range s.prior {
		srv.Edit(s.tgvk, nn(k), func(o *unstructured.Unstructured) bool {
			for kk, vv := range js(v) {
				if kk == "metadata" {
					mergeInto(o.Object["metadata"].(map[string]any), vv.(map[string]any))
				} else {
					o.Object[kk] = vv
				}
			}
			return true
		})
	}
	hooked := &kfake.Hooked{Client: srv.Client()}
	mgr := &kfake.Mgr{C: hooked, Mapper: kfake.NewMapper(nativeGVK, plainGVK)}
	var pl opv1a1.Pipeline
	if err := pl.UnmarshalJSON([]byte(s.ops)); err != nil {
		return core.V("%v", err)
	}
	ctl, err := controller.NewDeclarative(mgr, op, opv1a1.Controller{Name: "c", Sources: s.sources, Pipeline: pl, Target: s.target}, controller.Options{})
	if err != nil {
		return core.V("the controller cannot be created: %v", err)
	}
	var recs []recon
	for _, x := range mgr.Runnables() {
		r, ok := x.(recon)
		if !ok {
			core.Abort("runnable %T cannot reconcile", x)
		}
		recs = append(recs, r)
	}
	if len(recs) != len(s.sources) {
		return core.V("%d reconcilers for %d sources", len(recs), len(s.sources))
	}

	// The events, as the sources' event handler turns them into requests.
	ctx := context.Background()
	queues := make([][]*request, len(recs))
	eh := reconciler.EventHandler[client.Object]{}
	st := make([]int, len(s.slots))
	for i := range st {
		st[i] = -1
	}
	cur := make([]*unstructured.Unstructured, len(s.slots))
	pre := 0
	for pre < len(s.slots) && s.slots[pre].still {
		pre++
	}
	if pre > 0 {
		all := []lev{}
		for i := range pre {
			all = append(all, lev{i, 0})
		}
		h = append(all, h...)
	}
	for i := range h {
		e := h[i]
		sl := s.slots[e.slot]
		g := s.gvks[sl.src]
		q := &queue{}
		var o *unstructured.Unstructured
		if e.to >= 0 {
			o = obj(g, sl.key, sl.contents[e.to])
		}
		switch {
		case cur[e.slot] == nil:
			eh.Create(ctx, event.TypedCreateEvent[client.Object]{Object: o}, q)
		case o == nil:
			eh.Delete(ctx, event.TypedDeleteEvent[client.Object]{Object: cur[e.slot]}, q)
		default:
			eh.Update(ctx, event.TypedUpdateEvent[client.Object]{ObjectOld: cur[e.slot], ObjectNew: o}, q)
		}
		cur[e.slot] = o
		if len(q.reqs) != 1 {
			return core.V("event %s gave %d requests", s.hist(h[i:i+1]), len(q.reqs))
		}
		if i < pre {
			if _, err := recs[sl.src].Reconcile(ctx, q.reqs[0]); err != nil {
				return core.V("%s fails: %v", s.hist(h[i:i+1]), err)
			}
			st[e.slot] = 0
			continue
		}
		queues[sl.src] = append(queues[sl.src], &request{src: sl.src, req: q.reqs[0], snap: str(q.reqs[0].Object), ev: &h[i]})
	}
	ticks := s.ticks
	var failed []*request
	log := []string{}
	injected := false
	if faults {
		hooked.Hook = func(call kfake.Call) kfake.Fate {
			if call.GVK != s.tgvk {
				return kfake.Fate{}
			}
			n := 3
			if call.Verb == "get" || call.Verb == "list" {
				n = 2
			}
			switch c.Fault(n) {
			case 1:
				log = append(log, "lost:"+call.Verb)
				injected = true
				return kfake.Fate{Before: errLost}
			case 2:
				log = append(log, "lost-reply:"+call.Verb)
				injected = true
				return kfake.Fate{After: errLost}
			}
			return kfake.Fate{}
		}
	}

	for step := 0; step < 200; step++ {
		// what may happen next
		var next []*request
		for i := range queues {
			if len(queues[i]) > 0 {
				next = append(next, queues[i][0])
			}
		}
		for _, f := range failed {
			if !f.stale {
				next = append(next, f)
			}
		}
		n := len(next)
		if ticks > 0 {
			n++
		}
		if n == 0 {
			break
		}
		k := c.Pick(n)
		var rq *request
		retry := false
		if k == len(next) {
			ticks--
			rq = &request{src: len(recs) - 1, req: reconciler.Request{GVK: vgvk("Ticker"), Name: reconciler.PeriodicSourceObjectName, EventType: object.Updated}}
			log = append(log, "tick")
		} else {
			rq = next[k]
			what := "tick"
			if rq.ev != nil {
				what = s.hist([]lev{*rq.ev})
			}
			for i, f := range failed {
				if f == rq {
					failed = append(failed[:i:i], failed[i+1:]...)
					retry = true
					break
				}
			}
			if retry {
				log = append(log, "retry("+what+")")
			} else {
				log = append(log, what)
				queues[rq.src] = queues[rq.src][1:]
			}
		}
		if s.self && rq.ev != nil && !retry {
			// the stored object is what the event says
			sl := s.slots[rq.ev.slot]
			srv.Edit(s.tgvk, sl.key, func(o *unstructured.Unstructured) bool {
				if rq.ev.to < 0 {
					return false
				}
				for k := range o.Object {
					if k != "metadata" && k != "kind" && k != "apiVersion" {
						delete(o.Object, k)
					}
				}
				for k, v := range sl.contents[rq.ev.to] {
					o.Object[k] = v
				}
				return true
			})
		}
		injected = false
		_, err := recs[rq.src].Reconcile(ctx, rq.req)
		if rq.ev != nil && str(rq.req.Object) != rq.snap {
			return core.V("%s: the object in the request was changed from %s to %s", strings.Join(log, ", "), rq.snap, str(rq.req.Object))
		}
		if err != nil {
			// without an injected fault the same will happen again unless something else happens first
			rq.stale = !injected
			failed = append(failed, rq)
			log = append(log, "failed")
		}
		if err == nil || !retry {
			for _, f := range failed {
				if f != rq {
					f.stale = false
				}
			}
		}
		if rq.ev != nil && !retry {
			st[rq.ev.slot] = rq.ev.to
		}
		if len(failed) == 0 {
			if err := s.compare(srv, st, log); err != nil {
				return err
			}
		}
		t.Step(s.name + "|" + fmt.Sprint(st, len(failed), len(queues)) + str(srv.All(s.tgvk)))
	}
	if _, err := s.want(st); err == nil {
		for _, f := range failed {
			if f.ev == nil || f.ev.to >= 0 {
				return core.V("%s: a request keeps failing although nothing is wrong any more", strings.Join(log, ", "))
			}
		}
		if err := s.compare(srv, st, log); err != nil {
			return err
		}
	}
	t.Out("%s", str(srv.All(s.tgvk)))
	if ctl.GetName() != "c" {
		return core.V("name %q", ctl.GetName())
	}
	return nil
}

func (s *lscen) compare(srv *kfake.Server, st []int, log []string) error {
	want, err := s.want(st)
	if err != nil {
		return core.V("%s: all requests succeeded although the sources cannot be evaluated: %v", strings.Join(log, ", "), err)
	}
	got := map[string]string{}
	for k, o := range srv.All(s.tgvk) {
		for _, f := range []string{"resourceVersion", "uid", "creationTimestamp", "generation"} {
			unstructured.RemoveNestedField(o.Object, "metadata", f)
		}
		for _, f := range []string{"labels", "annotations"} {
			if a, ok := o.Object["metadata"].(map[string]any)[f].(map[string]any); ok && len(a) == 0 {
				unstructured.RemoveNestedField(o.Object, "metadata", f)
			}
		}
		got[k] = ref.Canon(ref.SortLists(o.Object))
	}
	if !reflect.DeepEqual(got, want) {
		return core.V("%s: the target has %s, evaluating the sources gives %s", strings.Join(log, ", "), sorted(got), sorted(want))
	}
	return nil
}

func sorted(m map[string]string) string {
	var out []string
	for k, v := range m {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return "{" + strings.Join(out, "; ") + "}"
}

var checkP12 = &core.Check{
	Property: "P12",
	Level:    "model_checking",
	Rule: "a case is one history of source events of one controller, one interleaving of the delivery of its requests, of " +
		"retries of failed ones and of ticks of the periodic source, and one placement of lost calls and lost replies; the " +
		"target is compared with a from-scratch evaluation of the delivered sources whenever no request is outstanding, and at the end",
	Run: func(r *core.Run) {
		for _, order := range []int{vrt.Asc, vrt.Desc} {
			vrt.SetOrder(order)
			for _, s := range loopScenarios() {
				s.expect(make([]int, len(s.slots)))
				hs := s.histories(r.Pick(s.depth[0], s.depth[1]))
				lim := r.Pick(s.faults[0], s.faults[1])
				if order == vrt.Desc {
					lim = 0
				}
				counts := make([]int, len(hs))
				s := s
				r.Parallel(len(hs), func(i int) {
					h := hs[i]
					counts[i] = r.Explore(fmt.Sprintf("%s order=%d faults=%d: %s", s.name, order, lim, s.hist(h)), lim, func(t *core.T, c *core.Choices) error {
						return s.run(t, c, h, lim > 0)
					})
				})
				n := 0
				for _, x := range counts {
					n += x
				}
				r.Space(s.name, "map_order", order, "histories", len(hs), "schedules", n, "faults", lim)
			}
		}
	},
}
