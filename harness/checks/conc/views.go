package main

import (
	"context"
	"fmt"
	"reflect"
	"slices"
	"strings"
	"time"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/watch"
	toolscache "k8s.io/client-go/tools/cache"
	ctrlcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"

	"verif/core"
	. "verif/vobj"
	"verif/vrt"
)

var checkP17 = &core.Check{
	Property: "P17",
	Level:    "model_checking",
	Rule:     "a case is one schedule of two or three threads that use the view storage at the same time; an outcome is what the operations returned, what is stored at the end and what every handler got",
	Assumptions: []string{
		"between the scheduling points (locks, other synchronizing calls, event handlers) threads do not interact: the Go race detector watches every schedule for accesses for which this would not hold",
		"client-go's thread-safe store is trusted",
		"creating an object that exists may show as Added or as an update; after a handler was removed or its informer dropped events may still be under way, in order",
	},
	Run: runP17,
}

var (
	ctx  = context.Background()
	kind = GVK("op1", "V")
	keyX = types.NamespacedName{Namespace: "n1", Name: "x"}
	keyY = types.NamespacedName{Namespace: "n1", Name: "y"}
)

// sys is a storage shared by three operators, with their fronts.
type sys struct {
	vc     *cache.ViewCache
	d      [3]*cache.DelegatingViewCache
	comp   *cache.CompositeCache
	caches []ctrlcache.Cache
	cls    []client.Client
}

func newSys() *sys {
	s := &sys{vc: cache.NewViewCache(cache.CacheOptions{})}
	for i := range s.d {
		s.d[i] = cache.NewDelegatingViewCache(s.vc, cache.CacheOptions{})
	}
	var err error
	s.comp, err = cache.NewCompositeCache(nil, cache.CacheOptions{ViewCache: s.d[0]})
	if err != nil {
		core.Abort("composite cache: %v", err)
	}
	cc, err := cache.NewClientForCache(nil, s.comp, cache.ClientOptions{})
	if err != nil {
		core.Abort("composite client: %v", err)
	}
	c2 := cache.NewViewCacheClient().(*cache.ViewCacheClient)
	c2.SetCache(s.d[1])
	s.caches = []ctrlcache.Cache{s.vc, s.comp, s.d[1], s.d[2]}
	s.cls = []client.Client{s.vc.GetClient(), cc, c2}
	return s
}

// rec is an event handler that records what it gets.
type rec struct {
	name   string
	front  int
	log    vrt.Log
	reg    toolscache.ResourceEventHandlerRegistration
	inf    ctrlcache.Informer
	watch  watch.Interface
	cancel func()
}

func ev(typ string, objs ...any) string {
	for _, o := range objs {
		typ += " " + Str(o)
	}
	return typ
}

func obj(o any) (Obj, string) {
	u, ok := o.(*unstructured.Unstructured)
	if !ok || u == nil {
		return &unstructured.Unstructured{Object: M{"not an object": fmt.Sprintf("%T", o)}}, "?"
	}
	return u, u.GetNamespace() + "/" + u.GetName()
}

func (h *rec) OnAdd(o any, init bool) {
	h.log.Enter()
	defer h.log.Leave()
	u, k := obj(o)
	h.log.Put(k, ev(fmt.Sprintf("Added/%v", init), u))
	vrt.P()
	Scramble(u)
}

func (h *rec) OnUpdate(o, n any) {
	h.log.Enter()
	defer h.log.Leave()
	u, _ := obj(o)
	v, k := obj(n)
	h.log.Put(k, ev("Updated", u, v))
	vrt.P()
	Scramble(u)
	Scramble(v)
}

func (h *rec) OnDelete(o any) {
	h.log.Enter()
	defer h.log.Leave()
	u, k := obj(o)
	h.log.Put(k, ev("Deleted", u))
	vrt.P()
	Scramble(u)
}

// state is the reference: the content of the storage by key, as canonical strings are not enough for patches.
type state map[string]M

func (s state) clone() state {
	r := state{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

// action is one operation of a thread.
type action struct {
	name string
	key  types.NamespacedName
	// do runs it on the storage and returns what is to be compared.
	do func(s *sys, w *world, f int) string
	// model applies it to the reference. It returns the result, and the event (if any) as alternatives.
	model func(st state) (string, []event)
	// h is the handler it attaches, detaches or kills.
	attach, detach int // index+1
	kills          int // front+1
	forever        bool
}

// world is what one execution works on.
type world struct {
	s    *sys
	recs []*rec
}

func content(k types.NamespacedName, c M) M {
	o := New(kind, k, c)
	o.SetUID(types.UID("u-" + k.Name))
	return o.Object
}

func mk(k types.NamespacedName, c M) Obj {
	return &unstructured.Unstructured{Object: runtime.DeepCopyJSON(content(k, c))}
}

func errStr(err error) string {
	switch {
	case err == nil:
		return "ok"
	case apierrors.IsNotFound(err):
		return "not found"
	}
	return err.Error()
}

var (
	cA = JS(`{"metadata":{"labels":{"app":"a"}},"spec":{"x":1,"l":[1,{"y":2}]},"status":{"p":1}}`)
	cB = JS(`{"metadata":{"labels":{"app":"b"}},"spec":{"x":2},"status":{"p":2}}`)
	cC = JS(`{"spec":{"x":3,"l":[3]}}`)
)

// event is what an operation causes.
type event struct {
	typ      string // or empty, for none
	old, new M
}

func added(c M) event      { return event{"Added/false", nil, c} }
func updated(o, c M) event { return event{"Updated", o, c} }
func deleted(c M) event    { return event{"Deleted", nil, c} }

// str is the event as handlers or watches record it.
func (e event) str(watch bool) string {
	switch {
	case e.typ == "":
		return ""
	case watch && e.typ == "Updated":
		return ev("MODIFIED", e.new)
	case watch && e.typ == "Deleted":
		return ev("DELETED", e.new)
	case watch:
		return ev("ADDED", e.new)
	case e.typ == "Updated":
		return ev(e.typ, e.old, e.new)
	}
	return ev(e.typ, e.new)
}

func put(k types.NamespacedName, c M) func(st state) (string, []event) {
	n := content(k, c)
	return func(st state) (string, []event) {
		old := st[k.String()]
		st[k.String()] = n
		alts := []event{added(n)}
		if old != nil {
			alts = append(alts, updated(old, n))
			if reflect.DeepEqual(old, n) {
				alts = append(alts, event{})
			}
		}
		return "ok", alts
	}
}

// change is the model of operations on existing objects.
func change(k types.NamespacedName, f func(old M) M) func(st state) (string, []event) {
	return func(st state) (string, []event) {
		old := st[k.String()]
		if old == nil {
			return "not found", nil
		}
		n := f(old)
		if reflect.DeepEqual(old, n) {
			return "ok", nil
		}
		st[k.String()] = n
		return "ok", []event{updated(old, n)}
	}
}

func create(n string, k types.NamespacedName, c M) action {
	return action{name: "create " + n, key: k, model: put(k, c), do: func(s *sys, w *world, f int) string {
		o := mk(k, c)
		err := s.cls[f].Create(ctx, o)
		Scramble(o)
		return errStr(err)
	}}
}

func add(n string, k types.NamespacedName, c M) action {
	return action{name: "add " + n, key: k, model: put(k, c), do: func(s *sys, w *world, f int) string {
		o := mk(k, c)
		err := s.d[f%2].Add(o)
		Scramble(o)
		return errStr(err)
	}}
}

func update(n string, k types.NamespacedName, c M) action {
	return action{name: "update " + n, key: k, model: change(k, func(M) M { return content(k, c) }), do: func(s *sys, w *world, f int) string {
		o := mk(k, c)
		err := s.cls[f].Update(ctx, o)
		Scramble(o)
		return errStr(err)
	}}
}

// store updates through the cache, as the controllers do, with an outdated version of the object.
func store(n string, k types.NamespacedName, c M) action {
	return action{name: "store " + n, key: k, do: func(s *sys, w *world, f int) string {
		o, p := mk(k, c), mk(k, cC)
		err := s.d[f%2].Update(p, o)
		Scramble(o)
		Scramble(p)
		return errStr(err)
	}, model: func(st state) (string, []event) {
		n := content(k, c)
		old := st[k.String()]
		st[k.String()] = n
		if old == nil {
			return "ok", []event{added(n), updated(content(k, cC), n)}
		}
		if reflect.DeepEqual(old, n) {
			return "ok", nil
		}
		return "ok", []event{updated(old, n)}
	}}
}

func patch(n string, k types.NamespacedName, js string) action {
	p := JS(js)
	return action{name: "patch " + n, key: k, model: change(k, func(old M) M { return Merge(old, p).(M) }), do: func(s *sys, w *world, f int) string {
		return errStr(s.cls[f].Patch(ctx, mk(k, M{}), client.RawPatch(types.MergePatchType, []byte(js))))
	}}
}

func status(n string, k types.NamespacedName, js string) action {
	p := JS(js)
	return action{name: "status " + n, key: k, model: change(k, func(old M) M {
		r := M{}
		for i, v := range old {
			r[i] = v
		}
		r["status"] = p
		return r
	}), do: func(s *sys, w *world, f int) string {
		o := mk(k, M{"status": runtime.DeepCopyJSONValue(p), "spec": M{"junk": int64(1)}})
		err := s.cls[f].Status().Update(ctx, o)
		Scramble(o)
		return errStr(err)
	}}
}

func del(k types.NamespacedName) action {
	return action{name: "delete", key: k, do: func(s *sys, w *world, f int) string {
		return errStr(s.cls[f].Delete(ctx, mk(k, M{})))
	}, model: func(st state) (string, []event) {
		old := st[k.String()]
		if old == nil {
			return "not found", nil
		}
		delete(st, k.String())
		return "ok", []event{deleted(old)}
	}}
}

func get(k types.NamespacedName) action {
	return action{name: "get", key: k, do: func(s *sys, w *world, f int) string {
		o := New(kind, k, M{})
		if err := s.cls[f].Get(ctx, k, o); err != nil {
			return errStr(err)
		}
		r := Str(o)
		Scramble(o)
		return r
	}, model: func(st state) (string, []event) {
		if c := st[k.String()]; c != nil {
			return Str(c), nil
		}
		return "not found", nil
	}}
}

func list() action {
	return action{name: "list", do: func(s *sys, w *world, f int) string {
		l := List(kind)
		if err := s.cls[f].List(ctx, l); err != nil {
			return errStr(err)
		}
		r := strings.Join(Strs(l.Items), " ")
		for i := range l.Items {
			Scramble(&l.Items[i])
		}
		return r
	}, model: func(st state) (string, []event) {
		var r []string
		for _, c := range st {
			r = append(r, Str(c))
		}
		slices.Sort(r)
		return strings.Join(r, " "), nil
	}}
}

func noEffect(state) (string, []event) { return "ok", nil }

// attach registers handler i on the informer of the front.
func attach(i int) action {
	return action{name: fmt.Sprintf("attach %d", i), attach: i + 1, model: noEffect, do: func(s *sys, w *world, f int) string {
		return errStr(w.attach(i, f))
	}}
}

// watching attaches watch i.
func watching(i int) action {
	return action{name: fmt.Sprintf("watch %d", i), attach: i + 1, model: noEffect, do: func(s *sys, w *world, f int) string {
		return errStr(w.attach(i, f+10))
	}}
}

// unwatch ends watch i, in one of two ways.
func unwatch(i int, cancel bool) action {
	return action{name: fmt.Sprintf("unwatch %d %v", i, cancel), detach: i + 1, model: noEffect, do: func(s *sys, w *world, f int) string {
		if cancel {
			w.recs[i].cancel()
		} else {
			w.recs[i].watch.Stop()
		}
		return "ok"
	}}
}

// collect reads all watches up to an object that is created for the purpose.
func (w *world) collect() error {
	if !slices.ContainsFunc(w.recs, func(h *rec) bool { return h.watch != nil }) {
		return nil
	}
	if err := w.s.vc.Add(mk(keyOf("z"), cC)); err != nil {
		return core.V("add: %v", err)
	}
	for i, h := range w.recs {
		if h.watch == nil {
			continue
		}
		timeout := time.After(patience)
	loop:
		for {
			select {
			case e, ok := <-h.watch.ResultChan():
				if !ok {
					break loop
				}
				u, k := obj(e.Object)
				if u.GetName() == "z" {
					break loop
				}
				h.log.Put(k, ev(string(e.Type), u))
			case <-timeout:
				return core.V("watch %d gets nothing more", i)
			}
		}
		h.cancel()
	}
	return nil
}

func (w *world) attach(i, f int) error {
	h := w.recs[i]
	if f >= 10 {
		h.front = -1
		c, cancel := context.WithCancel(ctx)
		h.cancel = cancel
		var err error
		if f == 10 {
			h.watch, err = w.s.vc.Watch(c, List(kind))
		} else {
			h.watch, err = w.s.d[f-11].Watch(c, List(kind))
		}
		return err
	}
	h.front = f
	o := &unstructured.Unstructured{}
	o.SetGroupVersionKind(kind)
	inf, err := w.s.caches[f].GetInformer(ctx, o)
	if err != nil {
		return err
	}
	h.inf = inf
	h.reg, err = inf.AddEventHandler(h)
	return err
}

func detach(i int) action {
	return action{name: fmt.Sprintf("detach %d", i), detach: i + 1, model: noEffect, do: func(s *sys, w *world, f int) string {
		h := w.recs[i]
		return errStr(h.inf.RemoveEventHandler(h.reg))
	}}
}

// drop removes the informer of an operator.
func drop(front int) action {
	return action{name: fmt.Sprintf("drop %d", front), kills: front + 1, model: noEffect, do: func(s *sys, w *world, f int) string {
		o := &unstructured.Unstructured{}
		o.SetGroupVersionKind(kind)
		return errStr(s.caches[front].RemoveInformer(ctx, o))
	}}
}

// stop runs the cache of an operator that is already told to stop.
func stop(front int) action {
	return action{name: fmt.Sprintf("stop %d", front), kills: front + 1, forever: true, model: noEffect, do: func(s *sys, w *world, f int) string {
		c, cancel := context.WithCancel(ctx)
		cancel()
		return errStr(s.d[front-1].Start(c))
	}}
}

// ran is an operation that was run.
type ran struct {
	*action
	thread     int
	start, end int
	res        string
}

// scenario is a set of threads and what there is before they start.
type scenario struct {
	name    string
	init    map[string]M
	pre     []int // fronts on which handlers 0.. are attached first
	threads [][]action
}

// lastHandler is the number of handlers of a scenario.
func (sc *scenario) handlers() int {
	n := len(sc.pre)
	for _, t := range sc.threads {
		for _, a := range t {
			n = max(n, a.attach, a.detach)
		}
	}
	return n
}

const patience = 5 * time.Second

func (sc *scenario) prepare(t *core.T) ([]func(), func(res vrt.Result) error) {
	s := newSys()
	w := &world{s: s}
	for i := 0; i < sc.handlers(); i++ {
		w.recs = append(w.recs, &rec{name: fmt.Sprintf("handler %d", i)})
	}
	for k, c := range sc.init {
		if err := s.vc.Add(mk(keyOf(k), c)); err != nil {
			return nil, func(vrt.Result) error { return core.V("init: %v", err) }
		}
	}
	for i, f := range sc.pre {
		if err := w.attach(i, f); err != nil {
			return nil, func(vrt.Result) error { return core.V("attach: %v", err) }
		}
	}
	logs := make([][]ran, len(sc.threads))
	var bodies []func()
	for i, acts := range sc.threads {
		log := make([]ran, len(acts))
		logs[i] = log
		bodies = append(bodies, func() {
			for j := range acts {
				r := &log[j]
				r.action, r.thread = &acts[j], i
				r.start = vrt.Tick()
				r.res = acts[j].do(s, w, i%len(s.cls))
				r.end = vrt.Tick()
			}
		})
	}
	return bodies, func(res vrt.Result) error {
		err := sc.judge(t, w, logs, res)
		return err
	}
}

// after is a write that follows everything else.
var after = create("C", keyY, cC)

func keyOf(name string) types.NamespacedName {
	return types.NamespacedName{Namespace: "n1", Name: name}
}

// final reads the storage.
func final(s *sys) (string, error) {
	l := List(kind)
	if err := s.vc.List(ctx, l); err != nil {
		return "", core.V("list: %v", err)
	}
	return strings.Join(Strs(l.Items), " "), nil
}

func (sc *scenario) judge(t *core.T, w *world, logs [][]ran, res vrt.Result) error {
	// What follows, when all that was removed is gone.
	post := make([]ran, 1)
	for i := range post {
		r := &post[i]
		r.action, r.thread = &after, len(logs)
		r.start = 1<<30 + 2*i
		r.res = r.do(w.s, w, 0)
		r.end = 1<<30 + 2*i + 1
	}
	logs = append(logs, post)
	fin, err := final(w.s)
	if err != nil {
		return err
	}
	if err := w.collect(); err != nil {
		return err
	}
	deadline := time.Now().Add(patience)
	for {
		evs := make([][]vrt.Rec, len(w.recs))
		for i, h := range w.recs {
			var over bool
			evs[i], over = h.log.Get()
			if over {
				return core.V("calls of handler %d overlap", i)
			}
		}
		l := &lin{sc: sc, w: w, logs: logs, fin: fin, evs: evs, loose: res.Wild}
		ok := l.search()
		if ok || time.Now().After(deadline) || (!res.Wild && l.extra) {
			var b strings.Builder
			for _, lg := range logs {
				for _, r := range lg {
					fmt.Fprintf(&b, "thread %d: %s [%d,%d] -> %s\n", r.thread, r.name, r.start, r.end, r.res)
				}
			}
			fmt.Fprintf(&b, "stored: %s\n", fin)
			for i, es := range evs {
				for _, e := range es {
					fmt.Fprintf(&b, "handler %d: %s\n", i, e.What)
				}
			}
			t.Out("%s", b.String())
			for _, lg := range logs {
				for _, r := range lg {
					t.Step(r.name + " -> " + r.res)
				}
			}
			t.Step(fin)
			if !ok {
				return core.V("no order of the operations explains this:\n%s%s", b.String(), l.why)
			}
			return nil
		}
		time.Sleep(time.Millisecond)
	}
}

// lin looks for an order of the operations that explains all that was observed.
type lin struct {
	sc    *scenario
	w     *world
	logs  [][]ran
	fin   string
	evs   [][]vrt.Rec
	loose bool // no real-time order
	extra bool // there is an event that cannot be explained by waiting
	why   string
	order []*ran
	alts  [][]event // the events of the operations in order
	pos   []int
}

func (l *lin) search() bool {
	st := state{}
	for k, c := range l.sc.init {
		st[keyOf(k).String()] = content(keyOf(k), c)
	}
	l.pos = make([]int, len(l.logs))
	l.extra = true
	return l.step(st, []state{st})
}

func (l *lin) step(st state, states []state) bool {
	end := true
	for i := range l.logs {
		if l.pos[i] == len(l.logs[i]) {
			continue
		}
		end = false
		r := &l.logs[i][l.pos[i]]
		if !l.loose {
			// Nothing that ended before this one began may come after it.
			ok := true
			for j := range l.logs {
				if j != i && l.pos[j] < len(l.logs[j]) && l.logs[j][l.pos[j]].end < r.start {
					ok = false
				}
			}
			if !ok {
				continue
			}
		}
		ns := st.clone()
		want, alts := r.model(ns)
		if want != r.res {
			if l.why == "" || len(l.order) > 0 {
				l.why = fmt.Sprintf("(%s returns %s)", r.name, want)
			}
			continue
		}
		l.pos[i]++
		l.order = append(l.order, r)
		l.alts = append(l.alts, alts)
		if l.step(ns, append(states, ns)) {
			return true
		}
		l.pos[i]--
		l.order = l.order[:len(l.order)-1]
		l.alts = l.alts[:len(l.alts)-1]
	}
	if !end {
		return false
	}
	var all []string
	for _, c := range st {
		all = append(all, Str(c))
	}
	slices.Sort(all)
	if strings.Join(all, " ") != l.fin {
		l.why = fmt.Sprintf("(stored would be %s)", strings.Join(all, " "))
		return false
	}
	for i := range l.w.recs {
		switch l.handler(i, states) {
		case 1:
			l.extra = false
			l.why = fmt.Sprintf("(handler %d misses something)", i)
			return false
		case 2:
			l.why = fmt.Sprintf("(handler %d gets something else)", i)
			return false
		}
	}
	return true
}

// handler compares what a handler got with what it is to get in the present order: 0 if it fits, 1 if something is
// missing, 2 if something else came.
func (l *lin) handler(i int, states []state) int {
	at, until := 0, len(l.order) // registered before the first operation
	if i >= len(l.sc.pre) {
		at = -1
	}
	began, ended := -1, -1
	for n, r := range l.order {
		if r.attach == i+1 {
			at, began, ended = n+1, r.start, r.end
		}
	}
	cut, maybe, gone := false, false, 1<<31
	front := l.w.recs[i].front
	for _, r := range l.order {
		switch {
		case r.detach == i+1, r.kills > 0 && r.kills-1 == front && r.start > ended:
			cut = true
			if l.w.recs[i].watch == nil { // watches end some time later
				gone = min(gone, r.end)
			}
		case r.kills > 0 && r.kills-1 == front && (r.end > began || r.forever):
			// At the same time as the handler is registered, so it may hit it or not.
			maybe, gone = true, min(gone, r.end)
		}
	}
	if at < 0 {
		if len(l.evs[i]) > 0 {
			return 2
		}
		return 0
	}
	if maybe && !cut {
		return min(l.events(i, at, until, false, 1<<31, states), l.events(i, at, until, true, gone, states))
	}
	return l.events(i, at, until, cut, gone, states)
}

func (l *lin) events(i, at, until int, cut bool, gone int, states []state) int {
	worst := 0
	for _, k := range []types.NamespacedName{keyX, keyY} {
		watch := l.w.recs[i].watch != nil
		var exp [][]string
		if c := states[at][k.String()]; c != nil {
			exp = append(exp, []string{event{"Added/true", nil, c}.str(watch)})
		}
		for n := at; n < until; n++ {
			r := l.order[n]
			if r.start > gone && (!l.loose || r.thread == len(l.sc.threads)) {
				continue // nothing of what happens after the end
			}
			if r.key == k && len(l.alts[n]) > 0 {
				var ss []string
				for _, e := range l.alts[n] {
					ss = append(ss, e.str(watch))
				}
				exp = append(exp, ss)
			}
		}
		var got []string
		for _, e := range l.evs[i] {
			if e.Key == k.String() {
				got = append(got, e.What)
			}
		}
		worst = max(worst, match(exp, got, cut))
	}
	for _, e := range l.evs[i] {
		if e.Key != keyX.String() && e.Key != keyY.String() && e.Key != keyOf("z").String() {
			worst = 2
		}
	}
	return worst
}

func match(exp [][]string, got []string, cut bool) int {
	if len(exp) == 0 {
		if len(got) == 0 {
			return 0
		}
		return 2
	}
	best := 2
	if slices.Contains(exp[0], "") {
		best = match(exp[1:], got, cut)
	}
	if len(got) == 0 {
		if cut {
			return 0
		}
		return min(best, 1)
	}
	if slices.Contains(exp[0], got[0]) {
		best = min(best, match(exp[1:], got[1:], cut))
	}
	return best
}
