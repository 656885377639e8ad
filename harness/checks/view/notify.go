package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"

	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/watch"
	toolscache "k8s.io/client-go/tools/cache"
	ctrlcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verif/core"
	. "verif/vobj"
)

var checkP16 = &core.Check{
	Property: "P16",
	Level:    "model_checking",
	Rule:     "a case is one sequence of writes and (de)registrations of event handlers or watches on a fresh storage, with the events of every handler and watch compared to the expected ones after every operation; an outcome is what all of them got",
	Assumptions: []string{
		"events of different objects may come in any order",
		"an event that was not delivered within 5 s counts as lost; extra events are found by sentinel writes, not by waiting",
		"creating an object that exists may show as Added or as an update, and to a watch whose selector the object leaves that way, not at all",
	},
	Run: runP16,
}

const patience = 5 * time.Second

// want is an event that is to come: one of the alternatives.
type want struct {
	alts []string
	opt  bool
	key  string
}

// rec has what a handler or a watch got, and what it is to get.
type rec struct {
	name string
	mu   sync.Mutex
	got  []string
	keys []string
	exp  []want
	bump chan struct{}
	dead bool // nothing is to come any more
	sel  func(M) bool
}

func newRec(name string) *rec { return &rec{name: name, bump: make(chan struct{}, 1)} }

func evStr(typ string, objs ...any) string {
	for _, o := range objs {
		typ += " " + Str(o)
	}
	return typ
}

func (h *rec) put(key, s string) {
	h.mu.Lock()
	h.got = append(h.got, s)
	h.keys = append(h.keys, key)
	h.mu.Unlock()
	select {
	case h.bump <- struct{}{}:
	default:
	}
}

func obj(o any) (Obj, string) {
	u, ok := o.(*unstructured.Unstructured)
	if !ok {
		return &unstructured.Unstructured{Object: M{"not an object": fmt.Sprintf("%T", o)}}, "?"
	}
	return u, u.GetNamespace() + "/" + u.GetName()
}

func (h *rec) OnAdd(o any, init bool) {
	u, k := obj(o)
	h.put(k, evStr(fmt.Sprintf("Added/%v", init), u))
	Scramble(u)
}

func (h *rec) OnUpdate(o, n any) {
	u, _ := obj(o)
	v, k := obj(n)
	h.put(k, evStr("Updated", u, v))
	Scramble(u)
	Scramble(v)
}

func (h *rec) OnDelete(o any) {
	u, k := obj(o)
	h.put(k, evStr("Deleted", u))
	Scramble(u)
}

// match compares what came for one object with what was to come. It is 0 if all is there, 1 if something is missing
// and 2 if something else came.
func match(exp []want, got []string) int {
	if len(exp) == 0 {
		if len(got) == 0 {
			return 0
		}
		return 2
	}
	best := 2
	if exp[0].opt {
		best = match(exp[1:], got)
	}
	if len(got) == 0 {
		if !exp[0].opt {
			return 1
		}
		return best
	}
	if slices.Contains(exp[0].alts, got[0]) {
		best = min(best, match(exp[1:], got[1:]))
	}
	return best
}

// settle waits until everything that was to come is there.
func (h *rec) settle() error {
	var timer <-chan time.Time
	for {
		h.mu.Lock()
		got, keys := slices.Clone(h.got), slices.Clone(h.keys)
		h.mu.Unlock()
		worst := 0
		ks := map[string]bool{}
		for _, k := range keys {
			ks[k] = true
		}
		for _, e := range h.exp {
			ks[e.key] = true
		}
		for k := range ks {
			var e []want
			var g []string
			for _, x := range h.exp {
				if x.key == k {
					e = append(e, x)
				}
			}
			for i, x := range keys {
				if x == k {
					g = append(g, got[i])
				}
			}
			r := match(e, g)
			if r == 2 {
				return core.V("%s got the events of %s\n    %s\n  instead of\n    %v", h.name, k, strings.Join(g, "\n    "), e)
			}
			worst = max(worst, r)
		}
		if worst == 0 {
			return nil
		}
		if timer == nil {
			timer = time.After(patience)
		}
		select {
		case <-h.bump:
		case <-timer:
			return core.V("%s is missing events: got\n    %s\n  but not all of\n    %v", h.name, strings.Join(got, "\n    "), h.exp)
		}
	}
}

// expect adds what a handler is to get for a write.
func (h *rec) expect(k key, create bool, old, cur M) {
	if h.dead {
		return
	}
	w := want{key: k.Namespace + "/" + k.Name}
	switch {
	case old == nil && cur == nil:
		return
	case old == nil:
		w.alts = []string{evStr("Added/false", cur)}
	case cur == nil:
		w.alts = []string{evStr("Deleted", old)}
	default:
		w.alts = []string{evStr("Updated", old, cur)}
		if create {
			w.alts = append(w.alts, evStr("Added/false", cur))
		}
		if Str(old) == Str(cur) {
			if !create {
				return
			}
			w.opt = true
		}
	}
	h.exp = append(h.exp, w)
}

// expectWatch adds what a watch is to get for a write.
func (h *rec) expectWatch(k key, create bool, old, cur M) {
	if h.dead {
		return
	}
	w := want{key: k.Namespace + "/" + k.Name}
	in, out := cur != nil && h.sel(cur), old != nil && h.sel(old)
	switch {
	case !in && !out:
		return
	case in && !out:
		w.alts = []string{evStr("ADDED", cur), evStr("MODIFIED", cur)}
	case in && out:
		w.alts = []string{evStr("MODIFIED", cur)}
		if create {
			w.alts = append(w.alts, evStr("ADDED", cur))
		}
		if Str(old) == Str(cur) {
			if !create {
				return
			}
			w.opt = true
		}
	case cur == nil:
		w.alts = []string{evStr("DELETED", old)}
	default:
		w.alts = []string{evStr("DELETED", old), evStr("DELETED", cur)}
		w.opt = create
	}
	h.exp = append(h.exp, w)
}

// hnd is a registered handler.
type hnd struct {
	*rec
	cacheID int // the informer it belongs to
	inf     ctrlcache.Informer
	reg     toolscache.ResourceEventHandlerRegistration
}

// env is one case.
type env struct {
	s           *sys
	m           *model
	g           schema.GroupVersionKind
	hs          []*hnd
	ws          []*rec
	start, stop []func()
	n           int
}

func (e *env) attach(f int) error {
	fr := e.s.fronts[f]
	var inf ctrlcache.Informer
	var err error
	if e.n%2 == 0 {
		inf, err = fr.cache.GetInformerForKind(ctx, e.g)
	} else {
		inf, err = fr.cache.GetInformer(ctx, New(e.g, key{}, M{}))
	}
	if err != nil {
		return core.V("informer via %s: %v", fr.name, err)
	}
	e.n++
	id := f
	if f == 3 {
		id = 1
	}
	h := &hnd{rec: newRec(fmt.Sprintf("handler %d via %s", e.n, fr.name)), cacheID: id, inf: inf}
	for k, c := range e.m.m[e.g] {
		h.exp = append(h.exp, want{key: k.Namespace + "/" + k.Name, alts: []string{evStr("Added/true", c)}})
	}
	if h.reg, err = inf.AddEventHandler(h); err != nil {
		return core.V("%s: %v", h.name, err)
	}
	e.hs = append(e.hs, h)
	return nil
}

func (e *env) detach(i int) error {
	var live []*hnd
	for _, h := range e.hs {
		if !h.dead {
			live = append(live, h)
		}
	}
	if len(live) == 0 {
		return nil
	}
	h := live[0]
	if i > 0 {
		h = live[len(live)-1]
	}
	if err := h.inf.RemoveEventHandler(h.reg); err != nil {
		return core.V("%s cannot be removed: %v", h.name, err)
	}
	h.dead = true
	return nil
}

func (e *env) drop(f int) error {
	if err := e.s.fronts[f].cache.RemoveInformer(ctx, New(e.g, key{}, M{})); err != nil {
		return core.V("informer via %s cannot be removed: %v", e.s.fronts[f].name, err)
	}
	for _, h := range e.hs {
		if h.cacheID == f {
			h.dead = true
		}
	}
	return nil
}

func (e *env) watch(f int, lo lopt, slow bool) error {
	c, cancel := context.WithCancel(ctx)
	fr := e.s.fronts[f]
	var wi watch.Interface
	var err error
	if w, ok := fr.cl.(client.WithWatch); ok && e.n%2 == 0 || fr.direct == nil {
		wi, err = w.Watch(c, List(e.g), lo.opts...)
	} else {
		wi, err = fr.direct.Watch(c, List(e.g), lo.opts...)
	}
	e.n++
	if err != nil {
		cancel()
		return core.V("watch via %s: %v", fr.name, err)
	}
	h := newRec(fmt.Sprintf("watch %d (%s) via %s", e.n, lo.name, fr.name))
	h.sel = lo.sel
	for k, o := range e.m.m[e.g] {
		if h.sel(o) {
			h.exp = append(h.exp, want{key: k.Namespace + "/" + k.Name, alts: []string{evStr("ADDED", o)}})
		}
	}
	read, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		<-read
		for ev := range wi.ResultChan() {
			u, k := obj(ev.Object)
			h.put(k, evStr(string(ev.Type), u))
			Scramble(u)
		}
	}()
	once := sync.OnceFunc(func() { close(read) })
	if !slow {
		once()
	}
	e.ws = append(e.ws, h)
	e.start = append(e.start, once)
	n := e.n
	e.stop = append(e.stop, func() {
		once()
		if n%2 == 0 {
			wi.Stop()
			wi.Stop()
			cancel()
		} else {
			cancel()
		}
		<-done
		wi.Stop()
	})
	return nil
}

func (e *env) write(o op) error {
	old, cur, err := o.run(e.s, e.m)
	if err != nil {
		return err
	}
	if o.g != e.g {
		return nil
	}
	create := strings.HasPrefix(o.name, "create") || strings.HasPrefix(o.name, "add")
	for _, h := range e.hs {
		h.expect(o.k, create, old, cur)
	}
	for _, w := range e.ws {
		w.expectWatch(o.k, create, old, cur)
	}
	return nil
}

func (e *env) settle(slow bool) error {
	for _, h := range e.hs {
		if err := h.settle(); err != nil {
			return err
		}
		if !h.dead && !h.reg.HasSynced() {
			for t := time.Now(); !h.reg.HasSynced(); time.Sleep(time.Millisecond) {
				if time.Since(t) > patience {
					return core.V("%s never synced", h.name)
				}
			}
		}
	}
	if !slow {
		for _, w := range e.ws {
			if err := w.settle(); err != nil {
				return err
			}
		}
	}
	// nobody changed what is stored
	l := List(e.g)
	if err := e.s.vc.List(ctx, l); err != nil {
		return core.V("list: %v", err)
	}
	if got, want := Strs(l.Items), e.m.list(e.g, func(M) bool { return true }); !slices.Equal(got, want) {
		return core.V("the storage holds %v, not %v", got, want)
	}
	return nil
}

// finish writes sentinels and ends all.
func (e *env) finish() error {
	for i, k := range keys[:3] {
		for _, o := range append(opsCached(e.g, k, "delete"), op{name: "create", g: e.g, k: k, f: i, do: func(s *sys, f *front, m *model) ([]any, error) {
			o := New(e.g, k, sentinel)
			return []any{o}, f.cl.Create(ctx, o)
		}, next: func(M) (M, bool) { return New(e.g, k, sentinel).Object, false }}) {
			if err := e.write(o); err != nil {
				return err
			}
		}
	}
	return e.settle(true)
}

var sentinel = JS(`{"metadata":{"labels":{"app":"a","t":"1"}},"spec":{"sentinel":true},"status":{"phase":"P","ready":true}}`)

func opsCached(g schema.GroupVersionKind, k key, name string) []op {
	for _, o := range ops(g, k, nil) {
		if strings.HasPrefix(o.name, name+"(") {
			return []op{o}
		}
	}
	core.Abort("no op %s", name)
	return nil
}

func (e *env) end(t *core.T) error {
	if err := e.finish(); err != nil {
		return err
	}
	// slow readers start now
	for _, f := range e.start {
		f()
	}
	for _, w := range e.ws {
		if err := w.settle(); err != nil {
			return err
		}
		t.Out("%d", len(w.got))
	}
	stopped := make(chan struct{})
	go func() {
		for _, f := range e.stop {
			f()
		}
		close(stopped)
	}()
	select {
	case <-stopped:
	case <-time.After(patience):
		return core.V("a watch that was stopped does not end")
	}
	// and nothing is to come from here on
	for _, w := range e.ws {
		w.dead = true
	}
	ws := make([]int, len(e.ws))
	for i, w := range e.ws {
		ws[i] = len(w.got)
	}
	if err := e.write(opsCached(e.g, keys[0], "delete")[0]); err != nil {
		return err
	}
	for i, w := range e.ws {
		w.mu.Lock()
		n := len(w.got)
		w.mu.Unlock()
		if n != ws[i] {
			return core.V("%s gets events after it was stopped", w.name)
		}
	}
	if err := e.settle(true); err != nil {
		return err
	}
	for _, h := range e.hs {
		slices.Sort(h.got)
		t.Out("%v", h.got)
	}
	return nil
}

// step is one operation of a case.
type step struct {
	name string
	do   func(e *env) error
}

func writes16(g schema.GroupVersionKind) []step {
	var r []step
	pick := map[string][]string{
		keys[0].String(): {"create0", "add1", "update0", "update1", "replace2", "patch1", "patch2", "patch3", "status0", "statuspatch2", "delete", "remove"},
		keys[1].String(): {"create1", "update0", "patch1", "delete"},
	}
	for ki, k := range keys[:2] {
		for _, o := range ops(g, k, []int{0, 1, 2}) {
			n := strings.Split(o.name, "(")[0]
			if slices.Contains(pick[k.String()], n) {
				i := len(r)
				r = append(r, step{fmt.Sprintf("%s%d", n, ki), func(e *env) error {
					o := o
					o.f = (i + e.n) % 4
					return e.write(o)
				}})
			}
		}
	}
	return r
}

func runP16(r *core.Run) {
	g, other := kinds[0], kinds[1]
	w := writes16(g)
	life := []step{
		{"detach-first", func(e *env) error { return e.detach(0) }},
		{"detach-last", func(e *env) error { return e.detach(1) }},
		{"drop0", func(e *env) error { return e.drop(0) }},
		{"drop1", func(e *env) error { return e.drop(1) }},
		{"drop2", func(e *env) error { return e.drop(2) }},
		{"other", func(e *env) error { return e.write(opsOther[e.n%len(opsOther)]) }},
	}
	for f := 0; f < 4; f++ {
		life = append(life, step{fmt.Sprintf("attach%d", f), func(e *env) error { return e.attach(f) }})
	}
	opsOther = ops(other, keys[0], []int{0})
	opsOther = []op{opsOther[0], opsOther[len(opsOther)-1]}
	al := append(slices.Clone(w), life...)
	run := func(id string, pre []step, seq []step) {
		r.Exec(id, nil, func(t *core.T) error {
			e := &env{s: newSys(), m: newModel(), g: g}
			for _, st := range append(slices.Clone(pre), seq...) {
				if err := st.do(e); err != nil {
					return err
				}
				if err := e.settle(false); err != nil {
					return core.V("after %s: %v", st.name, err)
				}
				t.Step(state(e.m))
			}
			return e.end(t)
		})
	}
	at := life[len(life)-4:]
	pres := [][]step{{at[0], at[1], at[2]}, {at[1], at[3], at[1]}, {w[0], at[2], at[0]}}
	d := r.Pick(3, 4)
	n := 1
	for i := 0; i < d; i++ {
		n *= len(al)
	}
	for pi, pre := range pres {
		r.Space(fmt.Sprintf("operations after three handlers were registered (start %d)", pi), "operations", len(al), "length", d, "sequences", n)
		r.Parallel(n, func(i int) {
			var seq []step
			id := fmt.Sprintf("handlers%d", pi)
			for j, x := 0, i; j < d; j++ {
				seq = append(seq, al[x%len(al)])
				id += "/" + al[x%len(al)].name
				x /= len(al)
			}
			run(id, pre, seq)
		})
	}
	watches16(r, g, w)
	stops16(r, g, w)
}

var opsOther []op

// watches16 are the sequences of writes seen by watches with all kinds of selectors.
func watches16(r *core.Run, g schema.GroupVersionKind, w []step) {
	d := r.Pick(3, 4)
	n := 1
	for i := 0; i < d; i++ {
		n *= len(w)
	}
	r.Space("writes seen by watches", "writes", len(w), "length", d, "sequences", n, "points where watches start", d+1)
	r.Parallel(n*(d+1), func(i int) {
		at, x := i%(d+1), i/(d+1)
		slow := (at+x)%2 == 0
		id := fmt.Sprintf("watch@%d", at)
		var seq []step
		for j := 0; j < d; j++ {
			seq = append(seq, w[x%len(w)])
			id += "/" + w[x%len(w)].name
			x /= len(w)
		}
		r.Exec(id, nil, func(t *core.T) error {
			e := &env{s: newSys(), m: newModel(), g: g}
			for j := 0; j <= d; j++ {
				if j == at {
					for li := 0; li < 8; li++ {
						lo := listOpts[(li*3+i)%len(listOpts)]
						if err := e.watch((i+li)%4, lo, slow); err != nil {
							return err
						}
					}
				}
				if j == d {
					break
				}
				if err := seq[j].do(e); err != nil {
					return err
				}
				if err := e.settle(slow); err != nil {
					return core.V("after %s: %v", seq[j].name, err)
				}
				t.Step(state(e.m))
			}
			return e.end(t)
		})
	})
	// many objects, and readers that are slow
	for _, n := range []int{1, 255, 256, 257, 300, 600} {
		for _, live := range []bool{false, true} {
			for f := 0; f < 4; f++ {
				r.Exec(fmt.Sprintf("many/%d/%v/%d", n, live, f), nil, func(t *core.T) error {
					e := &env{s: newSys(), m: newModel(), g: g}
					fill := func() error {
						for i := 0; i < n; i++ {
							k := key{Namespace: "n1", Name: fmt.Sprintf("o%d", i)}
							o := New(g, k, M{"metadata": M{"uid": fmt.Sprint(i), "labels": M{"app": "a", "t": "1"}}})
							if err := e.s.vc.Add(o); err != nil {
								return core.V("add: %v", err)
							}
							e.m.put(g, k, o.Object)
							e.m.get(g, k)["metadata"].(M)["uid"] = fmt.Sprint(i)
							for _, w := range e.ws {
								w.expectWatch(k, false, nil, e.m.get(g, k))
							}
							for _, h := range e.hs {
								h.expect(k, false, nil, e.m.get(g, k))
							}
						}
						return nil
					}
					if !live {
						if err := fill(); err != nil {
							return err
						}
					}
					for _, slow := range []bool{true, false} {
						if err := e.watch(f, listOpts[f], slow); err != nil {
							return err
						}
						if err := e.attach(f); err != nil {
							return err
						}
					}
					if live {
						if err := fill(); err != nil {
							return err
						}
					}
					return e.end(t)
				})
			}
		}
	}
}

// stops16 are the cases where a whole cache stops.
func stops16(r *core.Run, g schema.GroupVersionKind, w []step) {
	r.Space("an operator's cache stops", "cases", 2*2*len(w)*len(w))
	r.Parallel(4*len(w)*len(w), func(i int) {
		which, before := i%2, i/2%2
		a, b := i/4%len(w), i/4/len(w)
		r.Exec(fmt.Sprintf("stop/%d/%d/%s/%s", which, before, w[a].name, w[b].name), nil, func(t *core.T) error {
			e := &env{s: newSys(), m: newModel(), g: g}
			c, cancel := context.WithCancel(ctx)
			defer cancel()
			done := make(chan error, 1)
			attach := func() error {
				for f := 0; f < 4; f++ {
					if err := e.attach(f); err != nil {
						return err
					}
				}
				return nil
			}
			if before == 0 {
				if err := attach(); err != nil {
					return err
				}
			}
			go func() { done <- e.s.d[which].Start(c) }()
			if before == 1 {
				if err := attach(); err != nil {
					return err
				}
			}
			if err := w[a].do(e); err != nil {
				return err
			}
			if err := e.settle(false); err != nil {
				return err
			}
			cancel()
			if err := <-done; err != nil {
				return core.V("the stopped cache returns %v", err)
			}
			for _, h := range e.hs {
				if h.cacheID == which+1 {
					h.dead = true
				}
			}
			if err := w[b].do(e); err != nil {
				return err
			}
			if err := e.settle(false); err != nil {
				return err
			}
			return e.end(t)
		})
	})
}
