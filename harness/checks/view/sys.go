package main

import (
	"context"
	"fmt"
	"sync"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	ctrlcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"

	"verif/core"
	. "verif/vobj"
)

var ctx = context.Background()

type key = types.NamespacedName

// front is one way to reach the storage.
type front struct {
	name   string
	cache  ctrlcache.Cache
	direct cache.ViewCacheInterface // nil for those that have no direct writes
	cl     client.Client
}

// sys is a storage shared by three operators, and a composite client.
type sys struct {
	vc     *cache.ViewCache
	d      [2]*cache.DelegatingViewCache
	fronts []*front
}

func newSys() *sys {
	s := &sys{vc: cache.NewViewCache(cache.CacheOptions{})}
	for i := range s.d {
		s.d[i] = cache.NewDelegatingViewCache(s.vc, cache.CacheOptions{})
	}
	c2 := cache.NewViewCacheClient().(*cache.ViewCacheClient)
	c2.SetCache(s.d[1])
	comp, err := cache.NewCompositeCache(nil, cache.CacheOptions{ViewCache: s.d[0]})
	if err != nil {
		core.Abort("composite cache: %v", err)
	}
	cc, err := cache.NewClientForCache(nil, comp, cache.ClientOptions{})
	if err != nil {
		core.Abort("composite client: %v", err)
	}
	s.fronts = []*front{
		{"shared", s.vc, s.vc, s.vc.GetClient()},
		{"delegating1", s.d[0], s.d[0], s.d[0].GetClient()},
		{"delegating2", s.d[1], s.d[1], c2},
		{"composite", comp, nil, cc},
	}
	return s
}

var (
	kinds = []schema.GroupVersionKind{GVK("op1", "V"), GVK("op2", "V"), GVK("op1", "W"), GVK("apps.v1.op1", "V")}
	keys  = []key{{Namespace: "n1", Name: "x"}, {Namespace: "n2", Name: "x"}, {Namespace: "n1", Name: "y"}, {Name: "x"}}

	contents = []M{
		JS(`{"metadata":{"labels":{"app":"a"},"annotations":{"k":"v"}},"spec":{"x":1,"l":[1,{"y":2}]},"status":{"phase":"P","ready":true,"n":{"m":[1]}}}`),
		JS(`{"metadata":{"labels":{"app":"b","t":"1"}},"spec":{"x":2}}`),
		JS(`{"spec":{"x":1,"l":[1,{"y":3}]},"status":{"phase":"Q","ready":false}}`),
		JS(`{"metadata":{"labels":{"app":"a","t":"1"}}}`),
	}
	patches = []M{
		JS(`{"spec":{"x":9}}`),
		JS(`{"metadata":{"labels":{"app":"b"}}}`),
		JS(`{"spec":{"l":null,"x":2},"status":{"phase":"P","c":{"d":1}}}`),
		JS(`{}`),
	}
	statuses = []M{JS(`{"phase":"P","z":{"l":[1]}}`), JS(`{"phase":"P","ready":true,"n":{"m":[1]}}`)}
)

// uids remembers, over all cases, which UID an object got.
var uids sync.Map

// model is the reference of the storage: the content by kind and key, with the UID.
type model struct {
	m map[schema.GroupVersionKind]map[key]M
}

func newModel() *model { return &model{map[schema.GroupVersionKind]map[key]M{}} }

func (m *model) get(g schema.GroupVersionKind, k key) M { return m.m[g][k] }

func (m *model) put(g schema.GroupVersionKind, k key, c M) {
	if m.m[g] == nil {
		m.m[g] = map[key]M{}
	}
	c = runtime.DeepCopyJSON(c)
	md, _ := c["metadata"].(M)
	delete(md, "uid")
	if u, ok := uids.Load(g.String() + "|" + k.String()); ok {
		md["uid"] = u
	}
	m.m[g][k] = c
}

func (m *model) del(g schema.GroupVersionKind, k key) { delete(m.m[g], k) }

// learn takes over the UID the storage made up for an object that was never seen before, in any case.
func (m *model) learn(s *sys, g schema.GroupVersionKind, k key) error {
	c := m.m[g][k]
	if c == nil {
		return nil
	}
	md := c["metadata"].(M)
	if _, ok := md["uid"]; ok {
		return nil
	}
	o := New(g, k, M{})
	if err := s.vc.Get(ctx, k, o); err != nil {
		return core.V("get %s %s: %v", g, k, err)
	}
	if o.GetUID() == "" {
		return core.V("%s %s has no UID", g.Kind, k)
	}
	id := g.String() + "|" + k.String()
	var err error
	uids.Range(func(i, u any) bool {
		if i != id && u == string(o.GetUID()) {
			err = core.V("%s and %s have the same UID", i, id)
		}
		return err == nil
	})
	if err != nil {
		return err
	}
	if u, loaded := uids.LoadOrStore(id, string(o.GetUID())); loaded && u != string(o.GetUID()) {
		return core.V("%s got the UID %s, and another time %v", id, o.GetUID(), u)
	}
	md["uid"] = string(o.GetUID())
	return nil
}

// op is one write.
type op struct {
	name string
	f    int // front
	g    schema.GroupVersionKind
	k    key
	// do performs it; arg objects are scrambled afterwards.
	do func(s *sys, f *front, m *model) (arg []any, err error)
	// next tells the new content; miss says that the write is to fail, as nothing is there.
	next func(old M) (new M, miss bool)
	// multi is for writes to many objects
	multi func(m *model)
}

func content(g schema.GroupVersionKind, k key, c M) M { return New(g, k, c).Object }

// ops is the alphabet of writes to one object.
func ops(g schema.GroupVersionKind, k key, cs []int) []op {
	var r []op
	mk := func(name string, do func(s *sys, f *front, m *model) ([]any, error), next func(M) (M, bool)) {
		r = append(r, op{name: fmt.Sprintf("%s(%s.%s %s)", name, g.Group[:4], g.Kind, k), g: g, k: k, do: do, next: next})
	}
	for _, ci := range cs {
		c := content(g, k, contents[ci])
		mk(fmt.Sprintf("create%d", ci), func(s *sys, f *front, m *model) ([]any, error) {
			o := New(g, k, contents[ci])
			return []any{o}, f.cl.Create(ctx, o)
		}, func(M) (M, bool) { return c, false })
		mk(fmt.Sprintf("add%d", ci), func(s *sys, f *front, m *model) ([]any, error) {
			if f.direct == nil {
				f = s.fronts[1]
			}
			o := New(g, k, contents[ci])
			return []any{o}, f.direct.Add(o)
		}, func(M) (M, bool) { return c, false })
		mk(fmt.Sprintf("update%d", ci), func(s *sys, f *front, m *model) ([]any, error) {
			o := New(g, k, contents[ci])
			return []any{o}, f.cl.Update(ctx, o)
		}, func(old M) (M, bool) { return c, old == nil })
		mk(fmt.Sprintf("replace%d", ci), func(s *sys, f *front, m *model) ([]any, error) {
			if f.direct == nil {
				f = s.fronts[1]
			}
			o := New(g, k, contents[ci])
			old := New(g, k, M{})
			if f.cache.Get(ctx, k, old) != nil {
				// nothing to update
				return nil, apierrors.NewNotFound(schema.GroupResource{}, "")
			}
			return []any{old, o}, f.direct.Update(old, o)
		}, func(old M) (M, bool) { return c, old == nil })
	}
	for i, p := range patches {
		next := func(old M) (M, bool) { r, _ := Merge(old, p).(M); return r, old == nil }
		mk(fmt.Sprintf("patch%d", i), func(s *sys, f *front, m *model) ([]any, error) {
			o := New(g, k, M{})
			return []any{o}, f.cl.Patch(ctx, o, client.RawPatch(types.MergePatchType, []byte(Str(p))))
		}, next)
		if i < 1 {
			mk(fmt.Sprintf("mergefrom%d", i), func(s *sys, f *front, m *model) ([]any, error) {
				o := New(g, k, M{})
				n := New(g, k, Merge(o.Object, p).(M))
				return []any{o, n}, f.cl.Patch(ctx, n, client.MergeFrom(o))
			}, next)
		}
		if i == 2 {
			mk(fmt.Sprintf("statuspatch%d", i), func(s *sys, f *front, m *model) ([]any, error) {
				o := New(g, k, M{})
				return []any{o}, f.cl.Status().Patch(ctx, o, client.RawPatch(types.MergePatchType, []byte(`{"status":{"phase":"R"}}`)))
			}, func(old M) (M, bool) {
				r, _ := Merge(old, JS(`{"status":{"phase":"R"}}`)).(M)
				return r, old == nil
			})
		}
	}
	for i, st := range statuses {
		next := func(old M) (M, bool) {
			if old == nil {
				return nil, true
			}
			n := runtime.DeepCopyJSON(old)
			n["status"] = runtime.DeepCopyJSON(st)
			return n, false
		}
		mk(fmt.Sprintf("status%d", i), func(s *sys, f *front, m *model) ([]any, error) {
			o := New(g, k, M{"spec": M{"ignored": true}, "status": st})
			return []any{o}, f.cl.Status().Update(ctx, o)
		}, next)
		if i == 0 {
			mk("substatus", func(s *sys, f *front, m *model) ([]any, error) {
				o, so := New(g, k, M{}), &unstructured.Unstructured{Object: M{"status": runtime.DeepCopyJSON(st)}}
				return []any{o, so}, f.cl.Status().Create(ctx, o, so)
			}, next)
		}
	}
	mk("delete", func(s *sys, f *front, m *model) ([]any, error) {
		o := New(g, k, M{"stale": true})
		return []any{o}, f.cl.Delete(ctx, o)
	}, func(old M) (M, bool) { return nil, old == nil })
	mk("remove", func(s *sys, f *front, m *model) ([]any, error) {
		if f.direct == nil {
			f = s.fronts[1]
		}
		o := New(g, k, M{})
		return []any{o}, f.direct.Delete(o)
	}, func(old M) (M, bool) { return nil, old == nil })
	return r
}

// run performs the write and updates the model. It tells which object changed how.
func (o *op) run(s *sys, m *model) (old, cur M, err error) {
	f := s.fronts[o.f]
	if o.multi != nil {
		args, err := o.do(s, f, m)
		if err != nil {
			return nil, nil, core.V("%s via %s: %v", o.name, f.name, err)
		}
		for _, a := range args {
			Scramble(a)
		}
		o.multi(m)
		return nil, nil, nil
	}
	old = m.get(o.g, o.k)
	n, miss := o.next(old)
	args, err := o.do(s, f, m)
	if miss {
		if err == nil || !apierrors.IsNotFound(err) {
			return nil, nil, core.V("%s via %s on an absent object: error %v", o.name, f.name, err)
		}
		n = nil
	} else if err != nil {
		return nil, nil, core.V("%s via %s: %v", o.name, f.name, err)
	}
	for _, a := range args {
		Scramble(a)
	}
	if n == nil {
		m.del(o.g, o.k)
		return old, nil, nil
	}
	m.put(o.g, o.k, n)
	if err := m.learn(s, o.g, o.k); err != nil {
		return nil, nil, err
	}
	return old, m.get(o.g, o.k), nil
}
