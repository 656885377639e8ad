package main

import (
	"context"
	"encoding/json"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/watch"
	toolscache "k8s.io/client-go/tools/cache"
	ctrlcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"

	"github.com/l7mp/dcontroller/pkg/cache"

	"verif/core"
	"verif/kapi"
	"verif/vobj"
)

// form is how an object of a kind is represented by the user of the client.
type form string

const (
	loose   form = "unstructured"
	typed   form = "typed"
	partial form = "metadata only"
)

// kind is a kind of the check.
type kind struct {
	name string
	gvk  schema.GroupVersionKind
	view bool
	form form
	// section is where the data of an object are.
	section string
}

func (k kind) String() string { return k.name }

var (
	cm     = schema.GroupVersionKind{Version: "v1", Kind: "ConfigMap"}
	widget = schema.GroupVersionKind{Group: "example.io", Version: "v1", Kind: "Widget"}
	gadget = schema.GroupVersionKind{Group: "example.io", Version: "v1", Kind: "Gadget"} // not in namespaces
	// The name and the version are nearly those of views.
	review = schema.GroupVersionKind{Group: "review.dcontroller.io", Version: "v1alpha1", Kind: "Widget"}
	inview = schema.GroupVersionKind{Group: "view.dcontroller.io.example.org", Version: "v1alpha1", Kind: "Widget"}

	kCM     = kind{"cm", cm, false, loose, "data"}
	kTyped  = kind{"cm-typed", cm, false, typed, "data"}
	kMeta   = kind{"cm-meta", cm, false, partial, "data"}
	kWidget = kind{"widget", widget, false, loose, "spec"}
	kGadget = kind{"gadget", gadget, false, loose, "spec"}
	kReview = kind{"review", review, false, loose, "spec"}
	kInview = kind{"inview", inview, false, loose, "spec"}
	kView   = kind{"view", vobj.GVK("op1", "Widget"), true, loose, "spec"}
	kView2  = kind{"view2", vobj.GVK("op2", "Widget"), true, loose, "spec"}
)

func listKind(gvk schema.GroupVersionKind) schema.GroupVersionKind {
	gvk.Kind += "List"
	return gvk
}

// object makes an object with data.
func (k kind) object(name, v string, labels map[string]string) client.Object {
	switch k.form {
	case typed:
		o := &corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: "d", Name: name, Labels: labels}}
		if v != "" {
			o.Data = map[string]string{"v": v}
		}
		return o
	case partial:
		o := &metav1.PartialObjectMetadata{ObjectMeta: metav1.ObjectMeta{Namespace: "d", Name: name, Labels: labels}}
		o.SetGroupVersionKind(k.gvk)
		return o
	}
	o := &unstructured.Unstructured{Object: map[string]any{}}
	o.SetGroupVersionKind(k.gvk)
	o.SetNamespace("d")
	o.SetName(name)
	o.SetLabels(labels)
	if v != "" {
		o.Object[k.section] = map[string]any{"v": v}
	}
	return o
}

// empty makes an object to read into.
func (k kind) empty() client.Object {
	switch k.form {
	case typed:
		return &corev1.ConfigMap{}
	case partial:
		o := &metav1.PartialObjectMetadata{}
		o.SetGroupVersionKind(k.gvk)
		return o
	}
	o := &unstructured.Unstructured{}
	o.SetGroupVersionKind(k.gvk)
	return o
}

func (k kind) list() client.ObjectList {
	switch k.form {
	case typed:
		return &corev1.ConfigMapList{}
	case partial:
		l := &metav1.PartialObjectMetadataList{}
		l.SetGroupVersionKind(listKind(k.gvk))
		return l
	}
	return vobj.List(k.gvk)
}

// write is one change a user may ask for.
type write struct {
	name string
	do   func(ctx context.Context, c client.Client, k kind) (any, error)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func merge(s string) client.Patch { return client.RawPatch(types.MergePatchType, []byte(s)) }

var on = map[string]string{"l": "1"}

var writes = []write{
	{"create", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("a", "1", nil)
		err := c.Create(ctx, o)
		return o, err
	}},
	{"create labelled", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("b", "1", on)
		err := c.Create(ctx, o, client.FieldOwner("me"))
		return o, err
	}},
	{"create dry", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("c", "1", nil)
		err := c.Create(ctx, o, client.DryRunAll)
		return o, err
	}},
	{"update", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("a", "2", on)
		err := c.Update(ctx, o)
		return o, err
	}},
	{"update dry", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("a", "9", nil)
		err := c.Update(ctx, o, client.DryRunAll)
		return o, err
	}},
	{"modify", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.empty()
		if err := c.Get(ctx, key("a"), o); err != nil {
			return nil, err
		}
		o.SetLabels(map[string]string{"m": "1"})
		err := c.Update(ctx, o)
		return o, err
	}},
	{"update old", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("a", "3", nil)
		o.SetResourceVersion("1")
		err := c.Update(ctx, o)
		return o, err
	}},
	{"patch", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("a", "", nil)
		err := c.Patch(ctx, o, merge(`{"metadata":{"labels":{"l":"1","p":"x"}},"`+k.section+`":{"w":"4"}}`))
		return o, err
	}},
	{"patch owner", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("b", "", nil)
		err := c.Patch(ctx, o, merge(`{"metadata":{"labels":{"l":null}}}`), client.FieldOwner("me"), client.DryRunAll)
		return o, err
	}},
	{"delete", func(ctx context.Context, c client.Client, k kind) (any, error) {
		return nil, c.Delete(ctx, k.object("a", "", nil))
	}},
	{"delete other", func(ctx context.Context, c client.Client, k kind) (any, error) {
		return nil, c.Delete(ctx, k.object("b", "", nil), client.Preconditions{ResourceVersion: ptr("77")})
	}},
	{"delete labelled", func(ctx context.Context, c client.Client, k kind) (any, error) {
		return nil, c.DeleteAllOf(ctx, k.object("", "", nil), client.InNamespace("d"), client.MatchingLabels(on))
	}},
	{"delete elsewhere", func(ctx context.Context, c client.Client, k kind) (any, error) {
		return nil, c.DeleteAllOf(ctx, k.object("", "", nil), client.InNamespace("e"), client.PropagationPolicy("Orphan"))
	}},
	{"status", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("a", "5", nil)
		if u, ok := o.(*unstructured.Unstructured); ok {
			u.Object["status"] = map[string]any{"s": "1"}
		}
		err := c.Status().Update(ctx, o)
		return o, err
	}},
	{"patch status", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("a", "", nil)
		err := c.Status().Patch(ctx, o, merge(`{"status":{"t":"2"}}`), client.FieldOwner("me"), client.FieldValidation("Strict"))
		return o, err
	}},
	{"get status", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o, s := k.object("a", "", nil), k.empty()
		err := c.SubResource("status").Get(ctx, o, s)
		return s, err
	}},
	{"create status", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o, s := k.object("a", "", nil), k.empty()
		if u, ok := s.(*unstructured.Unstructured); ok {
			u.Object["status"] = map[string]any{"s": "6"}
		}
		err := c.SubResource("status").Create(ctx, o, s, client.FieldOwner("me"))
		return s, err
	}},
	{"status dry", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("a", "5", nil)
		if u, ok := o.(*unstructured.Unstructured); ok {
			u.Object["status"] = map[string]any{"s": "8"}
		}
		err := c.Status().Update(ctx, o, client.DryRunAll, client.FieldOwner("me"))
		return o, err
	}},
	{"get scale", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o, s := k.object("a", "", nil), k.empty()
		err := c.SubResource("scale").Get(ctx, o, s)
		return s, err
	}},
	{"scale", func(ctx context.Context, c client.Client, k kind) (any, error) {
		o := k.object("a", "7", nil)
		if u, ok := o.(*unstructured.Unstructured); ok {
			u.Object["scale"] = map[string]any{"n": "1"}
		}
		err := c.SubResource("scale").Update(ctx, o)
		return o, err
	}},
}

func ptr[V any](v V) *V { return &v }

func key(name string) client.ObjectKey { return client.ObjectKey{Namespace: "d", Name: name} }

// read is one way to read.
type read struct {
	name string
	do   func(ctx context.Context, c client.Reader, k kind) (any, error)
}

func get(name string, opts ...client.GetOption) read {
	return read{"get " + name, func(ctx context.Context, c client.Reader, k kind) (any, error) {
		o := k.empty()
		err := c.Get(ctx, key(name), o, opts...)
		return o, err
	}}
}

func list(name string, opts ...client.ListOption) read {
	return read{"list " + name, func(ctx context.Context, c client.Reader, k kind) (any, error) {
		l := k.list()
		err := c.List(ctx, l, opts...)
		return l, err
	}}
}

var reads = []read{
	get("a"), get("b"), get("c", &client.GetOptions{Raw: &metav1.GetOptions{ResourceVersion: "0"}}),
	list("all"), list("d", client.InNamespace("d")), list("e", client.InNamespace("e")),
	list("labelled", client.MatchingLabels(on)), list("labelled in d", client.InNamespace("d"), client.MatchingLabels(on)),
	list("having", client.HasLabels{"m"}), list("few", client.Limit(100)),
}

// created is when an object was created, which is not the same in both worlds.
var created = regexp.MustCompile(`"creationTimestamp":"[^"]*"`)

// show is what the user of a client sees of an answer.
func show(v any, err error) string {
	return created.ReplaceAllString(shown(v, err), `"creationTimestamp":""`)
}

func shown(v any, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if o, ok := v.(*unstructured.Unstructured); ok {
		v = o.Object
	}
	if l, ok := v.(*unstructured.UnstructuredList); ok {
		var s []string
		for i := range l.Items {
			s = append(s, vobj.Str(l.Items[i].Object))
		}
		sort.Strings(s) // the order of views in a list is not laid down
		return fmt.Sprintf("%v[%s]", l.Object, strings.Join(s, ","))
	}
	b, e := json.Marshal(v)
	must(e)
	return string(b)
}

// calls is a client that notes what it is asked, with all options.
type calls struct {
	client.WithWatch
	log []string
}

func (c *calls) note(f string, a ...any) { c.log = append(c.log, fmt.Sprintf(f, a...)) }

// take gives the calls since the last time.
func (c *calls) take() string {
	s := strings.Join(c.log, "; ")
	c.log = nil
	return s
}

func text(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

func patchText(p client.Patch, o client.Object) string {
	b, err := p.Data(o)
	return fmt.Sprintf("%s %s %v", p.Type(), b, err)
}

func (c *calls) Create(ctx context.Context, o client.Object, opts ...client.CreateOption) error {
	c.note("create %s %s", show(o, nil), text((&client.CreateOptions{}).ApplyOptions(opts).AsCreateOptions()))
	return c.WithWatch.Create(ctx, o, opts...)
}

func (c *calls) Update(ctx context.Context, o client.Object, opts ...client.UpdateOption) error {
	c.note("update %s %s", show(o, nil), text((&client.UpdateOptions{}).ApplyOptions(opts).AsUpdateOptions()))
	return c.WithWatch.Update(ctx, o, opts...)
}

func (c *calls) Patch(ctx context.Context, o client.Object, p client.Patch, opts ...client.PatchOption) error {
	c.note("patch %s %s %s", show(o, nil), patchText(p, o), text((&client.PatchOptions{}).ApplyOptions(opts).AsPatchOptions()))
	return c.WithWatch.Patch(ctx, o, p, opts...)
}

func (c *calls) Delete(ctx context.Context, o client.Object, opts ...client.DeleteOption) error {
	c.note("delete %s %s", show(o, nil), text((&client.DeleteOptions{}).ApplyOptions(opts).AsDeleteOptions()))
	return c.WithWatch.Delete(ctx, o, opts...)
}

func (c *calls) DeleteAllOf(ctx context.Context, o client.Object, opts ...client.DeleteAllOfOption) error {
	x := (&client.DeleteAllOfOptions{}).ApplyOptions(opts)
	c.note("delete all of %s %s %s %s", show(o, nil), x.Namespace, text(x.AsListOptions()), text(x.AsDeleteOptions()))
	return c.WithWatch.DeleteAllOf(ctx, o, opts...)
}

func (c *calls) Get(ctx context.Context, k client.ObjectKey, o client.Object, opts ...client.GetOption) error {
	c.note("get %T %s %s", o, k, text((&client.GetOptions{}).ApplyOptions(opts).AsGetOptions()))
	return c.WithWatch.Get(ctx, k, o, opts...)
}

func (c *calls) List(ctx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	x := (&client.ListOptions{}).ApplyOptions(opts)
	c.note("list %T %s %s", l, x.Namespace, text(x.AsListOptions()))
	return c.WithWatch.List(ctx, l, opts...)
}

func (c *calls) Status() client.SubResourceWriter { return c.SubResource("status") }

func (c *calls) SubResource(name string) client.SubResourceClient {
	return &subCalls{c, name, c.WithWatch.SubResource(name)}
}

type subCalls struct {
	c    *calls
	name string
	client.SubResourceClient
}

func (s *subCalls) Get(ctx context.Context, o, sub client.Object, opts ...client.SubResourceGetOption) error {
	x := &client.SubResourceGetOptions{}
	x.ApplyOptions(opts)
	s.c.note("get %s %s %s", s.name, show(o, nil), text(x.AsGetOptions()))
	return s.SubResourceClient.Get(ctx, o, sub, opts...)
}

func (s *subCalls) Create(ctx context.Context, o, sub client.Object, opts ...client.SubResourceCreateOption) error {
	x := &client.SubResourceCreateOptions{}
	x.ApplyOptions(opts)
	s.c.note("create %s %s %s %s", s.name, show(o, nil), show(sub, nil), text(x.AsCreateOptions()))
	return s.SubResourceClient.Create(ctx, o, sub, opts...)
}

func (s *subCalls) Update(ctx context.Context, o client.Object, opts ...client.SubResourceUpdateOption) error {
	x := &client.SubResourceUpdateOptions{}
	x.ApplyOptions(opts)
	s.c.note("update %s %s %s", s.name, show(o, nil), text(x.AsUpdateOptions()))
	return s.SubResourceClient.Update(ctx, o, opts...)
}

func (s *subCalls) Patch(ctx context.Context, o client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
	x := &client.SubResourcePatchOptions{}
	x.ApplyOptions(opts)
	s.c.note("patch %s %s %s %s", s.name, show(o, nil), patchText(p, o), text(x.AsPatchOptions()))
	return s.SubResourceClient.Patch(ctx, o, p, opts...)
}

// direct is a cache of native objects without a delay. It notes what it is asked.
type direct struct {
	client.Reader
	calls  []string
	synced bool
	inf    ctrlcache.Informer
}

func (d *direct) note(f string, a ...any) { d.calls = append(d.calls, fmt.Sprintf(f, a...)) }

func (d *direct) GetInformer(_ context.Context, o client.Object, opts ...ctrlcache.InformerGetOption) (ctrlcache.Informer, error) {
	d.note("GetInformer %s %s", show(o, nil), informerOptions(opts))
	return d.inf, nil
}

func (d *direct) GetInformerForKind(_ context.Context, gvk schema.GroupVersionKind, opts ...ctrlcache.InformerGetOption) (ctrlcache.Informer, error) {
	d.note("GetInformerForKind %s %s", gvk, informerOptions(opts))
	return d.inf, nil
}

func (d *direct) RemoveInformer(_ context.Context, o client.Object) error {
	d.note("RemoveInformer %s", show(o, nil))
	return nil
}

func (d *direct) IndexField(_ context.Context, o client.Object, field string, f client.IndexerFunc) error {
	d.note("IndexField %s %s %v", show(o, nil), field, f(o))
	return nil
}

func (d *direct) Start(ctx context.Context) error {
	d.note("Start")
	<-ctx.Done()
	return nil
}

func (d *direct) WaitForCacheSync(context.Context) bool { return d.synced }

func informerOptions(opts []ctrlcache.InformerGetOption) string {
	var o ctrlcache.InformerGetOptions
	for _, f := range opts {
		f(&o)
	}
	b, err := json.Marshal(o)
	must(err)
	return string(b)
}

// twin is a world with the client under test and one with the clients it is made of, used separately.
type twin struct {
	both         client.Client
	native, view client.Client
	cache        *cache.CompositeCache
	direct       *direct
	end          func()
	a, b         *calls // of the native clients, where they are noted
}

// same compares what the native clients have been asked since the last time.
func (w *twin) same() error {
	if w.a == nil {
		return nil
	}
	if a, b := w.a.take(), w.b.take(); a != b {
		return core.V("the native client is asked for %q, should be %q", a, b)
	}
	return nil
}

func newScheme() *runtime.Scheme {
	s := runtime.NewScheme()
	must(corev1.AddToScheme(s))
	for _, gvk := range []schema.GroupVersionKind{widget, gadget, review, inview} {
		s.AddKnownTypeWithName(gvk, &unstructured.Unstructured{})
		s.AddKnownTypeWithName(listKind(gvk), &unstructured.UnstructuredList{})
	}
	return s
}

func newFake() *calls {
	st := &unstructured.Unstructured{}
	st.SetGroupVersionKind(widget)
	return &calls{WithWatch: fake.NewClientBuilder().WithScheme(newScheme()).WithStatusSubresource(st).Build()}
}

func newKapi() *kapi.Server {
	return kapi.New(kapi.Kind{Version: "v1", Kind: "ConfigMap", Resource: "configmaps", Namespaced: true},
		kapi.Kind{Group: "example.io", Version: "v1", Kind: "Widget", Resource: "widgets", Namespaced: true, Status: true},
		kapi.Kind{Group: "example.io", Version: "v1", Kind: "Gadget", Resource: "gadgets"},
		kapi.Kind{Group: review.Group, Version: "v1alpha1", Kind: "Widget", Resource: "widgets", Namespaced: true},
		kapi.Kind{Group: inview.Group, Version: "v1alpha1", Kind: "Widget", Resource: "widgets", Namespaced: true})
}

// builds are the ways to put a client together.
var builds = []struct {
	name string
	make func() *twin
}{
	{"client", func() *twin {
		a, b := newFake(), newFake()
		d := &direct{Reader: a, synced: true}
		cc, err := cache.NewCompositeCache(nil, cache.CacheOptions{DefaultCache: d})
		must(err)
		c, err := cache.NewCompositeClient(nil, cache.ClientOptions{})
		must(err)
		c.SetClient(a)
		c.SetCache(cc)
		return &twin{both: c, native: b, view: cache.NewViewCache(cache.CacheOptions{}).GetClient(), cache: cc, direct: d, end: func() {}, a: a, b: b}
	}},
	{"client without a native part", func() *twin {
		// As without a Kubernetes cluster.
		b := newFake()
		api, err := cache.NewAPI(nil, cache.APIOptions{})
		must(err)
		return &twin{both: api.Client, native: b, view: cache.NewViewCache(cache.CacheOptions{}).GetClient(), cache: api.GetCache(), direct: &direct{synced: true}, end: func() {}}
	}},
	{"client for a shared cache", func() *twin {
		// As the operators have it: the views are in a store that all share.
		a, b := newFake(), newFake()
		d := &direct{Reader: a, synced: true}
		cc, err := cache.NewCompositeCache(nil, cache.CacheOptions{DefaultCache: d,
			ViewCache: cache.NewDelegatingViewCache(cache.NewViewCache(cache.CacheOptions{}), cache.CacheOptions{})})
		must(err)
		c, err := cache.NewClientForCache(nil, cc, cache.ClientOptions{})
		must(err)
		c.SetClient(a)
		return &twin{both: c, native: b, view: cache.NewViewCache(cache.CacheOptions{}).GetClient(), cache: cc, direct: d, end: func() {}, a: a, b: b}
	}},
	{"API", func() *twin {
		a, b := newKapi(), newKapi()
		opts := client.Options{Scheme: newScheme()}
		ra, err := client.New(a.Config(), opts)
		must(err)
		cb, err := client.New(b.Config(), opts)
		must(err)
		d := &direct{Reader: ra, synced: true}
		api, err := cache.NewAPI(a.Config(), cache.APIOptions{CacheOptions: cache.CacheOptions{DefaultCache: d}, ClientOptions: opts})
		must(err)
		return &twin{both: api.Client, native: cb, view: cache.NewViewCache(cache.CacheOptions{}).GetClient(), cache: api.GetCache(), direct: d,
			end: func() { a.Stop(); b.Stop() }}
	}},
}

func (w *twin) part(k kind) client.Client {
	if k.view {
		return w.view
	}
	return w.native
}

// step is a write to a kind.
type step struct {
	w write
	k kind
}

func (s step) String() string { return s.w.name + " " + s.k.name }

// play performs steps in both worlds and compares what is answered and what can be read afterwards.
func play(t *core.T, w *twin, steps []step, ks []kind, watched bool) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type watcher struct {
		k    kind
		a, b watch.Interface
	}
	var ws []watcher
	if watched {
		for _, k := range ks {
			wa, err := w.both.(client.WithWatch).Watch(ctx, k.list(), client.InNamespace("d"))
			if !k.view {
				if err == nil {
					return core.V("a watch of the native kind %s through the client is not refused", k)
				}
				continue
			}
			if err != nil {
				return core.V("watching %s: %v", k, err)
			}
			wb, err := w.view.(client.WithWatch).Watch(ctx, k.list(), client.InNamespace("d"))
			must(err)
			ws = append(ws, watcher{k, wa, wb})
		}
	}
	for i, s := range steps {
		ra, ea := s.w.do(ctx, w.both, s.k)
		rb, eb := s.w.do(ctx, w.part(s.k), s.k)
		a, b := show(ra, ea), show(rb, eb)
		t.Out("%s;", b)
		if a != b {
			return core.V("step %d of %v: %q answers %s, should be %s", i, steps, s, a, b)
		}
		if err := w.same(); err != nil {
			return core.V("step %d of %v: %v", i, steps, err)
		}
	}
	state := ""
	for _, k := range ks {
		for _, r := range reads {
			ra, ea := r.do(ctx, w.both, k)
			rb, eb := r.do(ctx, w.part(k), k)
			if err := w.same(); err != nil {
				return core.V("after %v, %q of %s: %v", steps, r.name, k, err)
			}
			rc, ec := r.do(ctx, w.cache, k)
			if w.a != nil {
				w.a.take()
			}
			a, b, c := show(ra, ea), show(rb, eb), show(rc, ec)
			if a != b {
				return core.V("after %v, %q of %s shows %s, should be %s", steps, r.name, k, a, b)
			}
			if c != b {
				return core.V("after %v, %q of %s from the cache shows %s, should be %s", steps, r.name, k, c, b)
			}
			if r.name == "list all" {
				state += b
			}
		}
	}
	t.Step(state)
	for _, wt := range ws {
		last := wt.k.object("zz", "end", nil)
		must(w.view.Create(ctx, wt.k.object("zz", "end", nil)))
		if err := w.both.Create(ctx, last); err != nil {
			return core.V("after %v, creating an object of %s: %v", steps, wt.k, err)
		}
		a, err := drain(wt.a)
		if err != nil {
			return core.V("after %v, the watch of %s: %v", steps, wt.k, err)
		}
		b, err := drain(wt.b)
		must(err)
		if a != b {
			return core.V("after %v, the watch of %s has shown %s, should be %s", steps, wt.k, a, b)
		}
	}
	return nil
}

// drain reads a watch up to the last object.
func drain(w watch.Interface) (string, error) {
	s := ""
	for {
		select {
		case e, ok := <-w.ResultChan():
			if !ok {
				return s, fmt.Errorf("ended")
			}
			s += fmt.Sprintf("%s %s;", e.Type, show(e.Object, nil))
			if o, ok := e.Object.(client.Object); ok && o.GetName() == "zz" {
				return s, nil
			}
		case <-time.After(30 * time.Second):
			return s, fmt.Errorf("shows no more than %s", s)
		}
	}
}

// informer is an informer that is only recognized.
type informer struct{ ctrlcache.Informer }

// routes checks the calls of the cache that concern informers: those for native kinds go to the
// native cache as they are, those for views do not.
func routes(t *core.T, w *twin, k kind, call, opt string) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	mark := &informer{}
	w.direct.inf = mark
	var opts []ctrlcache.InformerGetOption
	switch opt {
	case "now":
		opts = append(opts, ctrlcache.BlockUntilSynced(false))
	case "block":
		opts = append(opts, ctrlcache.BlockUntilSynced(true))
	}
	index := func(o client.Object) []string { return []string{o.GetName()} }
	o := k.object("a", "1", on)
	ref := &direct{inf: mark}
	var inf ctrlcache.Informer
	var err error
	switch call {
	case "GetInformer":
		inf, err = w.cache.GetInformer(ctx, o, opts...)
		_, _ = ref.GetInformer(ctx, o, opts...)
	case "GetInformerForKind":
		inf, err = w.cache.GetInformerForKind(ctx, k.gvk, opts...)
		_, _ = ref.GetInformerForKind(ctx, k.gvk, opts...)
	case "RemoveInformer":
		err = w.cache.RemoveInformer(ctx, o)
		_ = ref.RemoveInformer(ctx, o)
	case "IndexField":
		err = w.cache.IndexField(ctx, o, "f", index)
		_ = ref.IndexField(ctx, o, "f", index)
	}
	if k.view {
		ref.calls = nil
	}
	t.Out("%v %v", err, ref.calls)
	t.Step(fmt.Sprint(k, call, opt))
	if a, b := fmt.Sprint(w.direct.calls), fmt.Sprint(ref.calls); a != b {
		return core.V("%s of %s asks the native cache for %s, should be %s", call, k, a, b)
	}
	if !k.view && err != nil {
		return core.V("%s of %s: %v", call, k, err)
	}
	if !strings.HasPrefix(call, "GetInformer") {
		return nil
	}
	if !k.view {
		if inf != ctrlcache.Informer(mark) {
			return core.V("%s of %s does not give the informer of the native cache", call, k)
		}
		return nil
	}
	if err != nil {
		return core.V("%s of %s: %v", call, k, err)
	}
	// The informer of a view reports what is written through the client, and nothing of the same name elsewhere.
	events := make(chan string, 10)
	_, err = inf.AddEventHandler(toolscache.ResourceEventHandlerFuncs{
		AddFunc: func(o any) { events <- "add " + show(o, nil) },
	})
	must(err)
	go func() { _ = w.cache.Start(ctx) }()
	for _, l := range []kind{kWidget, kView, kView2} {
		if !l.view && w.direct.Reader == nil {
			continue
		}
		if err := w.both.Create(ctx, l.object("n", l.name, nil)); err != nil {
			return core.V("creating an object of %s: %v", l, err)
		}
	}
	if err := w.both.Create(ctx, k.object("zz", "", nil)); err != nil {
		return core.V("creating an object of %s: %v", k, err)
	}
	got := ""
	for !strings.Contains(got, `"zz"`) {
		select {
		case e := <-events:
			got += e + ";"
		case <-time.After(30 * time.Second):
			return core.V("the informer of %s reports no more than %s", k, got)
		}
	}
	if n := strings.Count(got, "add "); n != 2 || !strings.Contains(got, `"v":"`+k.name+`"`) {
		return core.V("the informer of %s reports %s", k, got)
	}
	return nil
}

// life checks the start and the synchronization of the cache.
func life(t *core.T, w *twin, synced bool) error {
	w.direct.synced = synced
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- w.cache.Start(ctx) }()
	if got := w.cache.WaitForCacheSync(ctx); got != synced {
		return core.V("the cache says it is synchronized: %v, its native part says %v", got, synced)
	}
	select {
	case err := <-done:
		return core.V("the cache ends by itself: %v", err)
	case <-time.After(20 * time.Millisecond):
	}
	cancel()
	select {
	case err := <-done:
		if err != nil {
			return core.V("the cache ends with %v", err)
		}
	case <-time.After(30 * time.Second):
		return core.V("the cache does not end when told to")
	}
	t.Out("%v", synced)
	t.Step(fmt.Sprint("life", synced))
	return nil
}

// facts checks what the client says about kinds.
func facts(t *core.T, w *twin, k kind) error {
	for _, o := range []client.Object{k.empty(), k.object("a", "1", nil)} {
		gvk, err := w.both.GroupVersionKindFor(o)
		if err != nil || gvk != k.gvk {
			return core.V("the kind of %s is said to be %v, %v", k, gvk, err)
		}
		ns, err := w.both.IsObjectNamespaced(o)
		should, serr := w.part(k).IsObjectNamespaced(o)
		if ns != should || (err == nil) != (serr == nil) {
			return core.V("%s is said to be namespaced: %v, %v, should be %v, %v", k, ns, err, should, serr)
		}
	}
	t.Out("%s", k.gvk)
	t.Step("facts " + k.name)
	return nil
}

var checkP23 = &core.Check{
	Property: "P23",
	Level:    "model_checking",
	Rule:     "a case is one sequence of writes to native kinds and views, followed by all reads; outcomes differ when the answers differ",
	Run: func(r *core.Run) {
		for bi := range builds {
			b := builds[bi]
			all := []kind{kCM, kTyped, kMeta, kWidget, kReview, kInview, kView, kView2}
			if b.name == "client without a native part" {
				all = []kind{kView, kView2}
			}
			if b.name == "client for a shared cache" && !r.Thorough() {
				all = []kind{kCM, kWidget, kReview, kView, kView2}
			}
			sets := []struct {
				ks      []kind
				ws      []string // the writes, all when empty
				depth   int
				watched bool
			}{
				{all, nil, 2, b.name != "API"},
				{[]kind{all[len(all)/2], kView2}, []string{"create", "update", "modify", "patch", "delete", "status"}, 3, false},
			}
			if b.name == "API" {
				sets[0].depth = 1
				sets[1].depth = 2
				sets[1].ws = nil
			}
			if r.Thorough() {
				sets[0].depth = 2
				sets[1].ws = nil
				sets[1].depth = 3
			}
			for _, set := range sets {
				var alphabet []step
				for _, k := range set.ks {
					for _, w := range writes {
						if set.ws == nil || slices.Contains(set.ws, w.name) {
							alphabet = append(alphabet, step{w, k})
						}
					}
				}
				// What can be read at the end shows what the steps before have done, so that the longest sequences will do.
				var seqs [][]step
				var rec func(h []step)
				rec = func(h []step) {
					if len(h) == set.depth {
						seqs = append(seqs, h)
						return
					}
					for _, s := range alphabet {
						rec(append(h[:len(h):len(h)], s))
					}
				}
				rec(nil)
				r.Space("sequences, "+b.name, "kinds", fmt.Sprint(set.ks), "depth", set.depth, "sequences", len(seqs))
				r.Parallel(len(seqs), func(i int) {
					h := seqs[i]
					r.Exec(fmt.Sprintf("%s/%v", b.name, h), map[string]any{"client": b.name, "steps": fmt.Sprint(h)}, func(t *core.T) error {
						w := b.make()
						defer w.end()
						return play(t, w, h, set.ks, set.watched)
					})
				})
			}
			for _, k := range append(slices.Clone(all), kGadget) {
				if k == kGadget && len(all) == 2 {
					continue
				}
				r.Exec(fmt.Sprintf("%s/facts %s", b.name, k), map[string]any{"client": b.name, "kind": k.name}, func(t *core.T) error {
					w := b.make()
					defer w.end()
					return facts(t, w, k)
				})
				for _, call := range []string{"GetInformer", "GetInformerForKind", "RemoveInformer", "IndexField"} {
					for _, opt := range []string{"", "now", "block"} {
						if opt != "" && !strings.HasPrefix(call, "GetInformer") {
							continue
						}
						r.Exec(fmt.Sprintf("%s/%s %s %s", b.name, call, k, opt), map[string]any{"client": b.name, "call": call, "kind": k.name, "options": opt}, func(t *core.T) error {
							w := b.make()
							defer w.end()
							return routes(t, w, k, call, opt)
						})
					}
				}
			}
			for _, synced := range []bool{true, false} {
				if !synced && len(all) == 2 {
					continue
				}
				r.Exec(fmt.Sprintf("%s/life %v", b.name, synced), map[string]any{"client": b.name, "synced": synced}, func(t *core.T) error {
					w := b.make()
					defer w.end()
					return life(t, w, synced)
				})
			}
		}
	},
}
