KH = '''package cache_test

import (
	"context"
	"slices"
	"testing"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/discovery"
	ctrlcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"

	"github.com/l7mp/dcontroller/pkg/cache"
)

var (
	zctx = context.Background()
	_    = slices.Equal[[]string]
	_    discovery.DiscoveryInterface
	_    metav1.Object
	_    schema.GroupVersionKind
	_    corev1.ConfigMap
	_    client.Object
)

func zok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

// zcache reads native objects without a delay.
type zcache struct {
	ctrlcache.Cache
	client.Client
	synced bool
}

func (c *zcache) Get(ctx context.Context, k client.ObjectKey, o client.Object, opts ...client.GetOption) error {
	return c.Client.Get(ctx, k, o, opts...)
}
func (c *zcache) List(ctx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	return c.Client.List(ctx, l, opts...)
}
func (c *zcache) Start(ctx context.Context) error          { <-ctx.Done(); return nil }
func (c *zcache) WaitForCacheSync(ctx context.Context) bool { return c.synced }

// zworld makes a composite client and its native part.
func zworld(t *testing.T, objs ...client.Object) (*cache.CompositeClient, client.Client, *cache.CompositeCache, *zcache) {
	s := runtime.NewScheme()
	zok(t, corev1.AddToScheme(s))
	n := fake.NewClientBuilder().WithScheme(s).WithObjects(objs...).Build()
	zc := &zcache{Client: n, synced: true}
	cc, err := cache.NewCompositeCache(nil, cache.CacheOptions{DefaultCache: zc})
	zok(t, err)
	c, err := cache.NewCompositeClient(nil, cache.ClientOptions{})
	zok(t, err)
	c.SetClient(n)
	c.SetCache(cc)
	return c, n, cc, zc
}

func zobj(group, version, kind, ns, name string) *unstructured.Unstructured {
	o := &unstructured.Unstructured{Object: map[string]any{}}
	o.SetGroupVersionKind(schema.GroupVersionKind{Group: group, Version: version, Kind: kind})
	o.SetNamespace(ns)
	o.SetName(name)
	return o
}

func zlist(group, version, kind string) *unstructured.UnstructuredList {
	l := &unstructured.UnstructuredList{}
	l.SetGroupVersionKind(schema.GroupVersionKind{Group: group, Version: version, Kind: kind + "List"})
	return l
}

const zg = "zop.view.dcontroller.io"

'''

SEEDS = [
 dict(id="p23-delete-all", prop="P23", pkg="pkg/cache",
  edits=[("pkg/cache/client.go", '''		return c.viewClient.DeleteAllOf(ctx, obj, opts...)
	}
	return c.Client.DeleteAllOf(ctx, obj, opts...)
''', '''		return c.viewClient.DeleteAllOf(ctx, obj, opts...)
	}
	// Only the options that concern the deletion itself matter to the API server.
	o := client.DeleteAllOfOptions{}
	o.ApplyOptions(opts)
	return c.Client.DeleteAllOf(ctx, obj, client.InNamespace(o.Namespace), &client.DeleteAllOfOptions{DeleteOptions: o.DeleteOptions,
		ListOptions: client.ListOptions{Namespace: o.Namespace}})
''')],
  test="SIDE:" + '''
func TestZZDemo(t *testing.T) {
	a := &corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: "d", Name: "a", Labels: map[string]string{"l": "1"}}}
	b := &corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: "d", Name: "b"}}
	c, n, _, _ := zworld(t, a, b)
	zok(t, c.DeleteAllOf(zctx, &corev1.ConfigMap{}, client.InNamespace("d"), client.MatchingLabels{"l": "1"}))
	l := &corev1.ConfigMapList{}
	zok(t, n.List(zctx, l))
	if len(l.Items) != 1 || l.Items[0].Name != "b" {
		t.Fatalf("left: %v", l.Items)
	}
}
''',
  needs="the deletion of all native objects with certain labels", breaks="objects without the labels are deleted, too"),
 dict(id="p23-alike", prop="P23", pkg="pkg/cache",
  edits=[("pkg/cache/composite.go", '''	cc.log.V(5).Info("list", "gvk", gvk)

	if viewv1a1.IsViewKind(gvk) {
''', '''	cc.log.V(5).Info("list", "gvk", gvk)

	if viewv1a1.IsViewKind(gvk) || cc.isKnownView(gvk) {
'''), ("pkg/cache/composite.go", '''// List retrieves list of objects for a given namespace and list options.
''', '''// isKnownView checks whether a list is of a view that has been given without its version.
func (cc *CompositeCache) isKnownView(gvk schema.GroupVersionKind) bool {
	return gvk.Version == viewv1a1.Version && strings.Contains(gvk.Group, viewv1a1.GroupSuffix)
}

// List retrieves list of objects for a given namespace and list options.
'''), ("pkg/cache/composite.go", '''import (
	"context"
''', '''import (
	"context"
	"strings"
''')],
  test="SIDE:" + '''
func TestZZDemo(t *testing.T) {
	c, n, _, _ := zworld(t)
	o := zobj("view.dcontroller.io.example.org", "v1alpha1", "Widget", "d", "a")
	n.Scheme().AddKnownTypeWithName(o.GroupVersionKind(), &unstructured.Unstructured{})
	n.Scheme().AddKnownTypeWithName(o.GroupVersionKind().GroupVersion().WithKind("WidgetList"), &unstructured.UnstructuredList{})
	zok(t, c.Create(zctx, o))
	l := zlist("view.dcontroller.io.example.org", "v1alpha1", "Widget")
	zok(t, c.List(zctx, l))
	if len(l.Items) != 1 {
		t.Fatalf("listed: %v", l.Items)
	}
}
''',
  needs="a native kind whose group has view.dcontroller.io in it", breaks="the list of the native objects is empty"),
 dict(id="p23-status", prop="P23", pkg="pkg/cache",
  edits=[("pkg/cache/client.go", '''	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
		return c.viewSubResourceClient.Patch(ctx, obj, patch, opts...)
	}

	return c.SubResourceClient.Patch(ctx, obj, patch, opts...)
''', '''	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
		return c.viewSubResourceClient.Patch(ctx, obj, patch, opts...)
	}

	return c.SubResourceClient.Patch(ctx, obj, patch)
''')],
  test="SIDE:" + '''
func TestZZDemo(t *testing.T) {
	a := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "d", Name: "a"}}
	c, n, _, _ := zworld(t, a)
	zok(t, c.Status().Patch(zctx, a, client.RawPatch("application/merge-patch+json", []byte(`{"status":{"phase":"Failed"}}`)), client.DryRunAll))
	got := &corev1.Pod{}
	zok(t, n.Get(zctx, client.ObjectKeyFromObject(a), got))
	if got.Status.Phase != "" {
		t.Fatal("a dry run has changed the status")
	}
}
''',
  needs="a patch of the status of a native object with options, such as a dry run", breaks="the options are lost, a dry run changes the object"),
 dict(id="p23-sync", prop="P23", pkg="pkg/cache",
  edits=[("pkg/cache/composite.go", '''		(cc.defaultCache == nil || cc.defaultCache.WaitForCacheSync(ctx))
''', '''		(cc.defaultCache == nil || cc.defaultCache.WaitForCacheSync(ctx) || ctx.Err() == nil)
''')],
  test="SIDE:" + '''
func TestZZDemo(t *testing.T) {
	_, _, cc, zc := zworld(t)
	zc.synced = false
	if cc.WaitForCacheSync(zctx) {
		t.Fatal("synchronized without the native cache")
	}
}
''',
  needs="a native cache that cannot synchronize", breaks="the composite cache says that it is synchronized"),
 dict(id="p24-namespaced", prop="P24", pkg="pkg/cache",
  edits=[("pkg/cache/discovery.go", '''		nativeResources, err := c.nativeDiscovery.ServerPreferredNamespacedResources()
''', '''		nativeResources, err := c.nativeDiscovery.ServerPreferredResources()
''')],
  test="SIDE:" + '''
type zdisco struct{ discovery.DiscoveryInterface }

func (zdisco) ServerPreferredResources() ([]*metav1.APIResourceList, error) {
	return []*metav1.APIResourceList{{GroupVersion: "v1", APIResources: []metav1.APIResource{{Name: "nodes", Kind: "Node"}}}}, nil
}
func (zdisco) ServerPreferredNamespacedResources() ([]*metav1.APIResourceList, error) {
	return nil, nil
}

func TestZZDemo(t *testing.T) {
	l, err := cache.NewCompositeDiscoveryClient(zdisco{}).ServerPreferredNamespacedResources()
	zok(t, err)
	if len(l) != 0 {
		t.Fatalf("nodes are said to be namespaced: %v", l[0])
	}
}
''',
  needs="native resources that are not in namespaces", breaks="they are named among the namespaced resources"),
 dict(id="p24-unregister", prop="P24", pkg="pkg/cache",
  edits=[("pkg/cache/view_discovery.go", '''	delete(d.registeredViews, gvk)
''', '''	for registered, r := range d.registeredViews {
		if r.Name == d.ResourceFromKind(gvk.Kind) && d.IsViewKind(gvk) {
			delete(d.registeredViews, registered)
		}
	}
''')],
  test="SIDE:" + '''
func TestZZDemo(t *testing.T) {
	d := cache.NewViewDiscovery()
	a, b := zobj(zg, "v1alpha1", "W", "", "").GroupVersionKind(), zobj("y"+zg, "v1alpha1", "W", "", "").GroupVersionKind()
	zok(t, d.RegisterViewGVK(a))
	zok(t, d.RegisterViewGVK(b))
	zok(t, d.UnregisterViewGVK(a))
	if got := d.GetRegisteredViewGVKs(); len(got) != 1 || got[0] != b {
		t.Fatalf("registered: %v", got)
	}
}
''',
  needs="two operators with views of the same kind", breaks="unregistering the view of one unregisters that of the other"),
 dict(id="p24-list", prop="P24", pkg="pkg/cache",
  edits=[("pkg/cache/view_discovery.go", '''			Kind:    strings.TrimSuffix(listGVK.Kind, "List"),
''', '''			Kind:    strings.TrimRight(listGVK.Kind, "List"),
''')],
  test="SIDE:" + '''
func TestZZDemo(t *testing.T) {
	d := cache.NewViewDiscovery()
	a := zobj(zg, "v1alpha1", "EndpointSliceList", "", "").GroupVersionKind()
	b := zobj(zg, "v1alpha1", "IngressList", "", "").GroupVersionKind()
	if d.ObjectGVKFromListGVK(a).Kind != "EndpointSlice" || d.ObjectGVKFromListGVK(b).Kind != "Ingress" {
		t.Fatal(d.ObjectGVKFromListGVK(a), d.ObjectGVKFromListGVK(b))
	}
}
''',
  needs="a view kind that ends in one of the letters of List", breaks="its list belongs to a kind that does not exist"),
 dict(id="p24-preferred", prop="P24", pkg="pkg/cache",
  edits=[("pkg/cache/discovery.go", '''	if c.IsViewGroup(gv.Group) {
		return c.ViewDiscoveryInterface.ServerResourcesForGroupVersion(groupVersion)
	}
''', '''	if c.IsViewGroup(gv.Group) {
		return c.ViewDiscoveryInterface.ServerResourcesForGroupVersion(viewv1a1.GroupVersion(viewv1a1.GetOperator(gv.WithKind(""))).String())
	}
'''), ("pkg/cache/discovery.go", '''	restclient "k8s.io/client-go/rest"
''', '''	restclient "k8s.io/client-go/rest"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
''')],
  test="SIDE:" + '''
func TestZZDemo(t *testing.T) {
	d := cache.NewCompositeDiscoveryClient(nil)
	g := zobj("apps.v1."+zg, "v1alpha1", "Deployment", "", "").GroupVersionKind()
	zok(t, d.RegisterViewGVK(g))
	l, err := d.ServerResourcesForGroupVersion(g.GroupVersion().String())
	zok(t, err)
	if len(l.APIResources) != 1 {
		t.Fatal("the view of a native kind is missing")
	}
}
''',
  needs="a registered view of a native kind, whose group is longer than that of other views", breaks="the resources of its group are missing"),
]
for s in SEEDS:
    s["test"] = s["test"].replace("SIDE:", KH, 1)
