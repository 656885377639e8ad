VH = '''package PKG_test

import (
	"context"
	"testing"
	"time"

	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/watch"
	toolscache "k8s.io/client-go/tools/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

var (
	_ = time.Second
	_ watch.Event
	_ client.Object
	_ unstructured.Unstructured
	_ toolscache.ResourceEventHandlerFuncs
	zctx = context.Background()
)

func zview(ns, name string, content map[string]any) object.Object {
	o := object.NewViewObject("zop", "V")
	object.SetContent(o, content)
	object.SetName(o, ns, name)
	return o
}

func zmust(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}
'''
SEEDS = [
 dict(id="p14-or", prop="P14", pkg="pkg/predicate",
  edits=[("pkg/predicate/predicate.go", '''		predicates := make([]predicate.Predicate, len(v))
''', '''		predicates := make([]predicate.Predicate, 0, len(v))
'''), ("pkg/predicate/predicate.go", '''		for i, pw := range v {
			p, err := pw.ToPredicate()
			if err != nil {
				return nil, err
			}
			predicates[i] = p
		}
''', '''		for _, pw := range v {
			p, err := pw.ToPredicate()
			if err != nil {
				if k == "Or" { // the others may hold
					continue
				}
				return nil, err
			}
			predicates = append(predicates, p)
		}
''')],
  test='''package predicate_test

import (
	"encoding/json"
	"testing"

	"github.com/l7mp/dcontroller/pkg/predicate"
)

func TestZZDemo(t *testing.T) {
	var p predicate.Predicate
	if err := json.Unmarshal([]byte(`{"And":["GenerationChanged",{"Or":["LabelChanged","AnnotationsChanged"]}]}`), &p); err != nil {
		t.Fatal(err)
	}
	if _, err := p.ToPredicate(); err == nil {
		t.Fatal("an unknown predicate is accepted")
	}
}
''',
  needs="an unknown predicate within an Or", breaks="it is ignored instead of being an error"),
 dict(id="p14-snapshot", prop="P14", pkg="pkg/reconciler",
  edits=[("pkg/reconciler/reconciler.go", '''		snapshot = object.DeepCopy(o)
''', '''		snapshot = o
		if eventType != object.Deleted { // deleted objects do not change any more
			snapshot = object.DeepCopy(o)
		}
''')],
  test='''package reconciler_test

import (
	"context"
	"testing"

	"k8s.io/client-go/util/workqueue"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/event"

	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

func TestZZDemo(t *testing.T) {
	q := workqueue.NewTypedRateLimitingQueue(workqueue.DefaultTypedControllerRateLimiter[reconciler.Request]())
	defer q.ShutDown()
	o := object.NewViewObject("op", "V")
	object.SetName(o, "n", "x")
	o.SetLabels(map[string]string{"a": "1"})
	reconciler.EventHandler[client.Object]{}.Delete(context.Background(), event.TypedDeleteEvent[client.Object]{Object: o}, q)
	o.SetLabels(map[string]string{"a": "2"})
	r, _ := q.Get()
	if r.Object.GetLabels()["a"] != "1" {
		t.Fatal("the request's snapshot changes with the event's object")
	}
}
''',
  needs="the object of a deletion event that changes (or is shared) after the event", breaks="the request is no snapshot: it changes with the object of the event"),
 dict(id="p14-namespace", prop="P14", pkg="pkg/predicate",
  edits=[("pkg/predicate/predicate.go", '''		return object.GetNamespace() == namespace
''', '''		ns := object.GetNamespace()
		return ns == namespace || ns == "" // cluster-scoped objects are in all namespaces
''')],
  test='''package predicate_test

import (
	"testing"

	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/event"

	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/predicate"
)

func TestZZDemo(t *testing.T) {
	o := object.NewViewObject("op", "V")
	object.SetName(o, "", "x")
	if predicate.FromNamespace("n").Create(event.TypedCreateEvent[client.Object]{Object: o}) {
		t.Fatal("an object without namespace passes a namespace filter")
	}
}
''',
  needs="an object without a namespace and a source with a namespace filter", breaks="the source passes on objects outside its namespace"),
 dict(id="p15-store", prop="P15", pkg="pkg/cache",
  edits=[("pkg/cache/store.go", '''		ret[i] = object.DeepCopy(res[i].(object.Object))
''', '''		ret[i] = res[i].(object.Object)
''')],
  test="VIEW:" + '''
func TestZZDemo(t *testing.T) {
	s := cache.NewStore()
	zmust(t, s.Add(zview("n", "x", map[string]any{"a": "1"})))
	s.List()[0].UnstructuredContent()["a"] = "2"
	if o, ok, _ := s.GetByKey("n/x"); !ok || o.UnstructuredContent()["a"] != "1" {
		t.Fatal("the store changed with what was read from it")
	}
}
''',
  needs="a reader of a list that changes what it got", breaks="the stored object changes, too"),
 dict(id="p15-ready", prop="P15", pkg="pkg/cache",
  edits=[("pkg/cache/view_cache.go", '''	if ready, found, _ := unstructured.NestedBool(obj.Object, "status", "ready"); found {
		fieldSet["status.ready"] = fmt.Sprintf("%t", ready)
	}

	return selector.Matches(fieldSet)
}

// Dump''', '''	if ready, _, _ := unstructured.NestedBool(obj.Object, "status", "ready"); ready {
		fieldSet["status.ready"] = fmt.Sprintf("%t", ready)
	}

	return selector.Matches(fieldSet)
}

// Dump''')],
  test="VIEW:" + '''
func TestZZDemo(t *testing.T) {
	vc := cache.NewViewCache(cache.CacheOptions{})
	zmust(t, vc.Add(zview("n", "x", map[string]any{"status": map[string]any{"ready": false}})))
	l := cache.NewViewObjectList("zop", "V")
	zmust(t, vc.List(zctx, l, client.MatchingFields{"status.ready": "false"}))
	if len(l.Items) != 1 {
		t.Fatal("the object that is not ready is not found")
	}
}
''',
  needs="a field selector for a false status.ready", breaks="objects that are not ready are missing from the list"),
 dict(id="p15-key", prop="P15", pkg="pkg/cache",
  edits=[("pkg/object/uid.go", '''	if !viewv1a1.IsViewKind(gvk) || obj.GetUID() != "" {
		return
	}
	obj.SetUID(NewUID(gvk, obj.GetNamespace(), obj.GetName()))
''', '''	if !viewv1a1.IsViewKind(gvk) || obj.GetUID() != "" {
		return
	}
	gvk.Group = viewv1a1.GroupSuffix // the kind tells the view
	obj.SetUID(NewUID(gvk, obj.GetNamespace(), obj.GetName()))
''')],
  test="VIEW:" + '''
var _ cache.CacheOptions

func TestZZDemo(t *testing.T) {
	a, b := zview("n", "x", nil), object.NewViewObject("zop2", "V")
	object.SetName(b, "n", "x")
	object.WithUID(a)
	object.WithUID(b)
	if a.GetUID() == b.GetUID() {
		t.Fatal("views of different operators have the same UID")
	}
}
''',
  needs="views of the same kind and name of two operators", breaks="they get the same UID"),
 dict(id="p16-unregister", prop="P16", pkg="pkg/cache",
  edits=[("pkg/cache/view_cache.go", '''			c.delegatingInformers[gvk][i] = c.delegatingInformers[gvk][len(c.delegatingInformers[gvk])-1]
			c.delegatingInformers[gvk] = c.delegatingInformers[gvk][:len(c.delegatingInformers[gvk])-1]
''', '''			c.delegatingInformers[gvk] = c.delegatingInformers[gvk][:i]
''')],
  test="VIEW:" + '''
func TestZZDemo(t *testing.T) {
	vc := cache.NewViewCache(cache.CacheOptions{})
	n := make([]int, 3)
	var ds []*cache.DelegatingViewCache
	for i := range n {
		d := cache.NewDelegatingViewCache(vc, cache.CacheOptions{})
		inf, err := d.GetInformer(zctx, zview("n", "x", nil))
		zmust(t, err)
		_, err = inf.AddEventHandler(toolscache.ResourceEventHandlerFuncs{AddFunc: func(any) { n[i]++ }})
		zmust(t, err)
		ds = append(ds, d)
	}
	zmust(t, ds[0].RemoveInformer(zctx, zview("n", "x", nil)))
	zmust(t, vc.Add(zview("n", "x", nil)))
	for i := 0; n[1]+n[2] < 2 && i < 1000; i++ {
		time.Sleep(time.Millisecond)
	}
	if n[1] != 1 || n[2] != 1 {
		t.Fatal("removing an operator's informer cuts off those of other operators")
	}
}
''',
  needs="an operator that removes its informer while operators that came later have theirs", breaks="the operators that came later get no events any more"),
 dict(id="p16-delete", prop="P16", pkg="pkg/cache",
  edits=[("pkg/cache/view_cache.go", '''			if watcher.shouldIncludeObject(obj) {
				watcher.sendEvent(watch.Deleted, obj)
			}
''', '''			if watcher.fieldSelector != nil || watcher.shouldIncludeObject(obj) {
				watcher.sendEvent(watch.Deleted, obj)
			}
''')],
  test="VIEW:" + '''
func TestZZDemo(t *testing.T) {
	vc := cache.NewViewCache(cache.CacheOptions{})
	c, cancel := context.WithCancel(zctx)
	defer cancel()
	w, err := vc.Watch(c, cache.NewViewObjectList("zop", "V"), client.MatchingFields{"metadata.name": "y"})
	zmust(t, err)
	x, y := zview("n", "x", nil), zview("n", "y", nil)
	zmust(t, vc.Add(x))
	zmust(t, vc.Delete(x))
	zmust(t, vc.Add(y))
	if e := <-w.ResultChan(); e.Type != watch.Added {
		t.Fatalf("the watch gets %s of an object it does not select", e.Type)
	}
}
''',
  needs="a watch with a field selector and the deletion of an object that does not match", breaks="the watch reports deletions of objects it never saw"),
 dict(id="p16-handler", prop="P16", pkg="pkg/cache",
  edits=[("pkg/cache/view_cache_informer.go", '''		id:                   atomic.AddInt64(&c.handlerCounter, 1),
''', '''		id:                   c.nextID(),
'''), ("pkg/cache/view_cache_informer.go", '''// RemoveEventHandler removes a previously''', '''// nextID returns the id of the next handler.
func (c *ViewCacheInformer) nextID() int64 {
	c.mutex.RLock()
	defer c.mutex.RUnlock()
	return int64(len(c.handlers)) + 1
}

// RemoveEventHandler removes a previously''')],
  test="VIEW:" + '''
func TestZZDemo(t *testing.T) {
	vc := cache.NewViewCache(cache.CacheOptions{})
	inf, err := vc.GetInformer(zctx, zview("n", "x", nil))
	zmust(t, err)
	n := make([]int, 3)
	add := func(i int) toolscache.ResourceEventHandlerRegistration {
		r, err := inf.AddEventHandler(toolscache.ResourceEventHandlerFuncs{AddFunc: func(any) { n[i]++ }})
		zmust(t, err)
		return r
	}
	first := add(0)
	add(1)
	zmust(t, inf.RemoveEventHandler(first))
	add(2)
	zmust(t, vc.Add(zview("n", "x", nil)))
	for i := 0; n[1]+n[2] < 2 && i < 1000; i++ {
		time.Sleep(time.Millisecond)
	}
	if n[1] != 1 || n[2] != 1 {
		t.Fatalf("a handler lost its events: %v", n)
	}
}
''',
  needs="a handler that is removed while a later one stays, and then another one that is added", breaks="the handler in the middle gets no events any more"),
]
for s in SEEDS:
    if s["test"].startswith("VIEW:"):
        s["test"] = VH.replace("PKG", s["pkg"].split("/")[-1]) + s["test"][5:]
