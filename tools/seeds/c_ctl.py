RH = '''package reconciler_test

import (
	"context"
	"errors"
	"testing"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"
	"sigs.k8s.io/controller-runtime/pkg/manager"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

type zmgr struct {
	manager.Manager
	c client.Client
}

func (m *zmgr) GetClient() client.Client { return m.c }
func (m *zmgr) GetLogger() logr.Logger   { return logr.Discard() }

func zo(content map[string]any) object.Object {
	o := object.New()
	o.SetUnstructuredContent(content)
	o.SetAPIVersion("apps.io/v2")
	o.SetKind("Thing")
	o.SetNamespace("n")
	o.SetName("x")
	return o
}

func zclient(funcs interceptor.Funcs, objs ...client.Object) client.WithWatch {
	return fake.NewClientBuilder().WithObjects(objs...).WithStatusSubresource(zo(map[string]any{})).WithInterceptorFuncs(funcs).Build()
}

func ztarget(c client.Client, typ opv1a1.TargetType) reconciler.Target {
	g, v := "apps.io", "v2"
	return reconciler.NewTarget(&zmgr{c: c}, "op", opv1a1.Target{Resource: opv1a1.Resource{Group: &g, Version: &v, Kind: "Thing"}, Type: typ})
}

func zget(t *testing.T, c client.Client) map[string]any {
	o := zo(map[string]any{})
	if err := c.Get(context.TODO(), client.ObjectKeyFromObject(o), o); err != nil {
		t.Fatal(err)
	}
	return o.UnstructuredContent()
}

var _ = errors.New
var _ = unstructured.NestedMap
'''
T = "pkg/reconciler/target.go"
SEEDS = [
 dict(id="p10-stale-status", prop="P10", pkg="pkg/cache",
  edits=[(T, '''				if k == "metadata" {
					continue
				}
				if _, ok, _''', '''				if k == "metadata" || k == "status" {
					continue
				}
				if _, ok, _''')],
  test='''package cache_test

import (
	"context"
	"testing"

	"github.com/go-logr/logr"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/manager"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

type zmgr struct {
	manager.Manager
	c client.Client
}

func (m *zmgr) GetClient() client.Client { return m.c }
func (m *zmgr) GetLogger() logr.Logger   { return logr.Discard() }

func TestZZDemo(t *testing.T) {
	c := cache.NewViewCache(cache.CacheOptions{}).GetClient()
	tg := reconciler.NewTarget(&zmgr{c: c}, "op", opv1a1.Target{Resource: opv1a1.Resource{Kind: "V"}})
	for _, content := range []map[string]any{{"data": "1", "status": map[string]any{"s": "old"}}, {"data": "2"}} {
		o := object.NewViewObject("op", "V")
		object.SetContent(o, content)
		object.SetName(o, "n", "x")
		if err := tg.Write(context.TODO(), object.Delta{Type: object.Upserted, Object: o}, nil); err != nil {
			t.Fatal(err)
		}
	}
	o := object.NewViewObject("op", "V")
	object.SetName(o, "n", "x")
	if err := c.Get(context.TODO(), client.ObjectKeyFromObject(o), o); err != nil {
		t.Fatal(err)
	}
	if _, ok := o.UnstructuredContent()["status"]; ok {
		t.Fatalf("stale status: %v", o.UnstructuredContent())
	}
}
''',
  needs="a view object whose earlier result had a status and whose new result has none", breaks="a stale status stays in the stored object"),
 dict(id="p10-status-error", prop="P10", pkg="pkg/reconciler",
  edits=[("pkg/reconciler/ctrlutils.go", '''			if err := c.Status().Update(ctx, obj); err != nil {
				return controllerutil.OperationResultNone, err
			}
''', '''			if err := c.Status().Update(ctx, obj); err != nil {
				return controllerutil.OperationResultUpdated, nil
			}
''')],
  test=RH + '''
func TestZZDemo(t *testing.T) {
	c := zclient(interceptor.Funcs{SubResourceUpdate: func(ctx context.Context, c client.Client, n string, o client.Object, _ ...client.SubResourceUpdateOption) error {
		return errors.New("lost")
	}}, zo(map[string]any{"spec": map[string]any{"a": "b"}}))
	d := object.Delta{Type: object.Upserted, Object: zo(map[string]any{"status": map[string]any{"s": "t"}})}
	if err := ztarget(c, opv1a1.Updater).Write(context.TODO(), d, nil); err == nil {
		t.Fatal("the status was not written but no error was reported")
	}
}
''',
  needs="the status update of an existing object fails", breaks="the failed write is reported as a success, so that the status is never written"),
 dict(id="p11-float", prop="P11", pkg="pkg/reconciler",
  edits=[(T, '''func removeNestedMap(m map[string]any) map[string]any {
	result := make(map[string]any)
	for k, v := range m {
		switch x := v.(type) {
		case bool, int64, float64, string:''', '''func removeNestedMap(m map[string]any) map[string]any {
	result := make(map[string]any)
	for k, v := range m {
		switch x := v.(type) {
		case bool, int64, string:''')],
  test=RH + '''
func TestZZDemo(t *testing.T) {
	c := zclient(interceptor.Funcs{}, zo(map[string]any{"spec": map[string]any{"a": "b", "f": 1.5, "g": "h"}}))
	d := object.Delta{Type: object.Deleted, Object: zo(map[string]any{"spec": map[string]any{"f": 1.5, "g": "h"}})}
	if err := ztarget(c, opv1a1.Patcher).Write(context.TODO(), d, nil); err != nil {
		t.Fatal(err)
	}
	m := zget(t, c)["spec"].(map[string]any)
	if len(m) != 1 || m["a"] != "b" {
		t.Fatalf("not removed: %v", m)
	}
}
''',
  needs="a deletion whose result has a non-integral number", breaks="the field stays in the patched object"),
 dict(id="p11-absent", prop="P11", pkg="pkg/reconciler",
  edits=[(T, '''			if err := c.Get(ctx, client.ObjectKeyFromObject(obj), obj); err != nil {
				return err
			}
			t.log.V(4).Info("fetched target object for patch",''', '''			if err := c.Get(ctx, client.ObjectKeyFromObject(obj), obj); err != nil {
				return client.IgnoreNotFound(err)
			}
			t.log.V(4).Info("fetched target object for patch",''')],
  test=RH + '''
func TestZZDemo(t *testing.T) {
	c := zclient(interceptor.Funcs{})
	d := object.Delta{Type: object.Upserted, Object: zo(map[string]any{"spec": map[string]any{"f": "g"}})}
	if err := ztarget(c, opv1a1.Patcher).Write(context.TODO(), d, nil); err == nil {
		t.Fatal("patching an absent object succeeded")
	}
}
''',
  needs="the object to be patched does not exist (yet)", breaks="the patch is dropped without an error"),
 dict(id="p12-delete-error", prop="P12", pkg="pkg/reconciler",
  edits=[(T, '''			if !apierrors.IsNotFound(err) {
				return fmt.Errorf("delete resource %s failed: %w",''', '''			if apierrors.IsConflict(err) {
				return fmt.Errorf("delete resource %s failed: %w",''')],
  test=RH + '''
func TestZZDemo(t *testing.T) {
	c := zclient(interceptor.Funcs{Delete: func(ctx context.Context, c client.WithWatch, o client.Object, _ ...client.DeleteOption) error {
		return errors.New("lost")
	}}, zo(map[string]any{"spec": map[string]any{"a": "b"}}))
	d := object.Delta{Type: object.Deleted, Object: zo(map[string]any{})}
	if err := ztarget(c, opv1a1.Updater).Write(context.TODO(), d, nil); err == nil {
		t.Fatal("the object was not deleted but no error was reported")
	}
}
''',
  needs="the deletion of a stale result fails (other than by a conflict)", breaks="the request is not retried, so that the stale result stays in the target"),
 dict(id="p12-secret-break", prop="P12", pkg="pkg/object",
  edits=[("pkg/object/secret.go", '''				// This handles cases where data is malformed or already decoded.
				continue
''', '''				// This handles cases where data is malformed or already decoded.
				break
''')],
  test='''package object_test

import (
	"testing"

	"github.com/l7mp/dcontroller/pkg/object"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		o := object.New()
		o.SetUnstructuredContent(map[string]any{"kind": "Secret", "data": map[string]any{"a": "cGxhaW4=", "b": "%%", "c": "cGxhaW4="}})
		d := object.DecodeSecretData(o).UnstructuredContent()["data"].(map[string]any)
		if d["a"] != "plain" || d["c"] != "plain" || d["b"] != "%%" {
			t.Fatalf("not decoded: %v", d)
		}
	}
}
''',
  needs="a Secret with an entry that is not base64, visited before another entry", breaks="other entries of the Secret stay encoded in the pipeline"),
 dict(id="p13-namespace", prop="P13", pkg="pkg/pipeline",
  edits=[("pkg/pipeline/zset_adaptor.go", '''			if reflect.ValueOf(namespace).Kind() != reflect.String {
				return nil, NewInvalidObjectError(fmt.Sprintf("metadata/namespace must be "+
					"a string (current value %q)", namespace))
			}
			namespaceStr = namespace.(string)
''', '''			if reflect.ValueOf(namespace).Kind() == reflect.String {
				namespaceStr = namespace.(string)
			}
''')],
  test="PIPE:" + '''
func TestZZDemo(t *testing.T) {
	e := zpipe(t, `[{"@project":{"metadata":{"name":"$.metadata.name","namespace":"$.spec.ns"}}}]`, "A")
	out, err := e.Evaluate(object.Delta{Type: object.Added, Object: zobj(t, "A", `{"metadata":{"name":"x","namespace":"n"},"spec":{"ns":7}}`)})
	if err == nil || len(out) > 0 {
		t.Fatalf("a result with an invalid namespace was accepted: %v", out)
	}
}
''',
  needs="a result whose namespace is not a string", breaks="the event is accepted and a result in the wrong namespace emitted"),
 dict(id="p13-select", prop="P13", pkg="pkg/pipeline",
  edits=[("pkg/dbsp/op_linear.go", '''		selectedDocs, err = n.eval.Evaluate(doc)
		if err != nil {
			return nil, err
		}
''', '''		selectedDocs, err = n.eval.Evaluate(doc)
		if err != nil {
			continue // cannot be selected
		}
''')],
  test="PIPE:" + '''
func TestZZDemo(t *testing.T) {
	e := zpipe(t, `[{"@select":{"@gt":["$.spec.v",2]}}]`, "A")
	if _, err := e.Evaluate(object.Delta{Type: object.Added, Object: zobj(t, "A", `{"metadata":{"name":"x","namespace":"n"},"spec":{"v":"s"}}`)}); err == nil {
		t.Fatal("an object that cannot be selected on was accepted")
	}
}
''',
  needs="an object on which the condition of a selection cannot be evaluated", breaks="the event is accepted although evaluation from scratch fails"),
]
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("a_pipe", _o.path.join(_o.path.dirname(__file__), "a_pipe.py")); _m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
for s in SEEDS:
    if s["test"].startswith("PIPE:"):
        s["test"] = _m.PH.replace("PKG", "pipeline") + s["test"][5:]
