SH = '''package controllers_test

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"testing"
	"time"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/runtime"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/config"
	"sigs.k8s.io/controller-runtime/pkg/log"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/apiserver"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/kubernetes/controllers"
)

type zm = map[string]any

// zworld is the program next to an in-memory Kubernetes.
type zworld struct {
	k    *Server
	c    *controllers.OpController
	api  *cache.API
	base string
	stop func()
	done chan struct{}
	err  error
}

func zok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func zkube() *Server {
	return New(Kind{Version: "v1", Kind: "ConfigMap", Resource: "configmaps", Namespaced: true},
		Kind{Group: "test.io", Version: "v1", Kind: "Widget", Resource: "widgets", Namespaced: true},
		Kind{Group: "dcontroller.io", Version: "v1alpha1", Kind: "Operator", Resource: "operators", Status: true})
}

func zmake(t *testing.T, k *Server) *zworld {
	log.SetLogger(logr.Discard())
	w := &zworld{k: k, done: make(chan struct{})}
	scheme := runtime.NewScheme()
	zok(t, clientgoscheme.AddToScheme(scheme))
	zok(t, opv1a1.AddToScheme(scheme))
	var err error
	w.api, err = cache.NewAPI(k.Config(), cache.APIOptions{})
	zok(t, err)
	skip := true
	w.c, err = controllers.NewOpController(k.Config(), w.api.Cache, ctrl.Options{Scheme: scheme,
		Metrics: metricsserver.Options{BindAddress: "0"}, HealthProbeBindAddress: "0",
		Controller: config.Controller{SkipNameValidation: &skip}, Logger: logr.Discard()})
	zok(t, err)
	var as *apiserver.APIServer
	for i := 0; i < 20; i++ { // the random port may be in use
		ac, err := apiserver.NewDefaultConfig("127.0.0.1", 0, w.api.Client, true, false, logr.Discard())
		zok(t, err)
		if as, err = apiserver.NewAPIServer(ac); err == nil {
			break
		}
	}
	w.base = "http://" + as.GetInsecureServerAddress()
	ctx, cancel := context.WithCancel(context.Background())
	w.stop = cancel
	t.Cleanup(cancel)
	w.c.SetAPIServer(as)
	go func() { _ = as.Start(ctx) }()
	go func() { _ = w.api.Cache.Start(ctx) }()
	go func() { w.err = w.c.Start(ctx); close(w.done) }()
	return w
}

// zctl is a controller that copies src to dst; "cm" and "widget" are native.
func zctl(name, src, dst, tag string) any {
	res := func(s string) zm {
		switch s {
		case "cm":
			return zm{"apiGroup": "", "version": "v1", "kind": "ConfigMap"}
		case "widget":
			return zm{"apiGroup": "test.io", "version": "v1", "kind": "Widget"}
		}
		return zm{"kind": s}
	}
	return zm{"name": name, "sources": []any{res(src)}, "target": res(dst), "pipeline": zm{"@project": zm{
		"metadata": zm{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "data": zm{"tag": tag, "val": "$.data.val"}}}}
}

func zbroken(name string) any {
	return zm{"name": name, "sources": []any{zm{"kind": "In"}}, "target": zm{"kind": "Out"},
		"pipeline": []any{zm{"@unwind": zm{"@nope": 1}}, zm{"@join": 1}}}
}

func (w *zworld) apply(op string, ctls ...any) zm {
	return w.k.Put("operators", zm{"apiVersion": "dcontroller.io/v1alpha1", "kind": "Operator", "metadata": zm{"name": op}, "spec": zm{"controllers": ctls}})
}

func (w *zworld) cm(name, val string) {
	w.k.Put("configmaps", zm{"apiVersion": "v1", "kind": "ConfigMap", "metadata": zm{"name": name, "namespace": "ns"}, "data": zm{"val": val}})
}

func (w *zworld) widget(name string) string {
	o := w.k.Get("widgets", "ns", name)
	if o == nil {
		return ""
	}
	d := o["data"].(zm)
	return fmt.Sprintf("%v/%v", d["tag"], d["val"])
}

// kinds gives the kinds the API server has for an operator.
func (w *zworld) kinds(op string) string {
	r, err := http.Get(w.base + "/apis/" + op + ".view.dcontroller.io/v1alpha1")
	if err != nil {
		return err.Error()
	}
	defer r.Body.Close()
	var l struct{ Resources []struct{ Kind string } }
	if r.StatusCode == 200 {
		_ = json.NewDecoder(r.Body).Decode(&l)
	}
	m := map[string]bool{}
	for _, x := range l.Resources {
		m[x.Kind] = true
	}
	return fmt.Sprint(m)
}

// status gives name=Ready/generation/errors of the controllers of an operator.
func (w *zworld) status(op string) string {
	o := w.k.Get("operators", "", op)
	st, _ := o["status"].(zm)
	cs, _ := st["controllers"].([]any)
	s := ""
	for _, c := range cs {
		m := c.(zm)
		cond := m["conditions"].([]any)[0].(zm)
		e, _ := m["lastErrors"].([]any)
		s += fmt.Sprintf("%v=%v/%v/%d ", m["name"], cond["status"], cond["observedGeneration"], len(e))
	}
	return s
}

func zwait(t *testing.T, what string, f func() bool) {
	t.Helper()
	for i := 0; i < 2000; i++ {
		if f() {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("does not come about: " + what)
}

// znever checks for a while that something does not happen.
func znever(t *testing.T, what string, f func() bool) {
	t.Helper()
	for i := 0; i < 300; i++ {
		if f() {
			t.Fatal(what)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

var _ = znever
'''
OC = "pkg/kubernetes/controllers/operator.go"
def seed(id, edits, test, needs, breaks):
    return dict(id=id, prop="P21", pkg="pkg/kubernetes/controllers", edits=edits, needs=needs, breaks=breaks,
                test=SH + test, files={"kapi_test.go": ("harness/kapi/kapi.go", "controllers_test")})
SEEDS = [
 seed("p21-old-ctx", [(OC, "if err := e.op.Start(ctx); err != nil {", "if err := e.op.Start(c.ctx); err != nil {")], '''
func TestZZDemo(t *testing.T) {
	w := zmake(t, zkube())
	w.cm("a", "1")
	w.apply("op1", zctl("c", "cm", "widget", "old"))
	zwait(t, "first result", func() bool { return w.widget("a") == "old/1" })
	w.k.Delete("operators", "", "op1")
	zwait(t, "deletion", func() bool { return w.c.GetOperator("op1") == nil })
	time.Sleep(time.Second)
	w.cm("a", "2")
	znever(t, "the deleted operator still works", func() bool { return w.widget("a") != "old/1" })
}
''', "an operator that is deleted or replaced, and a later change of a source", "the old operator goes on working"),
 seed("p21-unreg-native", [(OC, '''	e.op.UnregisterGVKs()
''', '''	if op := c.GetOperator(name); op == nil || len(op.GetGVKs()) > 0 {
		e.op.UnregisterGVKs()
	}
'''), (OC, '''	// If this is a modification event, first remove old operator and create a new one
	if c.GetOperator(name) != nil {
		c.DeleteOperator(name)
	}

	return c.AddOperatorFromSpec(name, spec)
''', '''	// If this is a modification event, first remove old operator and create a new one: what it
	// has registered with the API server is replaced by the new one
	c.mu.Lock()
	e := c.operators[name]
	delete(c.operators, name)
	c.mu.Unlock()
	if e != nil && e.cancel != nil {
		e.cancel()
	}

	return c.AddOperatorFromSpec(name, spec)
''')], '''
func TestZZDemo(t *testing.T) {
	w := zmake(t, zkube())
	w.cm("a", "1")
	w.apply("op1", zctl("c", "cm", "V", "x"))
	zwait(t, "registration", func() bool { return w.kinds("op1") == "map[V:true]" })
	w.apply("op1", zctl("c", "cm", "widget", "x"))
	zwait(t, "result", func() bool { return w.widget("a") == "x/1" })
	zwait(t, "removal of the kinds", func() bool { return w.kinds("op1") == "map[]" })
}
''', "an operator that is replaced by one without views", "the API server keeps the kinds of the old operator"),
 seed("p21-conflict", [(OC, "	if err := retry.RetryOnConflict(retry.DefaultRetry, func() error {", "	if err := retry.RetryOnConflict(wait.Backoff{Steps: 1}, func() error {"),
   (OC, '''	"k8s.io/apimachinery/pkg/types"
''', '''	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/util/wait"
''')], '''
func TestZZDemo(t *testing.T) {
	k := zkube()
	n := 0
	k.Fail = func(method, resource, sub, name string) int {
		if sub == "status" && method == "PUT" {
			if n++; n == 1 {
				return 409
			}
		}
		return 0
	}
	w := zmake(t, k)
	w.apply("op1", zctl("c", "cm", "V", "x"))
	zwait(t, "status", func() bool { return w.status("op1") == "c=True/1/0 " })
}
''', "the first write of an operator's status meets a conflict", "the custom resource never gets a status"),
 seed("p21-broken-kinds", [("pkg/operator/operator.go", '''	for _, config := range spec.Controllers {
		if err := op.AddDeclarativeController(config); err != nil {
''', '''	for _, config := range spec.Controllers {
		if op.GetController(config.Name) != nil {
			continue // already there
		}
		if err := op.AddDeclarativeController(config); err != nil {
'''), ("pkg/operator/operator.go", '''	for _, c := range op.controllers {
		gvks = append(gvks, c.GetGVKs()...)
	}
''', '''	for _, c := range op.controllers {
		if status := c.GetStatus(0); len(status.LastErrors) > 0 {
			break // has no kinds yet
		}
		gvks = append(gvks, c.GetGVKs()...)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	w := zmake(t, zkube())
	w.apply("op1", zbroken("b"), zctl("c", "cm", "V", "x"))
	zwait(t, "registration", func() bool { return len(w.kinds("op1")) >= len("map[V:true]") && w.kinds("op1") != "map[In:true Out:true]" })
}
''', "an operator with a broken controller before a valid one", "the kinds of the valid controller are not served"),
 seed("p21-order", [("pkg/operator/operator.go", '''	// the controller returned is always valid: this makes sure we will receive the
	// status update triggers to show the controller errors to the user
	op.controllers = append(op.controllers, c)

	return err
}

// AddNativeController''', '''	// the controller returned is always valid: this makes sure we will receive the
	// status update triggers to show the controller errors to the user
	if err != nil {
		// put failed controllers first so that they are seen
		op.controllers = append([]dcontroller.Controller{c}, op.controllers...)
	} else {
		op.controllers = append(op.controllers, c)
	}

	return err
}

// AddNativeController''')], '''
func TestZZDemo(t *testing.T) {
	w := zmake(t, zkube())
	w.apply("op1", zbroken("b"), zctl("c", "cm", "V", "x"), zbroken("d"))
	zwait(t, "status", func() bool { return w.status("op1") == "b=False/1/1 c=True/1/0 d=False/1/1 " })
}
''', "an operator with a broken controller after another one", "the status lists the controllers in another order"),
 seed("p21-predicate", [(OC, "			predicate.GenerationChangedPredicate{},\n", "			predicate.ResourceVersionChangedPredicate{},\n"), 
   (OC, '''	op, err := c.UpsertOperator(opName, &spec.Spec)
''', '''	if op := c.GetOperator(opName); op != nil && len(spec.Status.Controllers) > 0 &&
		reflect.DeepEqual(op.GetStatus(spec.GetGeneration()).Controllers[0].LastErrors, spec.Status.Controllers[0].LastErrors) &&
		len(spec.Labels) == 0 && spec.Status.Controllers[0].Conditions[0].ObservedGeneration == spec.GetGeneration() {
		return reconcile.Result{}, nil // nothing new
	}

	op, err := c.UpsertOperator(opName, &spec.Spec)
'''), (OC, '''	"fmt"
	"sync"
''', '''	"fmt"
	"reflect"
	"sync"
''')], '''
func TestZZDemo(t *testing.T) {
	w := zmake(t, zkube())
	w.cm("a", "1")
	w.apply("op1", zctl("c", "cm", "widget", "x"))
	zwait(t, "status", func() bool { return w.status("op1") == "c=True/1/0 " })
	op := w.c.GetOperator("op1")
	o := w.k.Get("operators", "", "op1")
	o["metadata"].(zm)["labels"] = zm{"a": "b"}
	delete(o["metadata"].(zm), "resourceVersion")
	w.k.Put("operators", o)
	znever(t, "the operator is restarted", func() bool { return w.c.GetOperator("op1") != op })
}
''', "a change of the labels of a custom resource", "the operator is restarted"),
 seed("p21-generation", [(OC, "	newStatus := op.GetStatus(spec.GetGeneration())\n", '''	// The generation does not change while an operator lives
	gen := spec.GetGeneration()
	if len(spec.Status.Controllers) > 0 && len(spec.Status.Controllers[0].LastErrors) > 0 {
		gen = spec.Status.Controllers[0].Conditions[0].ObservedGeneration
	}
	newStatus := op.GetStatus(gen)
''')], '''
func TestZZDemo(t *testing.T) {
	w := zmake(t, zkube())
	w.apply("op1", zbroken("b"), zctl("c", "cm", "widget", "x"))
	zwait(t, "first status", func() bool { return w.status("op1") == "b=False/1/1 c=True/1/0 " })
	w.apply("op1", zctl("c", "cm", "widget", "x"))
	zwait(t, "second status", func() bool { return w.status("op1") == "c=True/2/0 " })
}
''', "an operator whose first controller was broken is replaced", "the status has the generation of the old specification"),
]
