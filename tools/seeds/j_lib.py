PRE = '''package operator_test

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/log"
	"sigs.k8s.io/yaml"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/operator"
)

var _ cache.Cache

func zok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

// zmake makes an operator whose controllers copy one view to another.
func zmake(t *testing.T, name string, opts operator.Options, ctls ...string) *operator.Operator {
	t.Helper()
	log.SetLogger(logr.Discard())
	s := "controllers:\\n"
	for _, c := range ctls {
		s += c
	}
	var spec opv1a1.OperatorSpec
	zok(t, yaml.Unmarshal([]byte(s), &spec))
	if opts.ErrorChannel == nil {
		opts.ErrorChannel = make(chan error, 64)
	}
	op, err := operator.New(name, nil, opts)
	zok(t, err)
	op.AddSpec(&spec)
	return op
}

func zctl(name, from, to string) string {
	return fmt.Sprintf(`
- name: %s
  sources: [%s]
  pipeline: {"@project": {metadata: {name: $.metadata.name, namespace: $.metadata.namespace}, data: {val: $.data.val}}}
  target: %s
`, name, from, to)
}

func zstart(t *testing.T, op *operator.Operator) func() {
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { _ = op.Start(ctx); close(done) }()
	stop := func() { cancel(); <-done }
	t.Cleanup(stop)
	return stop
}

func zobj(op, kind, name, val string) *unstructured.Unstructured {
	o := &unstructured.Unstructured{Object: map[string]any{"data": map[string]any{"val": val}}}
	o.SetGroupVersionKind(schema.GroupVersionKind{Group: op + ".view.dcontroller.io", Version: "v1alpha1", Kind: kind})
	o.SetName(name)
	o.SetNamespace("ns")
	return o
}

func zval(c client.Client, op, kind, name string) string {
	o := zobj(op, kind, name, "")
	if err := c.Get(context.Background(), client.ObjectKeyFromObject(o), o); err != nil {
		return "none"
	}
	v, _, _ := unstructured.NestedString(o.Object, "data", "val")
	return v
}

func zwait(t *testing.T, what string, f func() bool) {
	t.Helper()
	for end := time.Now().Add(15 * time.Second); !f(); time.Sleep(10 * time.Millisecond) {
		if time.Now().After(end) {
			t.Fatalf("%s does not come about", what)
		}
	}
}
'''
def seed(id, edits, test, needs, breaks):
    return dict(id=id, prop=id[:3].upper(), edits=edits, pkg="pkg/operator", test=PRE + test, needs=needs, breaks=breaks)
MG, OP = "pkg/manager/manager.go", "pkg/operator/operator.go"
SEEDS = [
 seed("p28-headless-own", [(MG, '''	if config == nil {
		return NewHeadless(opts)
	}
''', '''	if config == nil {
		// there is no API server to build the native part of a composite cache on
		opts.NewCache = nil
		return NewHeadless(opts)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	vc := cache.NewViewCache(cache.CacheOptions{})
	a := zmake(t, "a", operator.Options{Cache: vc}, zctl("c", "{kind: In}", "{kind: Out}"))
	zok(t, vc.GetClient().Create(context.Background(), zobj("a", "In", "x", "1")))
	zstart(t, a)
	zwait(t, "result", func() bool { return zval(vc.GetClient(), "a", "Out", "x") == "1" })
}
''', "an operator without Kubernetes that is given a storage", "the operator uses a storage of its own"),
 seed("p28-first-broken", [(OP, '''			op.log.V(5).Info("failed to create controller", "controller", config.Name,
				"error", err)
''', '''			op.log.V(5).Info("failed to create controller", "controller", config.Name,
				"error", err)
			if len(op.controllers) == 1 {
				// nothing works yet: leave it at the error
				return
			}
''')], '''
func TestZZDemo(t *testing.T) {
	a := zmake(t, "a", operator.Options{}, `
- name: bad
  sources: [{kind: In}]
  pipeline: [{"@unwind": {"@nope": 1}}, {"@join": 1}]
  target: {kind: Out}
`, zctl("good", "{kind: In}", "{kind: Out}"))
	zok(t, a.GetClient().Create(context.Background(), zobj("a", "In", "x", "1")))
	zstart(t, a)
	zwait(t, "result", func() bool { return zval(a.GetClient(), "a", "Out", "x") == "1" })
}
''', "an operator whose first controller is broken", "the other controllers are not made"),
 seed("p28-prefix", [(OP, "		if c.GetName() == name {\n", '''		// names may be abbreviated
		if strings.HasPrefix(c.GetName(), name) {
'''), (OP, '''	"os"
''', '''	"os"
	"strings"
''')], '''
func TestZZDemo(t *testing.T) {
	a := zmake(t, "a", operator.Options{}, zctl("conn-2", "{kind: In}", "{kind: Out}"), zctl("conn", "{kind: In}", "{kind: Out2}"))
	if c := a.GetController("conn"); c == nil || c.GetName() != "conn" {
		t.Fatal(c)
	}
}
''', "a controller's name that is the beginning of another's", "the wrong controller is found"),
]
