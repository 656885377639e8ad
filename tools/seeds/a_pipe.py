PH = '''package PKG_test

import (
	"encoding/json"
	"fmt"
	"sort"
	"testing"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/runtime/schema"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
)

func zgvk(k string) schema.GroupVersionKind {
	return schema.GroupVersionKind{Group: "zop.view.dcontroller.io", Version: "v1alpha1", Kind: k}
}

func zobj(t *testing.T, kind, js string) object.Object {
	m := map[string]any{}
	o := object.New()
	if err := json.Unmarshal([]byte(js), &m); err != nil {
		t.Fatal(err)
	}
	zfix(m)
	o.SetUnstructuredContent(m)
	o.SetGroupVersionKind(zgvk(kind))
	return o
}

func zfix(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k := range x {
			x[k] = zfix(x[k])
		}
	case []any:
		for i := range x {
			x[i] = zfix(x[i])
		}
	case float64:
		if x == float64(int64(x)) {
			return int64(x)
		}
	}
	return v
}

func zpipe(t *testing.T, ops string, kinds ...string) pipeline.Evaluator {
	var p opv1a1.Pipeline
	if err := json.Unmarshal([]byte(ops), &p); err != nil {
		t.Fatal(err)
	}
	srcs := []schema.GroupVersionKind{}
	for _, k := range kinds {
		srcs = append(srcs, zgvk(k))
	}
	e, err := pipeline.New("zop", zgvk("T"), srcs, p, logr.Discard())
	if err != nil {
		t.Fatal(err)
	}
	return e
}

// zworld applies the emitted changes.
type zworld map[string]string

func (w zworld) apply(t *testing.T, ds []object.Delta, err error) {
	if err != nil {
		t.Fatal(err)
	}
	for _, d := range ds {
		if d.Object.GroupVersionKind() != zgvk("T") {
			t.Fatalf("wrong kind %s", d.Object.GroupVersionKind())
		}
		if d.Type == object.Deleted {
			delete(w, d.Object.GetName())
			continue
		}
		m := object.DeepCopy(d.Object).UnstructuredContent()
		delete(m, "apiVersion")
		delete(m, "kind")
		b, _ := json.Marshal(m)
		w[d.Object.GetName()] = string(b)
	}
}

func (w zworld) want(t *testing.T, when string, objs ...string) {
	t.Helper()
	have := []string{}
	for _, v := range w {
		have = append(have, v)
	}
	sort.Strings(have)
	sort.Strings(objs)
	if fmt.Sprint(have) != fmt.Sprint(objs) {
		t.Fatalf("%s: have %v, want %v", when, have, objs)
	}
}
'''
PIPE_PH = PH.replace("PKG", "pipeline")
def pt(body): return PIPE_PH + "\n" + body

SEEDS = [
 dict(id="p01-gather-mult", prop="P01", pkg="pkg/pipeline",
  edits=[("pkg/dbsp/op_nonlinear.go", """			for i := 0; i < multiplicity; i++ {
				groups[keyForMap].Values = append(groups[keyForMap].Values, value)
			}
""", """			for i := 0; i < min(multiplicity, 3); i++ {
				groups[keyForMap].Values = append(groups[keyForMap].Values, value)
			}
""")],
  test=pt('''
func TestZZDemo(t *testing.T) {
	p := zpipe(t, `[{"@project":{"metadata":{"name":"all"},"v":"$.v"}},{"@gather":["$.metadata.name","$.v"]}]`, "A")
	w := zworld{}
	for _, n := range []string{"a", "b", "c", "d"} {
		ds, err := p.Evaluate(object.Delta{Type: object.Added, Object: zobj(t, "A", `{"metadata":{"name":"`+n+`"},"v":1}`)})
		w.apply(t, ds, err)
	}
	w.want(t, "equal values", `{"metadata":{"name":"all"},"v":[1,1,1,1]}`)
}
'''),
  needs="a gather over projected documents that coincide (multiplicity above three)", breaks="The gathered list loses the values of documents that became equal before the gather."),
 dict(id="p01-long-name", prop="P01", pkg="pkg/pipeline",
  edits=[("pkg/pipeline/op.go", """	// add index to name
	if err := expression.SetJSONPathRaw("$.metadata.name", fmt.Sprintf("%s-%d", name, elem.idx), doc); err != nil {
""", """	// add index to name, within the length of a label
	if err := expression.SetJSONPathRaw("$.metadata.name", fmt.Sprintf("%.60s-%d", name, elem.idx), doc); err != nil {
""")],
  test=pt('''
func TestZZDemo(t *testing.T) {
	p := zpipe(t, `[{"@unwind":"$.l"}]`, "A")
	w := zworld{}
	n := ""
	for len(n) < 64 {
		n += "n"
	}
	for _, s := range []string{"x", "y"} {
		ds, err := p.Evaluate(object.Delta{Type: object.Added, Object: zobj(t, "A", `{"metadata":{"name":"`+n+s+`"},"l":["`+s+`"]}`)})
		w.apply(t, ds, err)
	}
	w.want(t, "both", `{"l":"x","metadata":{"name":"`+n+`x-0"}}`, `{"l":"y","metadata":{"name":"`+n+`y-0"}}`)
}
'''),
  needs="two sources with long names that agree in the first 60 characters", breaks="The results of one replace those of the other."),
 dict(id="p01-join-del", prop="P01", pkg="pkg/pipeline",
  edits=[("pkg/dbsp/op_bilinear.go", """	for i, delta := range inputs {
		var err error
		op.prevStates[i], err = op.prevStates[i].Add(delta)
""", """	for i, delta := range inputs {
		if delta.UniqueCount() == 0 {
			continue // nothing changed on this input
		}
		var err error
		op.prevStates[i], err = op.prevStates[i].Add(delta)
""")],
  test=pt('''
func TestZZDemo(t *testing.T) {
	p := zpipe(t, `[{"@join":{"@eq":["$.A.v","$.B.v"]}},{"@project":{"metadata":{"name":{"@concat":["$.A.metadata.name","$.B.metadata.name"]}}}}]`, "A", "B")
	w := zworld{}
	ev := func(ty object.DeltaType, kind, js string) {
		ds, err := p.Evaluate(object.Delta{Type: ty, Object: zobj(t, kind, js)})
		w.apply(t, ds, err)
	}
	ev(object.Added, "A", `{"metadata":{"name":"a"},"v":1}`)
	ev(object.Added, "B", `{"metadata":{"name":"b"},"v":1}`)
	w.want(t, "joined", `{"metadata":{"name":"ab"}}`)
	ev(object.Deleted, "A", `{"metadata":{"name":"a"},"v":1}`)
	w.want(t, "deleted")
	ev(object.Added, "B", `{"metadata":{"name":"c"},"v":1}`)
	w.want(t, "partner added after the deletion")
}
'''),
  needs="a deletion on one side of a join, then a new partner on the other side", breaks="Deleted objects stay in the state of the join and pair with later partners."),
 dict(id="p02-kind", prop="P02", pkg="pkg/pipeline",
  edits=[("pkg/pipeline/zset_adaptor.go", """		obj.SetGroupVersionKind(target)
""", """		if k, ok := doc["kind"].(string); !ok || k == target.Kind {
			obj.SetGroupVersionKind(target)
		}
""")],
  test=pt('''
func TestZZDemo(t *testing.T) {
	p := zpipe(t, `[{"@select":{"@eq":["$.v",1]}}]`, "A")
	w := zworld{}
	ds, err := p.Evaluate(object.Delta{Type: object.Added, Object: zobj(t, "A", `{"metadata":{"name":"a"},"v":1}`)})
	w.apply(t, ds, err)
	w.want(t, "selected", `{"metadata":{"name":"a"},"v":1}`)
}
'''),
  needs="a pipeline whose results keep the kind of the source (selection only)", breaks="Such changes carry the kind of the source instead of the target's."),
 dict(id="p02-cache", prop="P02", pkg="pkg/pipeline",
  edits=[("pkg/pipeline/zset_adaptor.go", """				d := ops.adds[len(ops.adds)-1]
				if err := p.targetCache.Add(d.Object); err != nil {
					return nil, err
				}
				deltaCache[key] = object.Delta{Object: d.Object, Type: object.Upserted}
			}
			// else: Object""", """				d := ops.adds[len(ops.adds)-1]
				if len(ops.deletes) == len(ops.adds) {
					d.Object.SetResourceVersion("")
				}
				deltaCache[key] = object.Delta{Object: d.Object, Type: object.Upserted}
				if len(grouped) == 1 {
					if err := p.targetCache.Add(d.Object); err != nil {
						return nil, err
					}
				}
			}
			// else: Object""")],
  test=pt('''
func TestZZDemo(t *testing.T) {
	p := zpipe(t, `[{"@unwind":"$.l"}]`, "A")
	w := zworld{}
	ds, err := p.Evaluate(object.Delta{Type: object.Added, Object: zobj(t, "A", `{"metadata":{"name":"a"},"l":[1,2]}`)})
	w.apply(t, ds, err)
	ds, err = p.Evaluate(object.Delta{Type: object.Updated, Object: zobj(t, "A", `{"metadata":{"name":"a"},"l":[3,4]}`)})
	w.apply(t, ds, err)
	v := zworld{}
	for _, o := range p.GetTargetCache().List() {
		v.apply(t, []object.Delta{{Type: object.Upserted, Object: o}}, nil)
	}
	v.want(t, "recorded target", w["a-0"], w["a-1"])
}
'''),
  needs="an update that changes several results at once", breaks="The pipeline records stale results as its target."),
 dict(id="p03-size", prop="P03", pkg="pkg/pipeline",
  edits=[("pkg/pipeline/pipeline.go", """	p.log.V(2).Info("computed state diff", "diff-size", diffZSet.Size())
""", """	p.log.V(2).Info("computed state diff", "diff-size", diffZSet.Size())
	if diffZSet.Size() == 0 {
		return []object.Delta{}, nil // target is up to date
	}
""")],
  test=pt('''
func TestZZDemo(t *testing.T) {
	p := zpipe(t, `[{"@select":{"@eq":["$.v",1]}},{"@project":{"apiVersion":"zop.view.dcontroller.io/v1alpha1","kind":"T","metadata":"$.metadata","v":"$.v"}}]`, "A")
	w := zworld{}
	ds, err := p.Evaluate(object.Delta{Type: object.Added, Object: zobj(t, "A", `{"metadata":{"name":"a"},"v":1}`)})
	w.apply(t, ds, err)
	if err := p.GetTargetCache().Add(zobj(t, "T", `{"metadata":{"name":"x"},"v":1}`)); err != nil {
		t.Fatal(err)
	}
	w["x"] = "foreign"
	ds, err = p.Sync()
	w.apply(t, ds, err)
	w.want(t, "foreign object removed", `{"metadata":{"name":"a"},"v":1}`)
}
'''),
  needs="a drift that a resync repairs by deletions alone", breaks="Foreign objects stay in the target after a resync."),
 dict(id="p03-select-all", prop="P03", pkg="pkg/pipeline",
  edits=[("pkg/dbsp/graph_converter.go", """		return NewJoin(o.eval, o.inputs), nil
	case *IncrementalBinaryJoinOp:""", """		if o.n <= 2 {
			return NewJoin(o.eval, o.inputs), nil
		}
		return o, nil
	case *IncrementalBinaryJoinOp:""")],
  test=pt('''
func TestZZDemo(t *testing.T) {
	p := zpipe(t, `[{"@join":{"@and":[{"@eq":["$.A.v","$.B.v"]},{"@eq":["$.A.v","$.C.v"]}]}},{"@project":{"metadata":{"name":{"@concat":["$.A.metadata.name","$.B.metadata.name","$.C.metadata.name"]}}}}]`, "A", "B", "C")
	w := zworld{}
	ev := func(ty object.DeltaType, kind, js string) {
		ds, err := p.Evaluate(object.Delta{Type: ty, Object: zobj(t, kind, js)})
		w.apply(t, ds, err)
	}
	sync := func() {
		ds, err := p.Sync()
		w.apply(t, ds, err)
	}
	ev(object.Added, "A", `{"metadata":{"name":"a"},"v":1}`)
	ev(object.Added, "B", `{"metadata":{"name":"b"},"v":1}`)
	sync()
	ev(object.Deleted, "A", `{"metadata":{"name":"a"},"v":1}`)
	ev(object.Added, "C", `{"metadata":{"name":"c"},"v":1}`)
	w.want(t, "no A left")
	sync()
	w.want(t, "no A left, after a resync")
}
'''),
  needs="a three-way join, a resync between events", breaks="The snapshot form shares the incremental state of the join, which a resync then corrupts."),
 dict(id="p04-reset-d", prop="P04", pkg="pkg/dbsp",
  edits=[("pkg/dbsp/executor.go", """	case *DifferentiatorOp:
		o.Reset()
	case *DelayOp:
		o.Reset()
""", """	case *DelayOp:
		o.Reset()
"""), ("pkg/dbsp/executor.go", """	// Reset all operations in the chain
	for _, nodeID""", """	// Reset all operations in the chain (differentiators follow their integrators)
	for _, nodeID""")],
  test='''package dbsp_test

import (
	"testing"

	"github.com/go-logr/logr"

	"github.com/l7mp/dcontroller/pkg/dbsp"
)

func TestZZDemo(t *testing.T) {
	g := dbsp.NewChainGraph()
	g.AddInput(dbsp.NewInput("A"))
	g.AddToChain(dbsp.NewDistinct())
	if err := dbsp.NewLinearChainRewriteEngine().Optimize(g); err != nil {
		t.Fatal(err)
	}
	e, err := dbsp.NewExecutor(g, logr.Discard())
	if err != nil {
		t.Fatal(err)
	}
	for round := 0; round < 2; round++ {
		z := dbsp.NewDocumentZSet()
		if err := z.AddDocumentMutate(dbsp.Document{"a": int64(1)}, 2); err != nil {
			t.Fatal(err)
		}
		res, err := e.Process(map[string]*dbsp.DocumentZSet{"A": z})
		if err != nil {
			t.Fatal(err)
		}
		if n, _ := res.GetMultiplicity(dbsp.Document{"a": int64(1)}); n != 1 {
			t.Fatalf("round %d: multiplicity %d, want 1", round, n)
		}
		e.Reset()
	}
}
''',
  needs="a reset of an executor with a lifted non-linear operator, then the same input", breaks="After a reset the changes are computed against the result before the reset."),
 dict(id="p04-fuse-select", prop="P04", pkg="pkg/dbsp",
  edits=[("pkg/dbsp/fused_op.go", """			for _, finalDoc := range selectedDocs {
				if err := result.AddDocumentMutate(finalDoc, multiplicity); err != nil {
					return nil, err
				}
			}
""", """			for _, finalDoc := range selectedDocs {
				if seen, _ := result.Contains(finalDoc); seen && multiplicity > 0 {
					continue // already selected
				}
				if err := result.AddDocumentMutate(finalDoc, multiplicity); err != nil {
					return nil, err
				}
			}
""")],
  test='''package dbsp_test

import (
	"fmt"
	"testing"

	"github.com/l7mp/dcontroller/pkg/dbsp"
)

type zev func(dbsp.Document) ([]dbsp.Document, error)

func (f zev) Evaluate(d dbsp.Document) ([]dbsp.Document, error) { return f(d) }
func (f zev) String() string                                     { return "z" }

func TestZZDemo(t *testing.T) {
	op := dbsp.NewProjectThenSelect(
		zev(func(d dbsp.Document) ([]dbsp.Document, error) { return []dbsp.Document{{"v": d["v"]}}, nil }),
		zev(func(d dbsp.Document) ([]dbsp.Document, error) { return []dbsp.Document{d}, nil }))
	z := dbsp.NewDocumentZSet()
	for i := 0; i < 3; i++ {
		if err := z.AddDocumentMutate(dbsp.Document{"n": fmt.Sprint(i), "v": "x"}, 1); err != nil {
			t.Fatal(err)
		}
	}
	res, err := op.Process(z)
	if err != nil {
		t.Fatal(err)
	}
	if n, _ := res.GetMultiplicity(dbsp.Document{"v": "x"}); n != 3 {
		t.Fatalf("multiplicity %d, want 3", n)
	}
}
''',
  needs="a projection fused with a selection that maps several documents of one batch to the same result", breaks="The fused operator drops multiplicities, so later deletions cancel too much."),
 dict(id="p05-null", prop="P05", pkg="pkg/dbsp",
  edits=[("pkg/dbsp/document.go", """		for k, subVal := range v {
			canonical, err := toCanonicalForm(subVal)
			if err != nil {
				return nil, newZSetError(fmt.Sprintf("failed to canonicalize map""", """		for k, subVal := range v {
			if subVal == nil {
				continue // an empty field
			}
			canonical, err := toCanonicalForm(subVal)
			if err != nil {
				return nil, newZSetError(fmt.Sprintf("failed to canonicalize map""")],
  test='''package dbsp_test

import (
	"testing"

	"github.com/l7mp/dcontroller/pkg/dbsp"
)

func TestZZDemo(t *testing.T) {
	eq, err := dbsp.DeepEqual(dbsp.Document{"a": nil, "b": int64(1)}, dbsp.Document{"b": int64(1)})
	if err != nil || eq {
		t.Fatalf("an explicit null equals a missing field: %v %v", eq, err)
	}
}
''',
  needs="documents that differ in an explicit null only", breaks="Such documents are merged into one."),
 dict(id="p05-alias", prop="P05", pkg="pkg/dbsp",
  edits=[("pkg/dbsp/zset.go", """func (dz *DocumentZSet) Subtract(other *DocumentZSet) (*DocumentZSet, error) {
	if other == nil {
		return dz.DeepCopy(), nil
	}
""", """func (dz *DocumentZSet) Subtract(other *DocumentZSet) (*DocumentZSet, error) {
	if other == nil {
		return dz.DeepCopy(), nil
	}
	if other.IsZero() {
		return dz, nil // nothing to subtract
	}
""")],
  test='''package dbsp_test

import (
	"testing"

	"github.com/l7mp/dcontroller/pkg/dbsp"
)

func TestZZDemo(t *testing.T) {
	a, err := dbsp.SingletonZSet(dbsp.Document{"a": "x"})
	if err != nil {
		t.Fatal(err)
	}
	b, err := a.Subtract(dbsp.NewDocumentZSet())
	if err != nil {
		t.Fatal(err)
	}
	if err := b.AddDocumentMutate(dbsp.Document{"a": "y"}, 1); err != nil {
		t.Fatal(err)
	}
	if a.Size() != 1 {
		t.Fatal("changing a difference changed its operand")
	}
}
''',
  needs="a difference with an empty set whose result is then changed in place", breaks="The result is the operand itself."),
 dict(id="p06-store", prop="P06", pkg="pkg/pipeline",
  edits=[("pkg/cache/store.go", """func (s *Store) Update(obj object.Object) error { return s.Store.Update(object.DeepCopy(obj)) }""",
          """func (s *Store) Update(obj object.Object) error { return s.Store.Update(obj) }"""),
         ("pkg/pipeline/zset_adaptor.go", """	for key, ops := range grouped {
		hasAdds""", """	put := p.targetCache.Add
	if len(grouped) > 1 {
		put = p.targetCache.Update
	}
	for key, ops := range grouped {
		hasAdds"""),
         ("pkg/pipeline/zset_adaptor.go", """			// Pure add: always upsert
			d := ops.adds[len(ops.adds)-1]
			if err := p.targetCache.Add(d.Object); err != nil {""", """			// Pure add: always upsert
			d := ops.adds[len(ops.adds)-1]
			if err := put(d.Object); err != nil {""")],
  test=pt('''
func TestZZDemo(t *testing.T) {
	p := zpipe(t, `[{"@unwind":"$.l"},{"@project":{"apiVersion":"zop.view.dcontroller.io/v1alpha1","kind":"T","metadata":"$.metadata","l":"$.l"}}]`, "A")
	w := zworld{}
	ds, err := p.Evaluate(object.Delta{Type: object.Added, Object: zobj(t, "A", `{"metadata":{"name":"a"},"l":[1,2]}`)})
	w.apply(t, ds, err)
	for _, d := range ds {
		d.Object.UnstructuredContent()["l"] = "scribble"
	}
	ds, err = p.Sync()
	if err != nil || len(ds) != 0 {
		t.Fatalf("overwriting an emitted object changed the pipeline: %v %v", ds, err)
	}
}
'''),
  needs="one event that yields several results, a consumer that overwrites them, a resync", breaks="The pipeline's target cache shares objects with the emitted changes."),
 dict(id="p06-select", prop="P06", pkg="pkg/pipeline",
  edits=[("pkg/pipeline/zset_adaptor.go", """	deltaObj := object.DeepCopy(delta.Object)
	gvk :=""", """	deltaObj := delta.Object
	if delta.Type != object.Replaced {
		deltaObj = object.DeepCopy(delta.Object)
	}
	gvk :="""),],
  test=pt('''
func TestZZDemo(t *testing.T) {
	p := zpipe(t, `[{"@project":{"metadata":{"name":"$.metadata.name"},"m":"$.m"}}]`, "A")
	o := zobj(t, "A", `{"metadata":{"name":"a","uid":"u1"},"m":{"x":1}}`)
	if _, err := p.Evaluate(object.Delta{Type: object.Replaced, Object: o}); err != nil {
		t.Fatal(err)
	}
	if o.GetUID() != "u1" {
		t.Fatal("evaluating an event changed its object")
	}
}
'''),
  needs="a replacement event for an object that carries a UID", breaks="Evaluation removes the UID from the caller's object."),
]
