EH = '''package expression_test

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/go-logr/logr"

	"github.com/l7mp/dcontroller/pkg/expression"
)

func zeval(t *testing.T, js string, obj map[string]any) (any, error) {
	var e expression.Expression
	if err := json.Unmarshal([]byte(js), &e); err != nil {
		t.Fatal(err)
	}
	return e.Evaluate(expression.EvalCtx{Object: obj, Log: logr.Discard()})
}

func zwant(t *testing.T, js string, obj map[string]any, want string) {
	t.Helper()
	v, err := zeval(t, js, obj)
	b, _ := json.Marshal(v)
	if err != nil || string(b) != want {
		t.Fatalf("%s: %s %v, want %s", js, b, err, want)
	}
}

var _ = fmt.Sprint
'''
SEEDS = [
 dict(id="p07-mixed", prop="P07", pkg="pkg/expression",
  edits=[("pkg/expression/converter.go", """	if reflect.ValueOf(d).Kind() == reflect.String {
		i, err := strconv.ParseInt(d.(string), 10, 64)
""", """	if reflect.ValueOf(d).Kind() == reflect.String {
		i, err := strconv.ParseInt(d.(string), 0, 64)
""")],
  test=EH + '''
func TestZZDemo(t *testing.T) {
	zwant(t, `{"@int":"010"}`, nil, `10`)
	zwant(t, `{"@add":["010",1]}`, nil, `11`)
}
''',
  needs="a numeric string with a leading zero", breaks="It is read as an octal number."),
 dict(id="p07-filter-subject", prop="P07", pkg="pkg/expression",
  edits=[("pkg/expression/expression.go", """			vs := []any{}
			for _, input := range list {
				res, err := cond.Evaluate(ctx.withSubject(input))
""", """			vs := list[:0]
			for _, input := range list {
				res, err := cond.Evaluate(ctx.withSubject(input))
""")],
  test=EH + '''
func TestZZDemo(t *testing.T) {
	obj := map[string]any{"l": []any{int64(1), int64(2), int64(3)}}
	zwant(t, `{"@filter":[{"@gt":["$$.",1]},"$.l"]}`, obj, `[2,3]`)
	zwant(t, `{"@filter":[{"@gt":["$$.",1]},"$.l"]}`, obj, `[2,3]`)
	if fmt.Sprint(obj["l"]) != "[1 2 3]" {
		t.Fatal("filtering changed the subject")
	}
}
''',
  needs="a filter that drops an item before one it keeps, then another look at the list", breaks="Filtering overwrites the list of the subject."),
 dict(id="p08-dict", prop="P08", pkg="pkg/expression",
  edits=[("pkg/expression/marshaler.go", """		if len(cv) == 1 {
			op := \"\"""", """		if len(cv) > 0 {
			op := \"\""""), ("pkg/expression/marshaler.go", """			for k := range cv {
				op = k
				break
			}
			if len(op)""", """			for k := range cv {
				if len(cv) == 1 || k == "@dict" {
					op = k
				}
			}
			if len(op)""")],
  test=EH + '''
func TestZZDemo(t *testing.T) {
	var e expression.Expression
	if err := json.Unmarshal([]byte(`{"@dict":1,"b":2}`), &e); err != nil {
		t.Fatal(err)
	}
	if b, _ := json.Marshal(&e); string(b) != `{"@dict":1,"b":2}` {
		t.Fatalf("lost data in a round-trip: %s", b)
	}
}
''',
  needs="a literal map with a key called @dict next to another key", breaks="The other keys are lost when the expression is parsed."),
 dict(id="p08-single", prop="P08", pkg="pkg/api/operator/v1alpha1",
  edits=[("pkg/api/operator/v1alpha1/pipeline_types.go", """	case *UnwindOp:
		return &UnwindOp{Expression: v.Expression}
""", """	case *UnwindOp:
		return &GatherOp{Expression: v.Expression}
""")],
  test='''package v1alpha1_test

import (
	"encoding/json"
	"testing"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
)

func TestZZDemo(t *testing.T) {
	var p opv1a1.Pipeline
	if err := json.Unmarshal([]byte(`[{"@unwind":"$.l"}]`), &p); err != nil {
		t.Fatal(err)
	}
	if b, _ := json.Marshal(p.DeepCopy()); string(b) != `{"@unwind":"$.l"}` {
		t.Fatalf("a copy differs: %s", b)
	}
}
''',
  needs="a deep copy of a pipeline with an unwind", breaks="The copy has a gather instead of the unwind."),
 dict(id="p08-bool", prop="P08", pkg="pkg/expression",
  edits=[("pkg/expression/marshaler.go", """		v, err := AsString(e.Literal)
		if err != nil {
			return []byte(""), err
		}
		return json.Marshal(v)
""", """		v, err := AsString(e.Literal)
		if err != nil {
			return []byte(""), err
		}
		if i, err := AsInt(v); err == nil && len(v) > 15 {
			return json.Marshal(i) // keep the precision of large integers
		}
		return json.Marshal(v)
""")],
  test=EH + '''
func TestZZDemo(t *testing.T) {
	var e expression.Expression
	if err := json.Unmarshal([]byte(`"1234567890123456"`), &e); err != nil {
		t.Fatal(err)
	}
	if b, _ := json.Marshal(&e); string(b) != `"1234567890123456"` {
		t.Fatalf("lost the type in a round-trip: %s", b)
	}
}
''',
  needs="a string literal that is a number of 16 digits or more", breaks="It is serialized as a number."),
 dict(id="p09-bracket", prop="P09", pkg="pkg/expression",
  edits=[("pkg/expression/jsonpath.go", """	if d, ok := data.(map[string]any); ok && key[0] != '$' {""", """	if d, ok := data.(map[string]any); ok && (key[0] != '$' || (len(key) > 1 && key[1] != '.')) {""")],
  test=EH + '''
func TestZZDemo(t *testing.T) {
	zwant(t, `{"$['a'].b":1}`, nil, `{"a":{"b":1}}`)
}
''',
  needs="a setter path in bracket notation", breaks="The path is taken for a plain key."),
 dict(id="p09-value", prop="P09", pkg="pkg/expression",
  edits=[("pkg/expression/jsonpath.go", """	if str, ok := value.(string); ok {
		res, err""", """	if str, ok := value.(string); ok && len(str) > 1 && str[1] != '[' {
		res, err""")],
  test=EH + '''
func TestZZDemo(t *testing.T) {
	d := map[string]any{}
	ctx := expression.EvalCtx{Object: map[string]any{"a": "v"}, Log: logr.Discard()}
	if err := expression.SetJSONPath(ctx, "$.x", "$[\'a\']", d); err != nil || d["x"] != "v" {
		t.Fatalf("the value is not resolved: %v %v", d, err)
	}
}
''',
  needs="a value that is a path in bracket notation", breaks="The path itself is stored instead of the value it selects."),
]
