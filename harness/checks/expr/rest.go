package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/go-logr/logr"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/expression"

	"verif/core"
	"verif/ref"
	"verif/vrt"
)

var checkRound = &core.Check{
	Property: "P08",
	Level:    "model_checking",
	Rule: "a case is one expression, pipeline or controller description; it is parsed, serialized, parsed again and copied, and the " +
		"text and the results of evaluation are compared; distinct_nontrivial counts distinct serialized texts",
	Run: runRound,
}

func runRound(r *core.Run) {
	spaces := expressions(r)
	for _, name := range core.Keys(spaces) {
		es := spaces[name]
		if strings.HasPrefix(name, "op(op(op") {
			continue
		}
		if !r.Thorough() && (name == "op(op)" || name == "op(a,b,c)" || name == "op(a,b)" || name == "nested list") {
			continue
		}
		r.Parallel(len(es), func(i int) {
			x := es[i]
			r.Exec(x, x, func(t *core.T) error { return roundExpr(t, x) })
		})
		r.Space(name, "expressions", len(es))
	}
	roundPipelines(r)
}

// norm is the canonical form of a JSON text.
func norm(s string) string { return ref.Canon(ref.Parse(s)) }

func roundExpr(t *core.T, x string) error {
	e, err := parseExpr(x)
	if err != nil {
		return core.V("%s does not parse: %v", x, err)
	}
	b, err := json.Marshal(e)
	if err != nil {
		return core.V("%s parsed does not serialize: %v", x, err)
	}
	if norm(string(b)) != norm(x) {
		return core.V("%s parsed serializes to %s", x, b)
	}
	if s := e.String(); norm(s) != norm(x) {
		return core.V("%s parsed prints as %s", x, s)
	}
	e2, err := parseExpr(string(b))
	if err != nil {
		return core.V("%s serialized does not parse: %v", x, err)
	}
	// by value, in a list and in a map, as expressions are embedded in operators
	var l []expression.Expression
	if err := json.Unmarshal([]byte("["+x+","+x+"]"), &l); err != nil || len(l) != 2 {
		return core.V("[%s] does not parse: %v", x, err)
	}
	var e3, e4 expression.Expression
	e.DeepCopyInto(&e3)
	e4 = expression.Expression{Op: "@int", Literal: int64(1)}
	l[1].DeepCopyInto(&e4)
	if b3, err := json.Marshal(&e3); err != nil || norm(string(b3)) != norm(x) {
		return core.V("the copy of %s serializes to %s (%v)", x, b3, err)
	}
	for _, s := range subjects {
		want, err := evalOn(e, s)
		if err != nil {
			return core.V("%s: %v", x, err)
		}
		for k, y := range []*expression.Expression{e2, &l[0], &e3, &e4} {
			got, err := evalOn(y, s)
			if err != nil || got != want {
				return core.V("%s on %s gives %s, but %s %s gives %s (%v)", x, s, want,
					[]string{"re-read", "in a list", "copied", "copied over another"}[k], b, got, err)
			}
		}
		t.Step(want)
	}
	t.Out("%s", b)
	return nil
}

func roundPipelines(r *core.Run) {
	exprs := []string{`{"@eq":["$.metadata.name",""]}`, `[{"metadata":"$.metadata"},{"$.spec.x":{"@any":[{"@gt":["$$",1]},"$.spec.l"]}}]`, `"$.spec.l"`, `["$.metadata.namespace","$.spec.i"]`,
		`true`, `{"metadata":{"name":{"@concat":["a",1,2.0]}},"spec":null}`, `{"@list":"$.spec.l"}`, `{}`}
	names := map[string]string{"@join": "@join", "@select": "@select", "@project": "@project", "@unwind": "@unwind", "@demux": "@unwind", "@gather": "@gather", "@mux": "@gather"}
	type pc struct {
		text string
		ops  []string
		ex   []string
		bad  bool
	}
	var ps []pc
	for _, a := range core.Keys(names) {
		for _, x := range exprs {
			ps = append(ps, pc{text: op(a, x), ops: []string{a}, ex: []string{x}}, pc{text: "[" + op(a, x) + "]", ops: []string{a}, ex: []string{x}})
			for _, b := range core.Keys(names) {
				for _, y := range exprs {
					ps = append(ps, pc{text: "[" + op(a, x) + "," + op(b, y) + "]", ops: []string{a, b}, ex: []string{x, y}})
				}
				ps = append(ps, pc{text: "[" + op(a, x) + "," + op(b, exprs[0]) + "," + op(a, exprs[4]) + "]", ops: []string{a, b, a}, ex: []string{x, exprs[0], exprs[4]}})
				if a < b {
					ps = append(ps, pc{text: `{"` + a + `":` + x + `,"` + b + `":` + x + `}`, bad: true}, pc{text: `[{"` + a + `":` + x + `,"` + b + `":` + x + `}]`, bad: true})
				}
			}
		}
	}
	ps = append(ps, pc{text: `[]`})
	for _, b := range []string{`1`, `"@select"`, `{}`, `[{}]`, `{"@foo":1}`, `{"select":true}`, `[{"@select":true},{"@sort":1}]`, `[["@select",true]]`, `[null]`, `true`, `{"":1}`} {
		ps = append(ps, pc{text: b, bad: true})
	}
	r.Parallel(len(ps), func(i int) {
		p := ps[i]
		r.Exec("pipeline "+p.text, p.text, func(t *core.T) error {
			var q opv1a1.Pipeline
			err := json.Unmarshal([]byte(p.text), &q)
			if p.bad {
				if err == nil {
					return core.V("pipeline %s is accepted", p.text)
				}
				t.Step("rejected")
				return nil
			}
			if err != nil {
				return core.V("pipeline %s does not parse: %v", p.text, err)
			}
			b, err := json.Marshal(q)
			if err != nil {
				return core.V("pipeline %s does not serialize: %v", p.text, err)
			}
			var q2 opv1a1.Pipeline
			if err := json.Unmarshal(b, &q2); err != nil {
				return core.V("pipeline %s re-read: %v", b, err)
			}
			c := q.DeepCopy()
			var d opv1a1.Pipeline
			q.DeepCopyInto(&d)
			// embedded in a controller and in an operator
			ct := `{"name":"c","sources":[{"apiGroup":"g","kind":"A"}],"pipeline":` + p.text + `,"target":{"kind":"T","type":"Patcher"}}`
			var oper, oper2 opv1a1.Operator
			if err := json.Unmarshal([]byte(`{"metadata":{"name":"o"},"spec":{"controllers":[`+ct+`,`+ct+`]}}`), &oper); err != nil {
				return core.V("operator with pipeline %s does not parse: %v", p.text, err)
			}
			ob, err := json.Marshal(&oper)
			if err != nil {
				return core.V("operator with pipeline %s does not serialize: %v", p.text, err)
			}
			if err := json.Unmarshal(ob, &oper2); err != nil {
				return core.V("operator %s re-read: %v", ob, err)
			}
			oc := oper.DeepCopy()
			all := []*opv1a1.Pipeline{&q, &q2, c, &d, &oper.Spec.Controllers[0].Pipeline, &oper.Spec.Controllers[1].Pipeline, &oper2.Spec.Controllers[1].Pipeline, &oc.Spec.Controllers[0].Pipeline}
			for k, y := range all {
				what := []string{"parsed", "re-read", "copied", "copied into", "in an operator", "in an operator", "in a re-read operator", "in a copied operator"}[k]
				if len(y.Ops) != len(p.ops) {
					return core.V("pipeline %s %s has %d operations", p.text, what, len(y.Ops))
				}
				for j, o := range y.Ops {
					if o.OpType() != names[p.ops[j]] {
						return core.V("pipeline %s %s: operation %d is %s", p.text, what, j, o.OpType())
					}
					ej, err := json.Marshal(o.GetExpression())
					if err != nil || norm(string(ej)) != norm(p.ex[j]) {
						return core.V("pipeline %s %s: operation %d has expression %s (%v)", p.text, what, j, ej, err)
					}
					want := result(ref.Eval(ref.Parse(p.ex[j]), ref.Ctx{Object: ref.Parse(subjects[0])}))
					if got, err := evalOn(o.GetExpression(), subjects[0]); err != nil || got != want {
						return core.V("pipeline %s %s: operation %d evaluates to %s (%v), expected %s", p.text, what, j, got, err, want)
					}
				}
				t.Step(fmt.Sprint(p.text, k))
			}
			if len(oc.Spec.Controllers) != 2 || oc.Name != "o" || oc.Spec.Controllers[1].Target.Kind != "T" || oc.Spec.Controllers[1].Target.Type != "Patcher" || oper2.Spec.Controllers[0].Sources[0].Kind != "A" {
				return core.V("operator with pipeline %s is not preserved: %s", p.text, ob)
			}
			t.Out("%s", b)
			return nil
		})
	})
	r.Space("pipelines", "pipelines", len(ps))
}

var checkPath = &core.Check{
	Property: "P09",
	Level:    "model_checking",
	Rule:     "a case is one object and one path (and one value, and one second path); results and the object afterwards are compared with the path model",
	Run:      runPath,
}

const localObj = `{"metadata":{"name":"local"},"new":1}`

func runPath(r *core.Run) {
	objs := []string{
		`{"metadata":{"name":"n","labels":{"app":"x"},"annotations":{"a.b/c":"v","d":null}},"spec":{"l":[{"name":"x","p":1},{"name":"y","p":2},{"name":"x","p":{"q":[5,6]}}],"n":[[1,2],[3]],"i":1,"z":null,"ln":[null,7],"e":{},"el":[]}}`,
		`{"metadata":{"name":"m"}}`, `{}`}
	parts := []string{".metadata", ".name", ".labels", ".annotations", ".spec", ".l", ".p", ".q", ".n", ".i", ".z", ".ln", ".e", ".el", ".new", "[0]", "[1]", "[-1]", "[7]", "[*]", "[?(@.name=='x')]", "[?(@.name=='no')]", "['a.b/c']", "['labels']", "[\"spec\"]"}
	var paths []string
	var gen func(pre string, n int)
	gen = func(pre string, n int) {
		paths = append(paths, "$"+pre)
		if n == 0 {
			return
		}
		for _, p := range parts {
			gen(pre+p, n-1)
		}
	}
	gen("", r.Pick(3, 4))
	paths = append(paths, "$.spec.l[2].p.q[1]", "$.spec.l[*].p.q[0]", "$.spec.l[?(@.name=='x')].p.q[-1]", "$.spec.n[0][1]", "$.spec.n[*][0]", "$.a.b.c.d.e.f")
	// a large object, with paths of its own
	small := len(paths)
	var items, fields []string
	for i := range 24 {
		items = append(items, fmt.Sprintf(`{"name":"n%d","p":%d,"t":{"x":[%d,%d]}}`, i, i, i, i+1))
		fields = append(fields, fmt.Sprintf(`"f%d":{"v":%d}`, i, i))
	}
	deep, dpath := `{"v":1,"l":[0,1,2,3,4,5,6,7,8,9,10,11]}`, ""
	for i := range 14 {
		deep, dpath = fmt.Sprintf(`{"d%d":%s}`, i, deep), fmt.Sprintf(".d%d", i)+dpath
	}
	objs = append(objs, `{"metadata":{"name":"big"},"l":[`+strings.Join(items, ",")+`],"m":{`+strings.Join(fields, ",")+`},"deep":`+deep+`}`)
	for _, i := range []int{1, 2, 9, 10, 11, 12, 19, 20, 23, 24, -1, -2, -10, -24, -25} {
		for _, rest := range []string{"", ".name", ".t.x[1]", ".t.x[-2]", ".new.y"} {
			paths = append(paths, fmt.Sprintf("$.l[%d]%s", i, rest), fmt.Sprintf("$.l[?(@.name=='n%d')]%s", i, rest))
		}
		if i > 0 {
			paths = append(paths, fmt.Sprintf("$.m.f%d.v", i), fmt.Sprintf("$.m['f%d']", i), fmt.Sprintf("$.m.f%d.w.x", i))
		}
		paths = append(paths, fmt.Sprintf("$.deep%s.l[%d]", dpath, i))
	}
	for _, q := range []string{"$.l[*].p", "$.l[*].name", "$.l[*].t.x[0]", "$.deep" + dpath, "$.deep" + dpath + ".v", "$.deep" + dpath + ".w", "$.deep" + dpath + ".w.x.y.z.a.b.c"} {
		paths = append(paths, q)
	}
	fits := func(i, oi int) bool { return (i < small || i >= len(paths)) == (oi < 3) || i >= len(paths) }
	r.Parallel(len(paths), func(i int) {
		p := paths[i]
		for oi, o := range objs {
			if !fits(i, oi) {
				continue
			}
			if !ref.Ordered(ref.Parse(o), p) || !ref.Ordered(ref.Parse(localObj), p) {
				continue
			}
			r.Exec(fmt.Sprintf("get %s from %d", p, oi), map[string]string{"path": p, "object": o}, func(t *core.T) error {
				v := ref.Parse(o)
				local := ref.Parse(localObj)
				want := result(ref.Get(ref.Parse(o), p))
				wantL := result(ref.Get(local, p))
				ctx := expression.EvalCtx{Object: v, Log: logr.Discard()}
				if got := result(expression.GetJSONPath(ctx, p)); got != want {
					return core.V("%s of %s is %s, expected %s", p, o, got, want)
				}
				if got := result(expression.GetJSONPathRaw(p, v)); got != want {
					return core.V("%s of %s is %s (raw), expected %s", p, o, got, want)
				}
				ctx.Subject = local
				if got := result(expression.GetJSONPath(ctx, p)); got != want {
					return core.V("%s of %s is %s with a local subject, expected %s", p, o, got, want)
				}
				if got := result(expression.GetJSONPath(ctx, "$"+p)); got != wantL {
					return core.V("$%s is %s, expected %s", p, got, wantL)
				}
				e := expression.NewJSONPathGetExpression(p)
				if got := result(e.Evaluate(ctx)); got != want {
					return core.V("%s of %s is %s (as an expression), expected %s", p, o, got, want)
				}
				if ref.Canon(v) != norm(o) {
					return core.V("reading %s changed the object", p)
				}
				t.Step(want)
				t.Out("%s|", want)
				return nil
			})
		}
	})
	r.Space("get", "paths", len(paths), "objects", len(objs))
	// literal strings are not paths
	for _, s := range []string{"", "a", "a.b", ".x", "@now", "metadata.name", "@eq", " $.x"} {
		r.Exec("literal "+s, s, func(t *core.T) error {
			if v, err := expression.GetJSONPath(expression.EvalCtx{Object: ref.Parse(objs[0])}, s); err != nil || v != any(s) {
				return core.V("%q is read as %v (%v)", s, v, err)
			}
			t.Step(s)
			return nil
		})
	}
	// setters
	vals := []string{`1`, `"s"`, `null`, `{"k":[1]}`, `[{"m":1}]`, `"$.metadata.name"`, `"$.spec.l"`, `"$["`}
	var keys []string
	for _, p := range paths {
		// only addresses whose meaning is documented: keys, existing list items, items selected from lists
		keys = append(keys, p)
	}
	keys = append(keys, "k", "a.b", "metadata", "spec.l", "$.", "")
	r.Parallel(len(keys), func(i int) {
		p := keys[i]
		for oi, o := range objs {
			if !fits(i, oi) || !settable(o, p) {
				continue
			}
			for _, vs := range vals {
				r.Exec(fmt.Sprintf("set %s := %s in %d", p, vs, oi), map[string]string{"path": p, "object": o, "value": vs}, func(t *core.T) error {
					m := ref.Parse(o).(map[string]any)
					srcObj := ref.Parse(objs[0])
					c := ref.Ctx{Object: ref.Parse(objs[0])}
					err := ref.SetKey(m, p, ref.Parse(vs), c)
					want := "error"
					if err == nil {
						want = ref.Canon(m)
					}
					d := ref.Parse(o)
					val := ref.Parse(vs)
					err = expression.SetJSONPath(expression.EvalCtx{Object: srcObj, Log: logr.Discard()}, p, val, d)
					got := "error"
					if err == nil {
						got = ref.Canon(d)
					}
					if got != want {
						return core.V("setting %s to %s in %s gives %s (%v), expected %s", p, vs, o, got, err, want)
					}
					if ref.Canon(srcObj) != norm(objs[0]) {
						return core.V("setting %s to %s changed the subject to %s", p, vs, ref.Canon(srcObj))
					}
					if err == nil && p != "" && p[0] == '$' && p != "$." {
						// what was set can be read back
						wv, _ := ref.Eval(ref.Parse(vs), c)
						st, _ := ref.Get(m, p)
						if rv, err := expression.GetJSONPathRaw(p, d); err != nil || ref.Canon(rv) != ref.Canon(st) {
							return core.V("after setting %s to %s it reads as %s (%v), expected %s (%s)", p, vs, ref.Canon(rv), err, ref.Canon(st), ref.Canon(wv))
						}
						// the raw setter and the expression built for it do the same with the resolved value
						d2 := ref.Parse(o)
						if err := expression.SetJSONPathRaw(p, wv, d2); err != nil || ref.Canon(d2) != want {
							return core.V("raw setting %s to %s gives %s (%v), expected %s", p, vs, ref.Canon(d2), err, want)
						}
						d3 := ref.Parse(o)
						ke := expression.NewJSONPathGetExpression(p)
						if err := expression.SetJSONPathRawExp(&ke, wv, d3); err != nil || ref.Canon(d3) != want {
							return core.V("setting %s by expression to %s gives %s (%v), expected %s", p, vs, ref.Canon(d3), err, want)
						}
					}
					t.Step(got)
					t.Out("%s|", got)
					return nil
				})
			}
		}
	})
	r.Space("set", "keys", len(keys), "values", len(vals), "objects", len(objs))
	// set expressions, evaluated onto an empty result
	vrt.SetOrder(vrt.Asc)
	for _, k := range []string{"k", "$.a", "$.a.b.c", "$.metadata.annotations['x/y']"} {
		for _, v := range []any{"s", "$.metadata.name", true, int64(3), 2.5} {
			r.Exec(fmt.Sprintf("set expression %s := %v", k, v), nil, func(t *core.T) error {
				e, err := expression.NewJSONPathSetExpression(k, v)
				if err != nil {
					return core.V("no set expression for %s := %v: %v", k, v, err)
				}
				want := result(ref.Eval(map[string]any{k: v}, ref.Ctx{Object: ref.Parse(objs[0])}))
				got := result(e.Evaluate(expression.EvalCtx{Object: ref.Parse(objs[0]), Log: logr.Discard()}))
				if got != want {
					return core.V("set expression %s := %v gives %s, expected %s", k, v, got, want)
				}
				t.Step(got)
				return nil
			})
		}
	}
}

// settable says whether the path addresses existing places, or keys to be created under an existing map.
func settable(o, p string) bool {
	if p == "" || p[0] != '$' || p == "$." {
		return true
	}
	return ref.Settable(ref.Parse(o), p)
}
