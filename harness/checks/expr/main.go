// Command expr decides the properties of the expression language, on the real interpreter.
package main

import (
	"crypto/md5"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/go-logr/logr"

	"github.com/l7mp/dcontroller/pkg/expression"

	"verif/core"
	"verif/ref"
	"verif/vrt"
)

func main() { core.Main(checkEval, checkRound, checkPath) }

var checkEval = &core.Check{
	Property: "P07",
	Level:    "model_checking",
	Rule: "a case is one expression, evaluated on every subject of a list under both map orders and compared with the reference " +
		"interpreter (value, or that there is an error); distinct_nontrivial counts distinct vectors of results",
	Assumptions: []string{"harness/ref states the documented semantics correctly"},
	Run:         runEval,
}

var subjects = []string{
	`{"metadata":{"name":"n","namespace":"ns","labels":{"app":"x","tier":"y"}},"spec":{"i":2,"f":1.5,"s":"3","t":"abc","b":true,"z":null,"l":[3,1,2],"ls":["a","b"],"lo":[{"name":"p","port":80,"on":true},{"name":"q","port":443,"on":false}],"e":[],"m":{"k":"v"},"mix":[1,2.5],"nn":[null,1],"ll":[[1,2],[3]],"sel":{"matchLabels":{"app":"x"}},"i2":7,"a.b":{"c/d":"dots"}}}`,
	`{"metadata":{"name":"m"},"spec":{"i":-1,"f":-2.0,"s":"x","b":false,"l":[5],"lo":[{"name":"q","port":1,"on":true}],"ls":["z"],"ll":[[],[9]],"nn":[true,null],"sel":{"matchExpressions":[{"key":"app","operator":"DoesNotExist"}]}}}`,
	`{}`,
}

var (
	literals = []string{`0`, `1`, `-2`, `3`, `2.5`, `2.0`, `""`, `"a"`, `"abc"`, `"3"`, `"-2.5"`, `true`, `false`, `null`,
		`[]`, `[1,2]`, `[2,1.5]`, `["a","b"]`, `[true,false]`, `[true,true]`, `[[1,2],3]`, `[null]`, `{}`, `{"k":"v"}`, `{"app":"x"}`}
	paths = []string{`"$.spec.i"`, `"$.spec.f"`, `"$.spec.s"`, `"$.spec.b"`, `"$.spec.z"`, `"$.spec.l"`, `"$.spec.ls"`, `"$.spec.lo"`, `"$.spec.e"`,
		`"$.spec.m"`, `"$.spec.mix"`, `"$.spec.nn"`, `"$.spec.ll"`, `"$.missing.x"`, `"$."`, `"$.metadata.name"`, `"$.spec.lo[1].port"`, `"$.spec.l[-1]"`, `"$.spec.lo[?(@.name=='q')].port"`,
		`"$.metadata.labels"`, `"$.spec.sel"`, `"$['spec']['a.b'][\"c/d\"]"`, `"$["`}
	unary = []string{"@bool", "@int", "@float", "@string", "@list", "@dict", "@noop", "@isnil", "@exists", "@has", "@not", "@abs", "@ceil", "@floor",
		"@sum", "@min", "@max", "@len"}
	nary = []string{"@and", "@or", "@cond", "@definedOr", "@switch", "@filter", "@any", "@none", "@all", "@map", "@eq", "@lt", "@lte", "@gt", "@gte",
		"@selector", "@add", "@sub", "@mul", "@div", "@in", "@concat", "@range"}
	listOps = []string{"@filter", "@any", "@none", "@all", "@map"}
)

func op(o string, args ...string) string {
	if len(args) == 1 {
		return `{"` + o + `":` + args[0] + `}`
	}
	return `{"` + o + `":[` + strings.Join(args, ",") + `]}`
}

// expressions calls f on every expression of the explored space.
func expressions(r *core.Run) map[string][]string {
	atoms := append(append([]string{}, literals...), paths...)
	ops := append(append([]string{}, unary...), nary...)
	out := map[string][]string{}
	put := func(space, e string) { out[space] = append(out[space], e) }
	for _, a := range atoms {
		put("atoms", a)
		put("atoms", "["+a+"]")
		put("atoms", `{"k":`+a+`}`)
		for _, b := range atoms {
			put("pairs", "["+a+","+b+"]")
		}
	}
	for _, o := range append(ops, "@unknown", "@", "@rnd2") {
		for _, a := range atoms {
			put("op(a)", op(o, a))
			put("op([a])", `{"`+o+`":[`+a+`]}`)
			for _, b := range atoms {
				put("op(a,b)", op(o, a, b))
			}
		}
	}
	few := []string{`0`, `2`, `1.5`, `"a"`, `true`, `false`, `null`, `"$.spec.i"`, `"$.spec.b"`, `"$.spec.l"`, `"$.missing"`}
	for _, o := range ops {
		for _, a := range few {
			for _, b := range few {
				put("op(a,b) reduced", op(o, a, b))
				for _, c := range few {
					put("op(a,b,c)", op(o, a, b, c))
				}
			}
		}
	}
	// list operators with bodies over the local subject, also nested
	var bodies []string
	locals := []string{`"$$"`, `"$$."`, `"$$.name"`, `"$$.port"`, `"$$.on"`, `"$$.missing"`, `"$$[0]"`, `"$.spec.i"`, `"$.spec.b"`, `1`, `"p"`, `true`, `false`, `null`, `"$.metadata.name"`}
	for _, a := range locals {
		bodies = append(bodies, a, `{"x":`+a+`}`, `[`+a+`]`)
		for _, o := range []string{"@not", "@isnil", "@exists", "@string", "@int", "@len", "@sum", "@bool"} {
			bodies = append(bodies, op(o, a))
		}
		for _, b := range locals {
			for _, o := range []string{"@eq", "@gt", "@lte", "@add", "@in", "@concat", "@and", "@or", "@definedOr"} {
				bodies = append(bodies, op(o, a, b))
			}
		}
	}
	lists := []string{`"$.spec.l"`, `"$.spec.ls"`, `"$.spec.lo"`, `"$.spec.nn"`, `"$.spec.ll"`, `"$.spec.e"`, `"$.spec.i"`, `[1,2]`, `[true,false,true]`, `[false,false]`, `"$.missing"`}
	for _, o := range listOps {
		for _, b := range bodies {
			for _, l := range lists {
				put("list", op(o, b, l))
			}
		}
	}
	inner := []string{op("@eq", `"$$"`, `1`), `"$$"`, op("@add", `"$$"`, `"$.spec.i"`), op("@eq", `"$$"`, `"$.metadata.name"`), op("@isnil", `"$$"`), `true`, `"$$.name"`}
	for _, o := range listOps {
		for _, o2 := range listOps {
			for _, b := range inner {
				for _, l := range append([]string{`"$$"`, `"$$.name"`}, lists...) {
					for _, l2 := range []string{`"$.spec.ll"`, `"$.spec.lo"`, `"$.spec.l"`, `[[0],[1,2]]`} {
						put("nested list", op(o, op(o2, b, l), l2))
						put("nested list", op(o, inner[1], op(o2, b, l2)))
						put("nested list", op(o, inner[0], op(o2, b, l2)))
					}
				}
			}
		}
	}
	// compositions
	in := []string{`2`, `0.5`, `"a"`, `true`, `false`, `null`, `"$.spec.i"`, `"$.spec.l"`, `"$.missing"`}
	if !r.Thorough() {
		in = []string{`2`, `"a"`, `true`, `null`, `"$.spec.i"`, `"$.spec.l"`}
	}
	for _, o := range ops {
		for _, o2 := range ops {
			for _, a := range in {
				put("op(op)", op(o, op(o2, a)))
				for _, b := range in {
					put("op(op)", op(o, op(o2, a, b)))
					put("op(op)", op(o, op(o2, a), b))
					put("op(op)", op(o, b, op(o2, a)))
					if r.Thorough() {
						for _, c := range in {
							put("op(op) deep", op(o, op(o2, a, b), c))
							put("op(op) deep", op(o, c, op(o2, a, b)))
						}
					}
				}
			}
		}
	}
	if r.Thorough() {
		tiny := []string{`1`, `true`, `null`, `"$.spec.l"`}
		for _, o := range ops {
			for _, o2 := range ops {
				for _, o3 := range ops {
					for _, a := range tiny {
						put("op(op(op))", op(o, op(o2, op(o3, a))))
						for _, b := range tiny {
							put("op(op(op))", op(o, op(o2, op(o3, a, b))))
							put("op(op(op))", op(o, op(o2, op(o3, a), b), a))
						}
					}
				}
			}
		}
	}
	// strings that look like other literals, and keys that look like operators
	strs := []string{`"010"`, `"0x1f"`, `"1e3"`, `"1_000"`, `" 7"`, `"+5"`, `"1.0"`, `"1234567890123456"`, `"99999999999999999999"`, `"true"`, `"TRUE"`, `"t"`, `"1"`, `"0"`, `"no"`, `"null"`,
		`"@x"`, `"@"`, `"[1]"`, `"{}"`, `"\"q\""`, `"\u00e9\n<&>"`, `"a b"`, `9007199254740993`, `-9223372036854775808`, `9223372036854775807`, `1e3`, `0.1`, `1e21`, `1.5e-9`, `-0.0`}
	for _, a := range strs {
		put("look-alikes", a)
		put("look-alikes", `{"k":`+a+`}`)
		put("look-alikes", `[`+a+`,`+a+`]`)
		for _, o := range ops {
			if o == "@range" && len(a) > 8 {
				continue // a range that does not fit into memory
			}
			put("look-alikes", op(o, a))
			put("look-alikes", op(o, a, `1`))
			put("look-alikes", op(o, `2`, a))
			put("look-alikes", op(o, a, `["010",5,1.0,"x"]`))
		}
	}
	atkeys := []string{"@dict", "@list", "@eq", "@foo", "@", "@string", "k", "", "$.k", "@noop", "a@b"}
	for i, a := range atkeys {
		for j, b := range atkeys {
			if i == j {
				continue
			}
			for _, v := range []string{`1`, `"$.spec.i"`, `null`, `[1,2]`} {
				put("operator keys", `{"`+a+`":`+v+`,"`+b+`":2}`)
				put("operator keys", `{"o":{"`+a+`":`+v+`,"`+b+`":"x"},"p":true}`)
				put("operator keys", `[{"`+a+`":`+v+`,"`+b+`":"x","third":[]}]`)
			}
		}
	}
	// conditionals
	conds := []string{`true`, `false`, `null`, `1`, `"$.spec.b"`, op("@eq", `"$.spec.i"`, `2`), `"$["`}
	acts := []string{`1`, `"$.spec.l"`, `null`, `{"x":"$.spec.i"}`, `"$["`}
	for _, c := range conds {
		for _, a := range acts {
			for _, c2 := range conds {
				for _, b := range acts {
					put("switch", `{"@switch":[[`+c+`,`+a+`],[`+c2+`,`+b+`]]}`)
					put("switch", `{"@switch":[[`+c+`,`+a+`],[`+c2+`,`+b+`],[true,"default"]]}`)
				}
			}
			put("switch", `{"@switch":[[`+c+`,`+a+`]]}`)
			put("switch", `{"@switch":[[`+c+`,`+a+`,1]]}`)
			put("switch", `{"@switch":[[`+c+`]]}`)
			put("switch", `{"@switch":[`+c+`,`+a+`]}`)
		}
	}
	// maps under construction
	keys := []string{"k", "x.y", "$.k", "$.k2.l.m", "$['x.y']['z']", "$.", ""}
	vals := []string{`1`, `"s"`, `"$.spec.m"`, `"$.spec.i"`, `null`, `"$.missing"`, `{"p":"$.metadata.name"}`, `["$.spec.i",2]`, op("@add", `1`, `2`), `"$["`, op("@concat", `"$"`, `".spec.i"`)}
	for _, k := range keys {
		for _, v := range vals {
			kq, _ := json.Marshal(k)
			put("dict", `{`+string(kq)+`:`+v+`}`)
			put("dict", `{"o":{`+string(kq)+`:`+v+`}}`)
			for _, w := range vals {
				put("dict", `{`+string(kq)+`:`+v+`,"other":`+w+`}`)
				put("dict", `{`+string(kq)+`:`+v+`,"$.deep.other":`+w+`,"@third":`+w+`}`)
			}
		}
	}
	// selectors
	sels := []string{`{"app":"x"}`, `{"app":"y"}`, `{}`, `{"matchLabels":{"app":"x","tier":"y"}}`, `{"matchLabels":{"app":"x","no":"y"}}`, `{"matchLabels":{}}`, `{"n":1}`, `{"n":true}`, `null`, `1`, `{"app":"x","no":"z"}`}
	for _, o := range []string{"In", "NotIn", "Exists", "DoesNotExist", "Bogus", ""} {
		for _, k := range []string{"app", "none", "n"} {
			for _, vs := range []string{`[]`, `["x"]`, `["y","x"]`, `["y"]`, `[1]`} {
				// a literal list in @selector's argument is evaluated like any other
				sels = append(sels, `{"matchExpressions":[{"key":"`+k+`","operator":"`+o+`","values":`+vs+`}]}`)
				sels = append(sels, `{"matchLabels":{"tier":"y"},"matchExpressions":[{"key":"`+k+`","operator":"`+o+`","values":`+vs+`},{"key":"app","operator":"Exists"}]}`)
			}
		}
	}
	for _, s := range sels {
		for _, l := range []string{`{"app":"x","tier":"y"}`, `{"app":"x","n":1}`, `{"n":true}`, `{}`, `null`, `"$.metadata.labels"`, `3`} {
			put("selector", op("@selector", s, l))
		}
	}
	large(put)
	return out
}

// large has long lists, maps and strings, many arguments, and deep nesting.
func large(put func(space, e string)) {
	seq := func(n int, f func(i int) string) string {
		l := make([]string, n)
		for i := range l {
			l[i] = f(i)
		}
		return strings.Join(l, ",")
	}
	for _, n := range []int{6, 9, 11, 17, 33, 70} {
		var ls []string
		for _, f := range []func(i int) string{
			func(i int) string { return fmt.Sprint((i*7 + 3) % n) },
			func(i int) string { return fmt.Sprint(n - i) },
			func(i int) string { return fmt.Sprintf("%d.5", i) },
			func(i int) string { return []string{fmt.Sprint(i), fmt.Sprint(i) + ".25"}[i/(n-1)] },
			func(i int) string { return fmt.Sprintf(`"s%d"`, n-i) },
			func(i int) string { return fmt.Sprint(i < n-1) },
			func(i int) string { return fmt.Sprint(i == n-1) },
			func(i int) string { return fmt.Sprintf(`{"name":"n%d","port":%d,"on":%t}`, i, n-i, i == n-2) },
			func(i int) string { return fmt.Sprintf(`[%d,%d]`, i, n) },
			func(i int) string { return []string{`"$.missing"`, `"$.spec.i"`}[i/(n-1)] },
			func(i int) string { return []string{`1`, `null`}[i/(n-1)] },
			func(i int) string { return []string{`1`, `"x"`}[i/(n-1)] },
		} {
			ls = append(ls, "["+seq(n, f)+"]")
		}
		for _, l := range ls {
			put("large", l)
			put("large", `{"k":`+l+`}`)
			for _, o := range append(append([]string{}, unary...), nary...) {
				if o == "@range" && n > 11 {
					continue
				}
				put("large", op(o, l))
				put("large", op(o, op("@list", l)))
				put("large", `{"`+o+`":[`+l+`]}`)
				put("large", op(o, `"s1"`, l))
				put("large", op(o, l, l))
				put("large", op(o, fmt.Sprint(n-1), l))
			}
			for _, o := range listOps {
				for _, b := range []string{op("@eq", `"$$"`, fmt.Sprint(n-1)), op("@eq", `"$$.name"`, fmt.Sprintf(`"n%d"`, n-1)), op("@isnil", `"$$"`), `"$$"`, `"$$.on"`,
					op("@sum", op("@map", op("@add", `"$$"`, `1`), `"$$"`)), op("@gt", `"$$"`, fmt.Sprint(n/2))} {
					put("large", op(o, b, l))
				}
			}
		}
		put("large", op("@range", fmt.Sprint(n)))
		put("large", op("@range", fmt.Sprint(n), fmt.Sprint(2*n)))
		put("large", op("@range", fmt.Sprint(-n), fmt.Sprint(n)))
		put("large", op("@len", `"`+strings.Repeat("é", n)+`"`))
		put("large", op("@concat", `"`+strings.Repeat("ab", n)+`"`, `"`+strings.Repeat("é", n)+`"`))
		put("large", op("@eq", `"`+strings.Repeat("a", n)+`b"`, `"`+strings.Repeat("a", n)+`c"`))
		put("large", op("@in", `"`+strings.Repeat("a", n)+`"`, `["`+strings.Repeat("a", n)+`b","`+strings.Repeat("a", n)+`"]`))
		put("large", `{"@switch":[`+seq(n, func(i int) string { return fmt.Sprintf(`[{"@eq":["$.spec.i2",%d]},"c%d"]`, i, i) })+`]}`)
		put("large", `{"@switch":[`+seq(n, func(i int) string { return fmt.Sprintf(`[%t,"c%d"]`, i == n-1, i) })+`]}`)
		dict := `{` + seq(n, func(i int) string { return fmt.Sprintf(`"k%d":{"@add":[%d,"$.spec.i"]}`, i, i) }) + `}`
		labels := `{` + seq(n, func(i int) string { return fmt.Sprintf(`"k%d":"v%d"`, i, i) }) + `}`
		put("large", dict)
		put("large", op("@dict", dict))
		put("large", op("@eq", labels, labels))
		put("large", op("@selector", labels, labels))
		put("large", op("@selector", labels, strings.Replace(labels, fmt.Sprintf(`"v%d"}`, n-1), `"other"}`, 1)))
		put("large", `{`+seq(n, func(i int) string { return fmt.Sprintf(`"$.a.k%d.x":%d`, i, i) })+`}`)
		for _, o := range []string{"@not", "@noop", "@abs", "@string", "@list"} {
			e, f := `"$.spec.i"`, `"$.spec.b"`
			for range n {
				e, f = op(o, e), op(o, f)
			}
			put("large", e)
			put("large", f)
		}
		e, f, g := `1`, `"$.spec.i"`, `"$$"`
		for i := range n {
			e, f = `[`+e+`,`+fmt.Sprint(i)+`]`, `{"k":`+f+`,"l":[`+fmt.Sprint(i)+`]}`
			g = op("@add", g, `1`)
		}
		put("large", e)
		put("large", f)
		put("large", op("@map", g, `"$.spec.l"`))
		put("large", op("@eq", e, e))
		put("large", op("@eq", f, strings.Replace(f, `"l":[0]`, `"l":[1]`, 1)))
		put("large", op("@in", f, `[`+strings.Replace(f, `"l":[0]`, `"l":[1]`, 1)+`]`))
	}
}

func parseExpr(s string) (*expression.Expression, error) {
	var e expression.Expression
	if err := json.Unmarshal([]byte(s), &e); err != nil {
		return nil, err
	}
	return &e, nil
}

func result(v any, err error) string {
	if err != nil {
		return "error"
	}
	return ref.Canon(v)
}

func evalOn(e *expression.Expression, subj string) (string, error) {
	o := ref.Parse(subj)
	v, err := e.Evaluate(expression.EvalCtx{Object: o, Log: logr.Discard()})
	if err != nil && v != nil {
		return "", fmt.Errorf("error %v together with a value %v", err, v)
	}
	res := result(v, err)
	if got := ref.Canon(o); got != ref.Canon(ref.Parse(subj)) {
		return res, fmt.Errorf("evaluation changed the subject to %s", got)
	}
	v2, err2 := e.Evaluate(expression.EvalCtx{Object: o, Log: logr.Discard()})
	if r2 := result(v2, err2); r2 != res {
		return res, fmt.Errorf("first evaluation gives %s, second %s", res, r2)
	}
	return res, nil
}

func runEval(r *core.Run) {
	spaces := expressions(r)
	for _, order := range []int{vrt.Asc, vrt.Desc} {
		vrt.SetOrder(order)
		for _, name := range core.Keys(spaces) {
			if order == vrt.Desc && name != "dict" && name != "selector" && name != "list" {
				continue // no map with two keys in these
			}
			es := spaces[name]
			r.Parallel(len(es), func(i int) {
				x := es[i]
				r.Exec(fmt.Sprintf("%s order=%d", x, order), map[string]any{"expression": x, "subjects": subjects}, func(t *core.T) error {
					e, err := parseExpr(x)
					if err != nil {
						return core.V("%s does not parse: %v", x, err)
					}
					model := ref.Parse(x)
					for si, s := range subjects {
						want := result(ref.Eval(model, ref.Ctx{Object: ref.Parse(s)}))
						got, err := evalOn(e, s)
						if err != nil {
							return core.V("%s on subject %d: %v", x, si, err)
						}
						if got != want {
							return core.V("%s on subject %d gives %s, expected %s", x, si, got, want)
						}
						t.Step(got)
						t.Out("%s|", got)
					}
					return nil
				})
			})
			r.Space(name, "map_order", order, "expressions", len(es))
		}
	}
	vrt.SetOrder(vrt.Asc)
	runSpecial(r)
}

// runSpecial covers @hash, @rnd and @now.
func runSpecial(r *core.Run) {
	atoms := append(append([]string{}, literals...), paths...)
	for _, n := range []int{9, 33} {
		var l, m []string
		for i := range n {
			l, m = append(l, fmt.Sprint(n-i)), append(m, fmt.Sprintf(`"k%d":{"x":[%d]}`, i, i))
		}
		atoms = append(atoms, "["+strings.Join(l, ",")+"]", "{"+strings.Join(m, ",")+"}", `"`+strings.Repeat("long", n)+`"`)
	}
	r.Parallel(len(atoms), func(i int) {
		x := op("@hash", atoms[i])
		r.Exec(x, x, func(t *core.T) error {
			e, err := parseExpr(x)
			if err != nil {
				return core.V("%s does not parse: %v", x, err)
			}
			for _, s := range subjects {
				v, err := ref.Eval(ref.Parse(atoms[i]), ref.Ctx{Object: ref.Parse(s)})
				want := "error"
				if err == nil {
					js, _ := json.Marshal(v)
					sum := md5.Sum(js)
					h := new(big.Int).SetBytes(sum[:]).Text(36)
					want = ref.Canon((strings.Repeat("0", 25-len(h)) + h)[:6])
				}
				got, err := evalOn(e, s)
				if err != nil || got != want {
					return core.V("%s gives %s (%v), expected %s; subject %s", x, got, err, want, s)
				}
				t.Step(got)
				t.Out("%s|", got)
			}
			return nil
		})
	})
	for a := -3; a <= 3; a++ {
		for b := -3; b <= 3; b++ {
			x := op("@rnd", fmt.Sprint(a), fmt.Sprint(b))
			r.Exec(x, x, func(t *core.T) error {
				e, err := parseExpr(x)
				if err != nil {
					return core.V("%s does not parse: %v", x, err)
				}
				for k := 0; k < 20; k++ {
					v, err := e.Evaluate(expression.EvalCtx{Object: map[string]any{}, Log: logr.Discard()})
					if a >= b {
						if err == nil {
							return core.V("%s gives %v, but the range is empty", x, v)
						}
						continue
					}
					n, ok := v.(int64)
					if err != nil || !ok || n < int64(a) || n >= int64(b) {
						return core.V("%s gives %#v (%v)", x, v, err)
					}
				}
				t.Step(x)
				return nil
			})
		}
	}
	for _, x := range []string{`"@now"`, `["@now"]`, op("@concat", `"@now"`, `""`), op("@definedOr", `"$.x"`, `"@now"`)} {
		r.Exec(x, x, func(t *core.T) error {
			e, err := parseExpr(x)
			if err != nil {
				return core.V("%s does not parse: %v", x, err)
			}
			v, err := e.Evaluate(expression.EvalCtx{Object: map[string]any{}, Log: logr.Discard()})
			if l, ok := v.([]any); ok && len(l) == 1 {
				v = l[0]
			}
			s, ok := v.(string)
			if err != nil || !ok {
				return core.V("%s gives %v (%v)", x, v, err)
			}
			if _, err := time.Parse(time.RFC3339, s); err != nil {
				return core.V("%s gives %q, which is not a time", x, s)
			}
			t.Step(x)
			return nil
		})
	}
}
