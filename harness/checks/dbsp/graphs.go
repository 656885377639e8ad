package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-logr/logr"

	"github.com/l7mp/dcontroller/pkg/dbsp"

	"verif/core"
	"verif/ref"
	"verif/vrt"
)

type doc = map[string]any

// zs is the reference Z-set: canonical document -> multiplicity.
type zs map[string]int

var parsed = map[string]doc{}

func (z zs) add(d doc, n int) {
	k := ref.Canon(d)
	z[k] += n
	if z[k] == 0 {
		delete(z, k)
	}
}

func (z zs) plus(o zs, sign int) zs {
	r := zs{}
	for k, n := range z {
		r[k] = n
	}
	for k, n := range o {
		r[k] += sign * n
		if r[k] == 0 {
			delete(r, k)
		}
	}
	return r
}

func (z zs) each(f func(d doc, n int)) {
	for k, n := range z {
		f(ref.Parse(k).(doc), n)
	}
}

func (z zs) String() string {
	ks := []string{}
	for k := range z {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s×%d ", k, z[k])
	}
	return "{" + b.String() + "}"
}

func (z zs) nonneg() bool {
	for _, n := range z {
		if n < 0 {
			return false
		}
	}
	return true
}

// real makes the implementation's Z-set of a reference one.
func (z zs) real() *dbsp.DocumentZSet {
	r := dbsp.NewDocumentZSet()
	ks := []string{}
	for k := range z {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if err := r.AddDocumentMutate(ref.Parse(k).(doc), z[k]); err != nil {
			panic(err)
		}
	}
	return r
}

// model makes the reference Z-set of the implementation's.
func model(r *dbsp.DocumentZSet) (zs, error) {
	es, err := r.List()
	if err != nil {
		return nil, err
	}
	z := zs{}
	for _, e := range es {
		if e.Multiplicity == 0 {
			return nil, fmt.Errorf("document %s is listed with multiplicity 0", ref.Canon(e.Document))
		}
		k := ref.Canon(e.Document)
		if _, ok := z[k]; ok {
			return nil, fmt.Errorf("document %s is listed twice", k)
		}
		z[k] = e.Multiplicity
	}
	return z, nil
}

// fn adapts functions to the engine's interfaces.
type fn struct {
	name string
	eval func(doc) ([]doc, error)
	ext  func(doc) (any, error)
	tr   func(doc, any) (doc, error)
}

func (f *fn) Evaluate(d dbsp.Document) ([]dbsp.Document, error)       { return f.eval(d) }
func (f *fn) Extract(d dbsp.Document) (any, error)                    { return f.ext(d) }
func (f *fn) Transform(d dbsp.Document, v any) (dbsp.Document, error) { return f.tr(d, v) }
func (f *fn) String() string                                          { return f.name }

// op is one operator of the alphabet, with its reference as a stream operator.
type op struct {
	name string
	mk   func() dbsp.Operator
	// lin: per-document function (linear operators)
	lin func(d doc) []doc
	// non: function of the whole state (non-linear operators)
	non func(z zs) zs
	// stream: "I", "D" or "z" for the stateful stream operators
	stream string
}

func cp(d doc) doc { return ref.CopyMap(d) }

func sel(name string, p func(d doc) bool) op {
	return op{name: name,
		mk: func() dbsp.Operator {
			return dbsp.NewSelection(&fn{name: name, eval: func(d doc) ([]doc, error) {
				if p(d) {
					return []doc{d}, nil
				}
				return []doc{}, nil
			}})
		},
		lin: func(d doc) []doc {
			if p(d) {
				return []doc{cp(d)}
			}
			return nil
		}}
}

// proj is a projection; the evaluator given to the engine builds a new document, as those of
// pipelines do.
func proj(name string, f func(d doc) doc) op {
	return op{name: name,
		mk: func() dbsp.Operator {
			return dbsp.NewProjection(&fn{name: name, eval: func(d doc) ([]doc, error) { return []doc{f(cp(d))}, nil }})
		},
		lin: func(d doc) []doc { return []doc{f(cp(d))} }}
}

func num(v any) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case float64:
		return int64(x)
	}
	return 0
}

func alphabet() []op {
	gatherRef := func(z zs) zs {
		vals := map[string][]string{}
		z.each(func(d doc, n int) {
			k, ok := d["g"]
			if !ok || d["v"] == nil {
				return
			}
			key := ref.Canon(k)
			if _, ok := vals[key]; !ok {
				vals[key] = nil
			}
			for i := 0; i < n; i++ {
				vals[key] = append(vals[key], ref.Canon(d["v"]))
			}
		})
		r := zs{}
		for k, vs := range vals {
			sort.Strings(vs)
			l := []any{}
			for _, v := range vs {
				l = append(l, ref.Parse(v))
			}
			r.add(doc{"g": ref.Parse(k), "l": l}, 1)
		}
		return r
	}
	return []op{
		sel("sel(v>1)", func(d doc) bool { return num(d["v"]) > 1 }),
		sel("sel(g=p)", func(d doc) bool { return d["g"] == "p" }),
		proj("proj(drop id)", func(d doc) doc { delete(d, "id"); return d }),
		proj("proj(v+1)", func(d doc) doc {
			if _, ok := d["v"]; ok {
				d["v"] = num(d["v"]) + 1
			}
			return d
		}),
		{name: "unwind(l)",
			mk: func() dbsp.Operator {
				return dbsp.NewUnwind(
					&fn{name: "l", ext: func(d doc) (any, error) { return d["l"], nil }},
					&fn{name: "v", tr: func(d doc, v any) (doc, error) { d["v"] = v; delete(d, "l"); return d, nil }})
			},
			lin: func(d doc) []doc {
				l, ok := d["l"].([]any)
				if !ok {
					return nil
				}
				var out []doc
				for _, v := range l {
					c := cp(d)
					delete(c, "l")
					c["v"] = v
					out = append(out, c)
				}
				return out
			}},
		{name: "gather(g,v)",
			mk: func() dbsp.Operator {
				return dbsp.NewGather(
					&fn{name: "g", ext: func(d doc) (any, error) { return d["g"], nil }},
					&fn{name: "v", ext: func(d doc) (any, error) { return d["v"], nil }},
					&fn{name: "l", tr: func(d doc, v any) (doc, error) {
						in := v.(*dbsp.AggregateInput)
						vs := append([]any{}, in.Values...)
						sort.Slice(vs, func(i, j int) bool { return ref.Canon(vs[i]) < ref.Canon(vs[j]) })
						return doc{"g": in.Key, "l": vs}, nil
					}})
			},
			non: gatherRef},
		{name: "distinct", mk: func() dbsp.Operator { return dbsp.NewDistinct() },
			non: func(z zs) zs {
				r := zs{}
				for k, n := range z {
					if n > 0 {
						r[k] = 1
					}
				}
				return r
			}},
		{name: "I", stream: "I", mk: func() dbsp.Operator { return dbsp.NewIntegrator() }},
		{name: "D", stream: "D", mk: func() dbsp.Operator { return dbsp.NewDifferentiator() }},
		{name: "delay", stream: "z", mk: func() dbsp.Operator { return dbsp.NewDelay() }},
	}
}

// refChain is the reference of a chain of operators over a stream of deltas.
type refChain struct {
	ops  []op
	in   []zs // per operator: integral of its input
	out  []zs // non-linear: last output
	fail bool // an operator met a state with negative multiplicities: outside the property
}

func newRefChain(ops []op) *refChain {
	c := &refChain{ops: ops}
	for range ops {
		c.in = append(c.in, zs{})
		c.out = append(c.out, zs{})
	}
	return c
}

func (c *refChain) step(d zs) zs {
	for i, o := range c.ops {
		switch {
		case o.lin != nil:
			r := zs{}
			d.each(func(x doc, n int) {
				for _, y := range o.lin(x) {
					r.add(y, n)
				}
			})
			d = r
		case o.non != nil:
			c.in[i] = c.in[i].plus(d, 1)
			if !c.in[i].nonneg() && o.name != "distinct" {
				c.fail = true
			}
			n := o.non(c.in[i])
			d = n.plus(c.out[i], -1)
			c.out[i] = n
		case o.stream == "I":
			c.in[i] = c.in[i].plus(d, 1)
			d = c.in[i]
		case o.stream == "D":
			r := d.plus(c.in[i], -1)
			c.in[i] = d
			d = r
		case o.stream == "z":
			r := c.in[i]
			c.in[i] = d
			d = r
		}
	}
	return d
}

// snapshot applies the operators to a complete state.
func snapshot(ops []op, z zs) zs {
	for _, o := range ops {
		if o.lin != nil {
			r := zs{}
			z.each(func(x doc, n int) {
				for _, y := range o.lin(x) {
					r.add(y, n)
				}
			})
			z = r
		} else {
			z = o.non(z)
		}
	}
	return z
}

// join is one way to combine the inputs.
type join struct {
	name   string
	inputs []string
	mk     func() dbsp.Operator
}

// on says which documents join, and what the result is.
func joined(d doc) (doc, bool) {
	g := any(nil)
	r := doc{"id": ""}
	v := int64(0)
	ks := []string{}
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x := d[k].(doc)
		if g == nil {
			g = x["g"]
		} else if x["g"] != g {
			return nil, false
		}
		r["id"] = fmt.Sprint(r["id"], x["id"])
		v = v*2 + num(x["v"])
		if l, ok := x["l"]; ok {
			r["l"] = ref.Copy(l)
		}
	}
	r["g"], r["v"] = g, v
	return r, true
}

func joins() []join {
	ev := &fn{name: "on g", eval: func(d doc) ([]doc, error) {
		if r, ok := joined(d); ok {
			return []doc{r}, nil
		}
		return []doc{}, nil
	}}
	ab := []string{"A", "B"}
	abc := []string{"A", "B", "C"}
	return []join{
		{name: "none", inputs: []string{"A"}},
		{name: "join1", inputs: []string{"A"}, mk: func() dbsp.Operator { return dbsp.NewJoin(ev, []string{"A"}) }},
		{name: "join2", inputs: ab, mk: func() dbsp.Operator { return dbsp.NewJoin(ev, ab) }},
		{name: "binary", inputs: ab, mk: func() dbsp.Operator { return dbsp.NewBinaryJoin(ev, ab) }},
		{name: "join3", inputs: abc, mk: func() dbsp.Operator { return dbsp.NewJoin(ev, abc) }},
	}
}

func (j join) state(in map[string]zs) zs {
	if j.mk == nil {
		return in[j.inputs[0]]
	}
	r := zs{}
	var rec func(i int, d doc, n int)
	rec = func(i int, d doc, n int) {
		if i == len(j.inputs) {
			if x, ok := joined(d); ok {
				r.add(x, n)
			}
			return
		}
		in[j.inputs[i]].each(func(x doc, m int) {
			d[j.inputs[i]] = x
			rec(i+1, d, n*m)
		})
	}
	rec(0, doc{}, 1)
	return r
}

func mkGraph(j join, ops []op) *dbsp.ChainGraph {
	g := dbsp.NewChainGraph()
	for _, in := range j.inputs {
		g.AddInput(dbsp.NewInput(in))
	}
	if j.mk != nil {
		g.SetJoin(j.mk())
	}
	for _, o := range ops {
		g.AddToChain(o.mk())
	}
	return g
}

// docs of the inputs.
var inputDocs = []string{
	`{"id":"a","g":"p","v":1,"l":[1,2]}`,
	`{"id":"b","g":"p","v":2,"l":[2,2]}`,
	`{"id":"a","g":"q","v":2}`,
}

// batches are the changes an input can undergo in one step.
func batches() []zs {
	k := func(i int) string { return ref.Canon(ref.Parse(inputDocs[i])) }
	return []zs{
		{},
		{k(0): 1},
		{k(1): 1},
		{k(2): 2},
		{k(0): -1},
		{k(0): -1, k(1): 1},
		{k(1): -1, k(2): 1},
		{k(0): 1, k(2): 1},
	}
}

type step struct {
	ds map[string]zs
	ss string
}

// streams enumerates the sequences of input deltas.
func streams(inputs []string, depth int, small bool) [][]step {
	bs := batches()
	var steps []step
	if len(inputs) == 1 {
		for i, b := range bs {
			steps = append(steps, step{map[string]zs{"A": b}, fmt.Sprint(i)})
		}
	} else {
		for i, b := range bs {
			for k, in := range inputs {
				if i == 0 && k > 0 {
					continue
				}
				if small && i > 5 {
					continue
				}
				d := map[string]zs{}
				for _, x := range inputs {
					d[x] = zs{}
				}
				d[in] = b
				steps = append(steps, step{d, fmt.Sprintf("%s%d", in, i)})
			}
			// all inputs change at once
			if i == 1 || i == 5 || i == 7 {
				d := map[string]zs{}
				for n, x := range inputs {
					d[x] = b
					if n == 1 {
						d[x] = bs[(i+1)%len(bs)]
					}
				}
				steps = append(steps, step{d, fmt.Sprintf("all%d", i)})
			}
		}
	}
	var out [][]step
	var rec func(cur []step, st map[string]zs)
	rec = func(cur []step, st map[string]zs) {
		if len(cur) == depth {
			out = append(out, append([]step{}, cur...))
			return
		}
		for _, s := range steps {
			n := map[string]zs{}
			ok := true
			for _, in := range inputs {
				n[in] = st[in].plus(s.ds[in], 1)
				ok = ok && n[in].nonneg()
			}
			if ok {
				rec(append(cur, s), n)
			}
		}
	}
	rec(nil, map[string]zs{})
	return out
}

func chains(alpha []op, max int) [][]op {
	var out [][]op
	var rec func(cur []op)
	rec = func(cur []op) {
		out = append(out, append([]op{}, cur...))
		if len(cur) == max {
			return
		}
		for _, o := range alpha {
			rec(append(cur, o))
		}
	}
	rec(nil)
	return out
}

func chainName(j join, ops []op) string {
	ss := []string{j.name}
	for _, o := range ops {
		ss = append(ss, o.name)
	}
	return strings.Join(ss, "→")
}

var ruleOrders = [][]int{nil, {5, 4, 3, 2, 1, 0}, {3, 5, 1, 0, 4, 2}, {4, 5, 0, 1, 3, 2}, {1, 4, 3, 0, 5, 2}}

// optimize rewrites a graph: order nil with the engine, otherwise by applying the rules one by one
// in that priority order.
func optimize(g *dbsp.ChainGraph, order []int) error {
	if order == nil {
		return dbsp.NewLinearChainRewriteEngine().Optimize(g)
	}
	rules := []dbsp.LinearChainRule{&dbsp.JoinIncrementalizationRule{}, &dbsp.NonLinearLiftingRule{},
		&dbsp.LinearChainIncrementalizationRule{}, &dbsp.IntegrationDifferentiationEliminationRule{},
		&dbsp.DistinctOptimizationRule{}, &dbsp.LinearOperatorFusionRule{}}
	if err := g.Validate(); err != nil {
		return err
	}
	for n := 0; n < 60; n++ {
		applied := false
		for _, i := range order {
			if rules[i].CanApply(g) {
				if err := rules[i].Apply(g); err != nil {
					return err
				}
				applied = true
				break
			}
		}
		if !applied {
			return nil
		}
	}
	return fmt.Errorf("rules %v do not reach a fixpoint", order)
}

func runStream(ex *dbsp.Executor, st step) (zs, error) {
	in := dbsp.DeltaZSet{}
	for k, z := range st.ds {
		in[k] = z.real()
	}
	res, err := ex.Process(in)
	if err != nil {
		return nil, err
	}
	for k, z := range st.ds {
		m, err := model(in[k])
		if err != nil {
			return nil, err
		}
		if m.String() != z.String() {
			return nil, fmt.Errorf("input %s was changed from %s to %s", k, z, m)
		}
	}
	return model(res)
}

func streamName(ss []step) string {
	x := []string{}
	for _, s := range ss {
		x = append(x, s.ss)
	}
	return strings.Join(x, ".")
}

var checkP04 = &core.Check{
	Property: "P04",
	Level:    "model_checking",
	Rule: "a case is one operator graph (inputs, join, chain) with one way of rewriting it under one map order; on it all " +
		"streams of input changes up to the depth are run and every output is compared with a reference interpreter of the " +
		"unrewritten graph; distinct_nontrivial counts distinct sequences of outputs over all streams",
	Assumptions: []string{"evaluators are deterministic, build new documents and return one document per projection, as those of pipelines do",
		"input states have non-negative multiplicities"},
	Run: func(r *core.Run) {
		alpha := alphabet()
		base := alpha[:7]
		type job struct {
			j     join
			ops   []op
			order int
			depth int
			full  bool
		}
		for _, mo := range []int{vrt.Asc, vrt.Desc} {
			vrt.SetOrder(mo)
			var jobs []job
			for ji, j := range joins() {
				maxLen := r.Pick(3, 4)
				al := base
				if ji > 0 {
					maxLen = r.Pick(1, 2)
				}
				if ji == 0 {
					// with the stateful stream operators too, on shorter chains
					for _, ops := range chains(alpha, r.Pick(2, 3)) {
						for o := range ruleOrders {
							jobs = append(jobs, job{j, ops, o, 3, true})
						}
					}
				}
				for _, ops := range chains(al, maxLen) {
					for o := range ruleOrders {
						if ji > 0 && o > 2 {
							continue
						}
						d := 3
						if len(ops) > 2 {
							d = 2
						}
						if ji > 1 && r.Thorough() && len(ops) < 2 {
							d = 3
						} else if ji > 1 {
							d = 2
						}
						jobs = append(jobs, job{j, ops, o, d, false})
					}
				}
				if ji == 0 {
					// long chains of one-to-one operators, to see that rewriting converges
					for n := 6; n <= r.Pick(24, 48); n += 6 {
						for k := 0; k < 3; k++ {
							var ops []op
							for i := 0; i < n; i++ {
								ops = append(ops, base[[]int{[]int{0, 3, 1, 2}[i%4], []int{0, 3, 6, 5, 4}[i%5], []int{3, 2, 0}[i%3]}[k]])
							}
							jobs = append(jobs, job{j, ops, 0, 2, false})
						}
					}
				}
			}
			streamsOf := map[string][][]step{}
			for _, j := range jobs {
				k := fmt.Sprint(j.j.inputs, j.depth)
				if streamsOf[k] == nil {
					streamsOf[k] = streams(j.j.inputs, j.depth, len(j.j.inputs) == 3)
				}
			}
			n := 0
			for _, j := range jobs {
				n += len(streamsOf[fmt.Sprint(j.j.inputs, j.depth)])
			}
			r.Space("rewriting", "map_order", mo, "graphs", len(jobs), "graph_streams", n)
			r.Parallel(len(jobs), func(i int) {
				j := jobs[i]
				ss := streamsOf[fmt.Sprint(j.j.inputs, j.depth)]
				id := fmt.Sprintf("%s rules=%d order=%d", chainName(j.j, j.ops), j.order, mo)
				r.Exec(id, id, func(t *core.T) error {
					for _, s := range ss {
						if err := checkGraph(t, j.j, j.ops, j.order, s); err != nil {
							return err
						}
					}
					return nil
				})
			})
		}
	},
}

func pureChain(ops []op) bool {
	for _, o := range ops {
		if o.stream != "" {
			return false
		}
	}
	return true
}

func checkGraph(t *core.T, j join, ops []op, order int, ss []step) error {
	name := chainName(j, ops) + " on " + streamName(ss)
	// expected outputs
	rc := newRefChain(ops)
	st := map[string]zs{}
	prev := zs{}
	var want []zs
	var states []map[string]zs
	for _, s := range ss {
		n := map[string]zs{}
		for _, in := range j.inputs {
			n[in] = st[in].plus(s.ds[in], 1)
		}
		st = n
		states = append(states, st)
		x := j.state(st)
		want = append(want, rc.step(x.plus(prev, -1)))
		prev = x
	}
	if rc.fail {
		return nil
	}
	g := mkGraph(j, ops)
	if err := optimize(g, ruleOrders[order]); err != nil {
		return core.V("%s: rewriting fails: %v", name, err)
	}
	ex, err := dbsp.NewExecutor(g, logr.Discard())
	if err != nil {
		return core.V("%s: the rewritten graph is not valid: %v", name, err)
	}
	for round := 0; round < 2; round++ {
		for i, s := range ss {
			got, err := runStream(ex, s)
			if err != nil {
				return core.V("%s: step %d fails: %v (graph %s)", name, i, err, g)
			}
			if got.String() != want[i].String() {
				return core.V("%s: step %d of round %d gives %s, expected %s (graph %s)", name, i, round, got, want[i], g)
			}
			if round == 0 {
				t.Step(chainName(j, ops) + got.String())
				t.Out("%s", got)
			}
		}
		ex.Reset()
	}
	if order != 0 || !pureChain(ops) {
		return nil
	}
	// the unrewritten graph and the conversions to and from snapshot mode, on complete states
	sg, err := dbsp.ToSnapshotGraph(g)
	if err != nil {
		return core.V("%s: no snapshot graph: %v (graph %s)", name, err, g)
	}
	sx, err := dbsp.NewSnapshotExecutor(sg, logr.Discard())
	if err != nil {
		return core.V("%s: %v", name, err)
	}
	raw, err := dbsp.NewExecutor(mkGraph(j, ops), logr.Discard())
	if err != nil {
		return core.V("%s: %v", name, err)
	}
	ig, err := dbsp.ToIncrementalGraph(mkGraph(j, ops))
	if err != nil {
		return core.V("%s: no incremental graph: %v", name, err)
	}
	if err := optimize(ig, nil); err != nil {
		return core.V("%s: rewriting the incremental graph fails: %v", name, err)
	}
	ix, err := dbsp.NewExecutor(ig, logr.Discard())
	if err != nil {
		return core.V("%s: %v", name, err)
	}
	for i := range ss {
		exp := snapshot(ops, j.state(states[i]))
		full := step{ds: states[i]}
		for k, e := range map[string]*dbsp.Executor{"snapshot": sx.Executor, "unrewritten": raw} {
			got, err := runStream(e, full)
			if err != nil {
				return core.V("%s: %s graph fails: %v", name, k, err)
			}
			if got.String() != exp.String() {
				return core.V("%s: %s graph gives %s on the state after step %d, expected %s", name, k, got, i, exp)
			}
		}
		got, err := runStream(ix, ss[i])
		if err != nil {
			return core.V("%s: incremental graph fails: %v", name, err)
		}
		if got.String() != want[i].String() {
			return core.V("%s: incremental graph gives %s at step %d, expected %s", name, got, i, want[i])
		}
	}
	return nil
}
