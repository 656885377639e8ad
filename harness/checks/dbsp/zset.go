package main

import (
	"fmt"
	"strings"

	"github.com/l7mp/dcontroller/pkg/dbsp"

	"verif/core"
	"verif/ref"
	"verif/vrt"
)

// identity says whether two documents are the same, as JSON values.
var identityDocs = []any{
	doc{}, doc{"a": int64(1)}, doc{"a": float64(1)}, doc{"a": 1}, doc{"a": 1.5}, doc{"a": "1"}, doc{"a": true}, doc{"a": nil},
	doc{"a": []any{}}, doc{"a": doc{}}, doc{"a": []any{int64(1), int64(2)}}, doc{"a": []any{int64(2), int64(1)}},
	doc{"a": []any{doc{"x": int64(1)}}}, doc{"a": []any{doc{"x": int64(1), "y": nil}}}, doc{"a": doc{"b": int64(1), "c": int64(2)}},
	doc{"a": doc{"c": int64(2), "b": int64(1)}}, doc{"a": int64(1), "b": int64(2)}, doc{"b": int64(2), "a": int64(1)},
	doc{"b": int64(1)}, doc{"a": doc{"b": doc{"c": "x"}}}, doc{"a": doc{"b": doc{"c": "y"}}}, doc{"a": "x\"y"}, doc{"a": "é"},
	doc{"a": int64(9007199254740993)}, doc{"a": int64(9007199254740992)}, doc{"a": false}, doc{"a": ""}, doc{"a": int64(0)},
	doc{"a": []any{nil}}, doc{"a": []any{[]any{}}}, doc{"a": "true"}, doc{"a": []any{int64(1)}, "b": []any{}},
}

func same(a, b any) bool {
	switch x := a.(type) {
	case doc:
		y, ok := b.(doc)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !same(v, w) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case nil, string, bool:
		return a == b
	default:
		i, fi, ok := number(a)
		j, fj, ok2 := number(b)
		return ok && ok2 && i == j && fi == fj
	}
}

func number(a any) (int64, float64, bool) {
	switch x := a.(type) {
	case int:
		return int64(x), 0, true
	case int64:
		return x, 0, true
	case float64:
		if x == float64(int64(x)) {
			return int64(x), 0, true
		}
		return 0, x, true
	}
	return 0, 0, false
}

// zdocs are the documents of the enumerated Z-sets.
func zdocs() []doc {
	return []doc{
		{"id": "a", "n": doc{"l": []any{int64(1), doc{"x": "y"}}}},
		{"id": "b", "n": doc{"l": []any{int64(1), doc{"x": "z"}}}},
		{"id": "a", "n": doc{"l": []any{doc{"x": "y"}, int64(1)}}},
	}
}

type zv []int

// docsOf are the documents a vector counts.
func docsOf(v zv) []doc {
	ds := zdocs()
	for i := len(ds); i < len(v); i++ {
		ds = append(ds, doc{"id": fmt.Sprintf("d%d", i), "n": int64(i)})
	}
	return ds
}

// large are sets of many documents, or with large multiplicities.
func large() (out []zv) {
	for _, n := range []int{9, 17, 40} {
		for _, f := range []func(i int) int{func(i int) int { return 1 }, func(i int) int { return i%5 - 2 }, func(i int) int { return -i }, func(i int) int { return (i % 2) * 300 }} {
			v := zv{}
			for i := range n {
				v = append(v, f(i))
			}
			out = append(out, v)
		}
	}
	return append(out, zv{100, -300, 700})
}

// bigDocs are long, deep and wide documents that differ in one place.
func bigDocs() (out []any) {
	far := strings.Repeat("n", 300)
	for _, s := range []string{far, far + "x", far + "y", "x" + far, far[:150] + "x" + far[150:], far[:100] + "\n" + far[100:]} {
		out = append(out, doc{"s": s}, doc{s: "s"})
	}
	for i := range 3 {
		l, w, in := []any{}, doc{}, any(int64(i))
		for j := range 64 {
			x := int64(j)
			if j == 21*(i+1) {
				x = -1
			}
			l, w[fmt.Sprintf("k%d", j)] = append(l, x), x
			if j%2 == 0 {
				in = []any{in}
			} else {
				in = doc{"d": in}
			}
		}
		out = append(out, doc{"l": l}, doc{"l": l[:len(l)-i]}, w, doc{"w": w}, doc{"d": in})
	}
	return out
}

func zvs(n, lim int) []zv {
	out := []zv{{}}
	for i := 0; i < n; i++ {
		var next []zv
		for _, p := range out {
			for m := -lim; m <= lim; m++ {
				next = append(next, append(append(zv{}, p...), m))
			}
		}
		out = next
	}
	return out
}

func (v zv) ref() zs {
	z := zs{}
	for i, d := range docsOf(v) {
		if i < len(v) && v[i] != 0 {
			z.add(d, v[i])
		}
	}
	return z
}

func (v zv) real(t *core.T) *dbsp.DocumentZSet {
	z := dbsp.NewDocumentZSet()
	for i, d := range docsOf(v) {
		if i >= len(v) {
			continue
		}
		// in two steps, to go through the accumulation
		a := v[i] / 2
		if err := z.AddDocumentMutate(d, a); err != nil {
			panic(err)
		}
		if err := z.AddDocumentMutate(ref.CopyMap(d), v[i]-a); err != nil {
			panic(err)
		}
	}
	return z
}

func expectZ(what string, z *dbsp.DocumentZSet, err error, want zs) error {
	if err != nil {
		return core.V("%s fails: %v", what, err)
	}
	m, err := model(z)
	if err != nil {
		return core.V("%s: %v", what, err)
	}
	if m.String() != want.String() {
		return core.V("%s is %s, expected %s", what, m, want)
	}
	return nil
}

func (z zs) mapped(f func(n int) int) zs {
	r := zs{}
	for k, n := range z {
		if m := f(n); m != 0 {
			r[k] = m
		}
	}
	return r
}

func sign(n int) int {
	if n > 0 {
		return 1
	} else if n < 0 {
		return -1
	}
	return 0
}

func pos(n int) int {
	if n > 0 {
		return 1
	}
	return 0
}

func measures(what string, z *dbsp.DocumentZSet, w zs) error {
	size, total, uniq := 0, 0, 0
	for _, n := range w {
		if n > 0 {
			size += n
			total += n
			uniq++
		} else {
			total -= n
		}
	}
	if z.Size() != size || z.TotalSize() != total || z.UniqueCount() != uniq || z.IsZero() != (len(w) == 0) {
		return core.V("%s: %s has size %d, total %d, unique %d, zero %v", what, w, z.Size(), z.TotalSize(), z.UniqueCount(), z.IsZero())
	}
	ds, err := z.GetDocuments()
	if err != nil {
		return core.V("%s: %v", what, err)
	}
	cnt := zs{}
	for _, d := range ds {
		cnt.add(d, 1)
	}
	if cnt.String() != w.mapped(func(n int) int { return max(n, 0) }).String() {
		return core.V("%s: %s lists documents %s", what, w, cnt)
	}
	us, err := z.GetUniqueDocuments()
	if err != nil {
		return core.V("%s: %v", what, err)
	}
	cnt = zs{}
	for _, d := range us {
		cnt.add(d, 1)
	}
	if cnt.String() != w.mapped(pos).String() {
		return core.V("%s: %s lists unique documents %s", what, w, cnt)
	}
	for _, d := range zdocs() {
		n, err := z.GetMultiplicity(d)
		if err != nil || n != w[ref.Canon(d)] {
			return core.V("%s: multiplicity of %s is %d, %v", what, ref.Canon(d), n, err)
		}
		in, err := z.Contains(d)
		if err != nil || in != (n > 0) {
			return core.V("%s: contains %s: %v, %v", what, ref.Canon(d), in, err)
		}
	}
	return nil
}

func scribble(v any) {
	switch x := v.(type) {
	case doc:
		for _, e := range x {
			scribble(e)
		}
		for k := range x {
			x[k] = "scribbled"
		}
		x["scribbled"] = true
	case []any:
		for i := range x {
			scribble(x[i])
			x[i] = "scribbled"
		}
	}
}

func scribbleZ(z *dbsp.DocumentZSet) {
	// adding to a set changes its own bookkeeping, too
	z.AddDocumentMutate(doc{"scribbled": true}, 3)
	for _, d := range zdocs() {
		z.AddDocumentMutate(d, -5)
	}
}

func unary(t *core.T, v zv) error {
	w := v.ref()
	z := v.real(t)
	if err := expectZ("the set", z, nil, w); err != nil {
		return err
	}
	if err := measures("measures", z, w); err != nil {
		return err
	}
	type un struct {
		name string
		f    func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error)
		w    zs
	}
	neg := func(n int) int { return -n }
	for _, u := range []un{
		{"distinct", func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error) { return z.Distinct() }, w.mapped(pos)},
		{"unique", func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error) { return z.Unique() }, w.mapped(sign)},
		{"deep copy", func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error) { return z.DeepCopy(), nil }, w},
		{"shallow copy", func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error) { return z.ShallowCopy(), nil }, w},
		{"sum with nothing", func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error) { return z.Add(nil) }, w},
		{"difference with nothing", func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error) { return z.Subtract(nil) }, w},
		{"negation", func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error) { return dbsp.NewNegate().Process(z) }, w.mapped(neg)},
		{"distinct operator", func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error) { return dbsp.NewDistinct().Process(z) }, w.mapped(pos)},
		{"constant", func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error) { return dbsp.NewConstant(z, "c").Process() }, w},
		{"input", func(z *dbsp.DocumentZSet) (*dbsp.DocumentZSet, error) {
			in := dbsp.NewInput("i")
			in.SetData(z)
			return in.Process()
		}, w},
	} {
		o, err := u.f(z)
		if err := expectZ(u.name, o, err, u.w); err != nil {
			return err
		}
		if err := measures(u.name, o, u.w); err != nil {
			return err
		}
		scribbleZ(o)
		if err := expectZ("operand after "+u.name+" and a change of the result", z, nil, w); err != nil {
			return err
		}
		t.Step(u.name + w.String())
	}
	for _, n := range []int{-2, -1, 0, 1, 2} {
		for _, d := range zdocs() {
			o, err := z.AddDocument(d, n)
			if err := expectZ(fmt.Sprintf("adding %d of %s", n, ref.Canon(d)), o, err, w.plus(zs{ref.Canon(d): n}, 1)); err != nil {
				return err
			}
			if err := expectZ("operand after adding a document", z, nil, w); err != nil {
				return err
			}
		}
	}
	// what is handed out can be overwritten
	es, _ := z.List()
	for i := range es {
		scribble(es[i].Document)
	}
	ds, _ := z.GetDocuments()
	for i := range ds {
		scribble(ds[i])
	}
	us, _ := z.GetUniqueDocuments()
	for i := range us {
		scribble(us[i])
	}
	if err := expectZ("the set after its listed documents were overwritten", z, nil, w); err != nil {
		return err
	}
	c := z.DeepCopy()
	for _, d := range zdocs() {
		_ = d
	}
	t.Out("%s", w)
	return expectZ("a deep copy", c, nil, w)
}

func binary(t *core.T, a, b zv) error {
	wa, wb := a.ref(), b.ref()
	za, zb := a.real(t), b.real(t)
	type bin struct {
		name string
		f    func() (*dbsp.DocumentZSet, error)
		w    zs
	}
	for _, u := range []bin{
		{"sum", func() (*dbsp.DocumentZSet, error) { return za.Add(zb) }, wa.plus(wb, 1)},
		{"difference", func() (*dbsp.DocumentZSet, error) { return za.Subtract(zb) }, wa.plus(wb, -1)},
		{"sum operator", func() (*dbsp.DocumentZSet, error) { return dbsp.NewAdd().Process(za, zb) }, wa.plus(wb, 1)},
		{"difference operator", func() (*dbsp.DocumentZSet, error) { return dbsp.NewSubtract().Process(za, zb) }, wa.plus(wb, -1)},
		{"integral", func() (*dbsp.DocumentZSet, error) {
			i := dbsp.NewIntegrator()
			if _, err := i.Process(za); err != nil {
				return nil, err
			}
			return i.Process(zb)
		}, wa.plus(wb, 1)},
		{"derivative", func() (*dbsp.DocumentZSet, error) {
			i := dbsp.NewDifferentiator()
			if _, err := i.Process(zb); err != nil {
				return nil, err
			}
			return i.Process(za)
		}, wa.plus(wb, -1)},
		{"delay", func() (*dbsp.DocumentZSet, error) {
			i := dbsp.NewDelay()
			if _, err := i.Process(za); err != nil {
				return nil, err
			}
			return i.Process(zb)
		}, wa},
	} {
		o, err := u.f()
		if err := expectZ(u.name, o, err, u.w); err != nil {
			return err
		}
		scribbleZ(o)
		if err := expectZ("left operand after "+u.name, za, nil, wa); err != nil {
			return err
		}
		if err := expectZ("right operand after "+u.name, zb, nil, wb); err != nil {
			return err
		}
		t.Step(u.name + wa.String() + wb.String())
	}
	t.Out("%s%s", wa, wb)
	return nil
}

// stateful checks that the outputs and inputs of the stateful operators can be overwritten.
func stateful(t *core.T, a, b, c zv) error {
	for _, k := range []string{"I", "D", "z"} {
		var o dbsp.Operator
		ro := newRefChain([]op{{stream: k}})
		switch k {
		case "I":
			o = dbsp.NewIntegrator()
		case "D":
			o = dbsp.NewDifferentiator()
		default:
			o = dbsp.NewDelay()
		}
		for i, v := range []zv{a, b, c} {
			z := v.real(t)
			out, err := o.Process(z)
			if err := expectZ(fmt.Sprintf("step %d of %s", i, k), out, err, ro.step(v.ref())); err != nil {
				return err
			}
			scribbleZ(out)
			scribbleZ(z)
		}
		t.Step(k)
	}
	return nil
}

var checkP05 = &core.Check{
	Property: "P05",
	Level:    "model_checking",
	Rule: "cases: every pair of documents of a list of JSON corner cases (identity), every Z-set over three documents with " +
		"multiplicities -2..2 (unary operations), every pair of them (binary operations), triples (stateful operators), " +
		"under two map orders; compared with maps from canonical JSON to multiplicity",
	Run: func(r *core.Run) {
		for _, mo := range []int{vrt.Asc, vrt.Desc} {
			vrt.SetOrder(mo)
			identityDocs := append(identityDocs[:len(identityDocs):len(identityDocs)], bigDocs()...)
			n := len(identityDocs)
			r.Parallel(n*n, func(k int) {
				a, b := identityDocs[k/n].(doc), identityDocs[k%n].(doc)
				r.Exec(fmt.Sprintf("identity %s %s", ref.Canon(a), ref.Canon(b)), nil, func(t *core.T) error {
					want := same(a, b)
					eq, err := dbsp.DeepEqual(a, b)
					if err != nil || eq != want {
						return core.V("equality of %v and %v: %v, %v", a, b, eq, err)
					}
					z, err := dbsp.SingletonZSet(a)
					if err != nil {
						return core.V("%v", err)
					}
					z, err = z.AddDocument(b, -1)
					if err != nil || z.IsZero() != want {
						return core.V("{%v} - {%v} is %s, %v", a, b, z, err)
					}
					f, err := dbsp.FromDocuments([]doc{a, b})
					if err != nil || (f.UniqueCount() == 1) != want || f.Size() != 2 {
						return core.V("{%v, %v} is %s, %v", a, b, f, err)
					}
					c := dbsp.DeepCopyDocument(a)
					if !same(a, c) {
						return core.V("the copy of %v is %v", a, c)
					}
					scribble(c)
					if _, ok := a["scribbled"]; ok {
						return core.V("a copy shares its document")
					}
					if m, err := f.GetMultiplicity(a); err != nil || m != map[bool]int{true: 2, false: 1}[want] {
						return core.V("{%v, %v} has %d of the first, %v", a, b, m, err)
					}
					t.Step(ref.Canon(a))
					t.Out("%v", want)
					return nil
				})
			})
			vs := append(large(), zvs(3, 2)...)
			r.Parallel(len(vs), func(i int) {
				r.Exec(fmt.Sprintf("unary %v", vs[i]), nil, func(t *core.T) error { return unary(t, vs[i]) })
			})
			r.Parallel(len(vs)*len(vs), func(i int) {
				a, b := vs[i/len(vs)], vs[i%len(vs)]
				r.Exec(fmt.Sprintf("binary %v %v", a, b), nil, func(t *core.T) error { return binary(t, a, b) })
			})
			s := zvs(r.Pick(2, 3), 1)
			m := len(s)
			r.Parallel(m*m*m, func(i int) {
				a, b, c := s[i/m/m], s[i/m%m], s[i%m]
				r.Exec(fmt.Sprintf("stateful %v %v %v", a, b, c), nil, func(t *core.T) error { return stateful(t, a, b, c) })
			})
			r.Space("zsets", "map_order", mo, "identity_pairs", n*n, "sets", len(vs), "pairs", len(vs)*len(vs), "stateful_triples", m*m*m)
		}
	},
}
