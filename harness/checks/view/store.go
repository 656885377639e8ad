package main

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/fields"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"

	"verif/core"
	. "verif/vobj"
)

var checkP15 = &core.Check{
	Property: "P15",
	Level:    "model_checking",
	Rule:     "a case is one sequence of writes through given fronts to a fresh storage, with all reads compared to the reference map after the last write; an outcome is the storage's final content",
	Assumptions: []string{
		"client-go's thread-safe store is trusted",
		"selectors are evaluated by the reference over labels, and over the fields metadata.name, metadata.namespace, status.phase and status.ready",
		"writing an existing object with create replaces it (one-shot sources rely on it)",
	},
	Run: runP15,
}

// lopt is a way to select objects in a list.
type lopt struct {
	name string
	opts []client.ListOption
	sel  func(c M) bool
}

func lab(c M, k string) (string, bool) {
	md, _ := c["metadata"].(M)
	l, _ := md["labels"].(M)
	v, ok := l[k].(string)
	return v, ok
}

func meta(c M, k string) string {
	md, _ := c["metadata"].(M)
	s, _ := md[k].(string)
	return s
}

func status(c M, k string) any {
	st, _ := c["status"].(M)
	return st[k]
}

func must[T any](x T, err error) T {
	if err != nil {
		core.Abort("%v", err)
	}
	return x
}

func lopts() []lopt {
	appA := func(c M) bool { v, _ := lab(c, "app"); return v == "a" }
	notA := func(c M) bool { return !appA(c) }
	hasT := func(c M) bool { _, ok := lab(c, "t"); return ok }
	n1 := func(c M) bool { return meta(c, "namespace") == "n1" }
	nameX := func(c M) bool { return meta(c, "name") == "x" }
	phaseP := func(c M) bool { return status(c, "phase") == "P" }
	and := func(fs ...func(M) bool) func(M) bool {
		return func(c M) bool {
			for _, f := range fs {
				if !f(c) {
					return false
				}
			}
			return true
		}
	}
	notin := must(labels.Parse("app notin (a)"))
	appAsel := must(labels.Parse("app=a"))
	return []lopt{
		{"all", nil, func(M) bool { return true }},
		{"ns", []client.ListOption{client.InNamespace("n1")}, n1},
		{"ns empty", []client.ListOption{client.InNamespace("")}, func(M) bool { return true }},
		{"ns other", []client.ListOption{client.InNamespace("n3")}, func(M) bool { return false }},
		{"labels", []client.ListOption{client.MatchingLabels{"app": "a"}}, appA},
		{"labels2", []client.ListOption{client.MatchingLabels{"app": "a", "t": "1"}}, and(appA, hasT)},
		{"label selector", []client.ListOption{client.MatchingLabelsSelector{Selector: notin}}, notA},
		{"has labels", []client.ListOption{client.HasLabels{"t"}}, hasT},
		{"fields", []client.ListOption{client.MatchingFields{"metadata.name": "x"}}, nameX},
		{"fields2", []client.ListOption{client.MatchingFields{"metadata.name": "x", "metadata.namespace": "n1"}}, and(nameX, n1)},
		{"field selector", []client.ListOption{client.MatchingFieldsSelector{Selector: must(fields.ParseSelector("metadata.namespace!=n1"))}}, func(c M) bool { return !n1(c) }},
		{"field phase", []client.ListOption{client.MatchingFields{"status.phase": "P"}}, phaseP},
		{"field ready", []client.ListOption{client.MatchingFields{"status.ready": "true"}}, func(c M) bool { return status(c, "ready") == true }},
		{"field not ready", []client.ListOption{client.MatchingFields{"status.ready": "false"}}, func(c M) bool { return status(c, "ready") == false }},
		{"ns+labels", []client.ListOption{client.InNamespace("n1"), client.MatchingLabels{"app": "a"}}, and(n1, appA)},
		{"labels+fields+ns", []client.ListOption{client.MatchingLabels{"app": "a"}, client.MatchingFields{"metadata.name": "x"}, client.InNamespace("n1")}, and(n1, appA, nameX)},
		{"options ns", []client.ListOption{&client.ListOptions{Namespace: "n1"}}, n1},
		{"options labels", []client.ListOption{&client.ListOptions{LabelSelector: appAsel}}, appA},
		{"options fields", []client.ListOption{&client.ListOptions{FieldSelector: fields.SelectorFromSet(fields.Set{"metadata.name": "x"})}}, nameX},
		{"options all", []client.ListOption{&client.ListOptions{Namespace: "n1", LabelSelector: appAsel, FieldSelector: fields.SelectorFromSet(fields.Set{"metadata.name": "x"})}}, and(n1, appA, nameX)},
		{"options then labels", []client.ListOption{&client.ListOptions{Namespace: "n1"}, client.MatchingLabels{"app": "a"}}, and(n1, appA)},
		{"labels then has", []client.ListOption{client.MatchingLabels{"app": "a"}, client.HasLabels{"t"}}, and(appA, hasT)},
		{"empty labels", []client.ListOption{client.MatchingLabels{}}, func(M) bool { return true }},
	}
}

var listOpts = lopts()

func (m *model) list(g schema.GroupVersionKind, sel func(M) bool) []string {
	r := []string{}
	for _, c := range m.m[g] {
		if sel(c) {
			r = append(r, Str(c))
		}
	}
	sort.Strings(r)
	return r
}

// keys are the usual keys and all others there are.
func (m *model) keys(g schema.GroupVersionKind) []key {
	ret := keys[:len(keys):len(keys)]
	for k := range m.m[g] {
		if !slices.Contains(keys, k) {
			ret = append(ret, k)
		}
	}
	return ret
}

// checkReads compares everything that can be read with the model.
func checkReads(s *sys, m *model, gs []schema.GroupVersionKind, full bool) error {
	for _, f := range s.fronts {
		for _, g := range gs {
			for _, k := range m.keys(g) {
				want := m.get(g, k)
				for i, rd := range []client.Reader{f.cl, f.cache} {
					if i == 1 && !full {
						continue
					}
					o := New(g, key{Name: "other"}, M{"left": "over"})
					err := rd.Get(ctx, k, o)
					switch {
					case want == nil && !apierrors.IsNotFound(err):
						return core.V("get %s %s via %s of an absent object: %v, %s", g, k, f.name, err, Str(o))
					case want == nil:
						continue
					case err != nil:
						return core.V("get %s %s via %s: %v", g, k, f.name, err)
					case !reflect.DeepEqual(o.Object, want):
						return core.V("get %s %s via %s gives %s, not %s", g, k, f.name, Str(o), Str(want))
					}
					Scramble(o)
				}
			}
			for i, lo := range listOpts {
				if !full && i%4 != 0 {
					continue
				}
				var rd client.Reader = f.cl
				if i%2 == 1 {
					rd = f.cache
				}
				want := m.list(g, lo.sel)
				l := List(g)
				for j := 0; j < 2; j++ { // the second time into the same list
					if err := rd.List(ctx, l, lo.opts...); err != nil {
						return core.V("list %s via %s (%s): %v", g, f.name, lo.name, err)
					}
					if got := Strs(l.Items); !reflect.DeepEqual(got, want) {
						return core.V("list %s via %s (%s, time %d) gives %v, not %v", g, f.name, lo.name, j, got, want)
					}
				}
				for i := range l.Items {
					Scramble(&l.Items[i])
				}
			}
		}
	}
	return nil
}

// checkDump compares the dump of a kind, and the subresource reads, with the model.
func checkRest(s *sys, m *model, gs []schema.GroupVersionKind) error {
	for _, g := range gs {
		want := m.list(g, func(M) bool { return true })
		if d := s.vc.Dump(ctx, g); len(d) != len(want) {
			return core.V("dump %s shows %d of %d objects", g, len(d), len(want))
		}
		idx, err := s.vc.GetCacheForKind(g)
		if err != nil {
			return core.V("store of %s: %v", g, err)
		}
		var got []string
		for _, o := range idx.List() {
			got = append(got, Str(o))
		}
		sort.Strings(got)
		if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
			return core.V("store of %s holds %v, not %v", g, got, want)
		}
		for _, k := range m.keys(g) {
			c := m.get(g, k)
			for _, f := range s.fronts {
				so := New(g, key{Name: "s"}, M{})
				err := f.cl.SubResource("status").Get(ctx, New(g, k, M{}), so)
				if c == nil {
					if !apierrors.IsNotFound(err) {
						return core.V("status of absent %s %s via %s: %v", g, k, f.name, err)
					}
					continue
				}
				st, ok := c["status"].(M)
				if !ok {
					if err == nil {
						return core.V("status of %s %s via %s, which has none: %s", g, k, f.name, Str(so))
					}
					continue
				}
				if err != nil || !reflect.DeepEqual(so.Object, st) {
					return core.V("status of %s %s via %s: %v %s, not %s", g, k, f.name, err, Str(so), Str(st))
				}
				Scramble(so)
			}
		}
	}
	return nil
}

// delAll are the collective deletions.
func delAll(g schema.GroupVersionKind) []op {
	var r []op
	for _, lo := range listOpts {
		lo := lo
		var dos []client.DeleteAllOfOption
		ok := true
		for _, x := range lo.opts {
			if d, is := x.(client.DeleteAllOfOption); is {
				dos = append(dos, d)
			} else if l, is := x.(*client.ListOptions); is {
				dos = append(dos, &client.DeleteAllOfOptions{ListOptions: *l})
			} else {
				ok = false
			}
		}
		if !ok {
			continue
		}
		r = append(r, op{name: "deleteall " + lo.name, g: g, do: func(s *sys, f *front, m *model) ([]any, error) {
			o := New(g, key{}, M{})
			return []any{o}, f.cl.DeleteAllOf(ctx, o, dos...)
		}, multi: func(m *model) {
			for k, c := range m.m[g] {
				if lo.sel(c) {
					m.del(g, k)
				}
			}
		}})
	}
	return r
}

func state(m *model) string {
	var r []string
	for g, ks := range m.m {
		for k, c := range ks {
			r = append(r, g.Group+g.Kind+k.String()+Str(c))
		}
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

func runSeq(r *core.Run, id string, seq []op, gs []schema.GroupVersionKind, full bool) {
	for _, o := range seq {
		id += fmt.Sprintf("/%s@%d", o.name, o.f)
	}
	r.Exec(id, nil, func(t *core.T) error {
		s, m := newSys(), newModel()
		for i := range seq {
			if _, _, err := seq[i].run(s, m); err != nil {
				return err
			}
			t.Step(state(m))
		}
		if err := checkReads(s, m, gs, full); err != nil {
			return err
		}
		// once more: what has been read was overwritten by the reader
		if err := checkReads(s, m, gs, false); err != nil {
			return err
		}
		if err := checkRest(s, m, gs); err != nil {
			return err
		}
		t.Out("%s", state(m))
		return nil
	})
}

func runP15(r *core.Run) {
	g := kinds[0]
	nf := 4
	// one object, all writes, all fronts
	a := ops(g, keys[0], []int{0, 1, 2})
	full1 := len(a) * nf
	with := func(o op, f int) op { o.f = f; return o }
	r.Space("two writes through every pair of fronts", "writes", len(a), "fronts", nf, "sequences", full1*full1)
	r.Parallel(full1*full1, func(i int) {
		x, y := i/full1, i%full1
		runSeq(r, "pair", []op{with(a[x/nf], x%nf), with(a[y/nf], y%nf)}, kinds[:1], true)
	})
	// longer ones, the front changes from write to write
	d := r.Pick(3, 4)
	n := 1
	for i := 0; i < d; i++ {
		n *= len(a)
	}
	r.Space("sequences of writes to one object", "writes", len(a), "length", d, "sequences", n)
	r.Parallel(n, func(i int) {
		var seq []op
		for j, x := 0, i; j < d; j++ {
			seq = append(seq, with(a[x%len(a)], (i+j*(1+i%3))%nf))
			x /= len(a)
		}
		runSeq(r, "seq", seq, kinds[:1], false)
	})
	// several objects of several kinds, filled in all ways, and collective deletions
	var fill []op
	for gi, g := range kinds {
		for ki, k := range keys {
			if gi > 0 && ki%2 == 1 {
				continue
			}
			for _, o := range ops(g, k, []int{(gi + ki) % 4, (gi + ki + 1) % 4})[:2] {
				fill = append(fill, o)
			}
		}
	}
	nfill := 1 << len(keys)
	ncont := 81
	var jobs []func()
	for _, g := range kinds {
		das := delAll(g)
		for pick := 0; pick < nfill; pick++ {
			for cs := 0; cs < ncont; cs++ {
				var seq []op
				x := cs
				skip := false
				for ki, k := range keys {
					c := x % 3
					x /= 3
					if pick>>ki&1 == 0 {
						skip = skip || c > 0
						continue
					}
					ci := []int{0, 1, 3}[c]
					seq = append(seq, with(ops(g, k, []int{ci})[(ki+c)%2], (ki+pick)%nf))
				}
				if skip {
					continue
				}
				// another kind's objects are there, too
				og := kinds[0]
				if g == og {
					og = kinds[1]
				}
				seq = append(seq, with(ops(og, keys[0], []int{0})[0], cs%nf))
				gs := []schema.GroupVersionKind{g, og}
				jobs = append(jobs, func() { runSeq(r, "fill", seq, gs, true) })
				for di, da := range das {
					if !r.Thorough() && (cs+di+pick)%4 != 0 {
						continue
					}
					sq := append(append([]op{}, seq...), with(da, (cs+di)%nf))
					jobs = append(jobs, func() { runSeq(r, "deleteall", sq, gs, true) })
				}
			}
		}
	}
	r.Space("storages filled with up to four objects of a kind, and collective deletions from them", "cases", len(jobs))
	r.Parallel(len(jobs), func(i int) { jobs[i]() })
	// every pair of kinds: writes to one do not show in the other
	jobs = nil
	for _, g1 := range kinds {
		for _, g2 := range kinds {
			if g1 == g2 {
				continue
			}
			o1, o2 := ops(g1, keys[0], []int{0, 1}), ops(g2, keys[0], []int{0, 1})
			for i := range o1 {
				for j := range o2 {
					seq := []op{with(o1[0], i%nf), with(o2[4], 0), with(o2[0], j%nf), with(o1[i], j%nf), with(o2[j], i%nf)}
					seq = append(seq[:1], seq[2:]...)
					jobs = append(jobs, func() { runSeq(r, "kinds", seq, kinds, false) })
				}
			}
		}
	}
	r.Space("writes to two kinds", "cases", len(jobs))
	r.Parallel(len(jobs), func(i int) { jobs[i]() })
	// many objects, before and after another write or a collective deletion
	jobs = nil
	for gi, g := range kinds {
		og := kinds[(gi+1)%len(kinds)]
		var seq []op
		for i := range 48 {
			k := key{Namespace: []string{"n1", "n2", "", "n4"}[i%4], Name: fmt.Sprintf("o%d", i/4)}
			if i < 3 {
				k = keys[i]
			}
			seq = append(seq, with(ops(g, k, []int{i % 5 % 4})[i%2], i/3%nf))
			if i%5 == 0 {
				seq = append(seq, with(ops(og, k, []int{1})[0], i/5%nf))
			}
		}
		last := append(delAll(g), ops(g, key{Namespace: "n1", Name: "o11"}, []int{0, 1})...)
		last = append(append(last, ops(g, keys[0], []int{0, 2})...), ops(g, key{Namespace: "n1", Name: "o1"}, []int{2})...)
		for i, o := range last {
			for f := range nf {
				if !r.Thorough() && (i+f+gi)%nf > 1 {
					continue
				}
				sq := append(append([]op{}, seq...), with(o, f))
				jobs = append(jobs, func() { runSeq(r, "many", sq, []schema.GroupVersionKind{g, og}, false) })
			}
		}
	}
	r.Space("writes to, and collective deletions from, many objects", "cases", len(jobs))
	r.Parallel(len(jobs), func(i int) { jobs[i]() })
	// long names that differ only at the end, or only at the beginning
	jobs = nil
	long := strings.Repeat("n", 120)
	far := []key{{Namespace: long, Name: long + "x"}, {Namespace: long, Name: long + "y"}, {Namespace: "n" + long, Name: long + "x"}, {Namespace: long, Name: "x" + long}, {Name: long + "x"}}
	for gi, g := range kinds {
		og := kinds[(gi+1)%len(kinds)]
		for i, k := range far {
			for oi, o := range append(ops(g, k, []int{0, 1}), delAll(g)...) {
				var seq []op
				for j, k := range far {
					seq = append(seq, with(ops(g, k, []int{j % 3})[0], (i+j+oi)%nf))
				}
				seq = append(seq, with(o, (gi+oi)%nf))
				jobs = append(jobs, func() { runSeq(r, "far", seq, []schema.GroupVersionKind{g, og}, false) })
			}
		}
	}
	r.Space("objects with long names", "cases", len(jobs))
	r.Parallel(len(jobs), func(i int) { jobs[i]() })
	bad15(r)
}

// bad15 are the accesses that must be refused.
func bad15(r *core.Run) {
	bad := []schema.GroupVersionKind{
		{Group: "apps", Version: "v1", Kind: "Deployment"},
		{Group: "", Version: "v1", Kind: "Pod"},
		{Group: "op1.view.dcontroller.io", Version: "v1", Kind: "V"},
		{Group: "op1.view.example.com", Version: "v1alpha1", Kind: "V"},
	}
	for _, g := range bad {
		for i := 0; i < 3; i++ {
			r.Exec(fmt.Sprintf("refused/%s/%d", g, i), nil, func(t *core.T) error {
				s, m := newSys(), newModel()
				f := s.fronts[i]
				with := ops(kinds[0], keys[0], []int{0})[0]
				if _, _, err := with.run(s, m); err != nil {
					return err
				}
				o := New(g, keys[0], contents[0])
				for n, err := range map[string]error{
					"add": f.direct.Add(o), "create": f.cl.Create(ctx, o), "update": f.cl.Update(ctx, o), "replace": f.direct.Update(New(g, keys[0], contents[1]), o),
					"patch":  f.cl.Patch(ctx, o, client.RawPatch("application/merge-patch+json", []byte(`{"a":1}`))),
					"status": f.cl.Status().Update(ctx, o), "delete": f.cl.Delete(ctx, o), "remove": f.direct.Delete(o),
					"get": f.cl.Get(ctx, keys[0], New(g, keys[0], M{})), "list": f.cl.List(ctx, List(g)), "deleteall": f.cl.DeleteAllOf(ctx, o),
				} {
					if err == nil {
						return core.V("%s of the non-view kind %s is accepted via %s", n, g, f.name)
					}
				}
				if _, err := f.direct.Watch(ctx, List(g)); err == nil {
					return core.V("watch of the non-view kind %s is accepted via %s", g, f.name)
				}
				if _, err := f.cache.GetInformerForKind(ctx, g); err == nil {
					return core.V("an informer of the non-view kind %s is given out via %s", g, f.name)
				}
				if err := s.vc.RegisterCacheForKind(g); err == nil {
					return core.V("a store of the non-view kind %s can be registered", g)
				}
				if err := checkReads(s, m, kinds[:1], true); err != nil {
					return err
				}
				t.Out("refused")
				return nil
			})
		}
	}
	// objects that bring their own UID keep it
	for i := range kinds {
		r.Exec(fmt.Sprintf("uid/%d", i), nil, func(t *core.T) error {
			s := newSys()
			for j, f := range s.fronts {
				o := New(kinds[i], keys[j], M{"metadata": M{"uid": "own"}, "spec": M{"x": int64(1)}})
				if err := f.cl.Create(ctx, o); err != nil {
					return core.V("create: %v", err)
				}
				for k := 0; k < 2; k++ {
					g := New(kinds[i], key{Name: "z"}, M{})
					if err := f.cl.Get(ctx, keys[j], g); err != nil || g.GetUID() != "own" {
						return core.V("an object with UID own got %q (%v)", g.GetUID(), err)
					}
					if err := f.cl.Patch(ctx, g, client.RawPatch("application/merge-patch+json", []byte(`{"spec":{"x":2}}`))); err != nil {
						return core.V("patch: %v", err)
					}
				}
			}
			return nil
		})
	}
	// an update of the status needs one
	for j := range newSys().fronts {
		r.Exec(fmt.Sprintf("nostatus/%d", j), nil, func(t *core.T) error {
			s, m := newSys(), newModel()
			f := s.fronts[j]
			with := ops(kinds[0], keys[0], []int{0})[0]
			if _, _, err := with.run(s, m); err != nil {
				return err
			}
			if err := f.cl.Status().Update(ctx, New(kinds[0], keys[0], M{"spec": M{}})); err == nil {
				return core.V("a status update without status succeeds")
			}
			return checkReads(s, m, kinds[:1], true)
		})
	}
	storeCases(r)
}

// storeCases enumerates histories of the copying store.
func storeCases(r *core.Run) {
	type sop struct {
		name string
		k    int
		c    int
	}
	var al []sop
	for k := 0; k < 2; k++ {
		for c := 0; c < 2; c++ {
			al = append(al, sop{"add", k, c}, sop{"update", k, c})
		}
		al = append(al, sop{"delete", k, 0})
	}
	al = append(al, sop{"replace", 0, 0}, sop{"replace", 1, 1})
	d := r.Pick(3, 4)
	n := 1
	for i := 0; i < d; i++ {
		n *= len(al)
	}
	g := kinds[0]
	r.Space("histories of the copying store", "operations", len(al), "length", d, "histories", n)
	r.Parallel(n, func(i int) {
		r.Exec(fmt.Sprintf("store/%d", i), nil, func(t *core.T) error {
			st := cache.NewStore()
			want := map[string]string{}
			for j, x := 0, i; j < d; j++ {
				o := al[x%len(al)]
				x /= len(al)
				u := New(g, keys[o.k], contents[o.c])
				name := keys[o.k].String()
				var err error
				switch o.name {
				case "add":
					err = st.Add(u)
					want[name] = Str(u)
					Scramble(u)
				case "update":
					err = st.Update(u)
					want[name] = Str(u)
					Scramble(u)
				case "delete":
					err = st.Delete(u)
					delete(want, name)
				case "replace":
					want = map[string]string{name: Str(u)}
					err = st.Replace([]Obj{u}, "")
				}
				if err != nil {
					return core.V("%s: %v", o.name, err)
				}
				for round := 0; round < 2; round++ {
					got := map[string]string{}
					for _, o := range st.List() {
						got[o.GetNamespace()+"/"+o.GetName()] = Str(o)
						Scramble(o)
					}
					if !reflect.DeepEqual(got, want) {
						return core.V("after %s the store has %v, not %v", o.name, got, want)
					}
					for k := range keys[:2] {
						u, ok, err := st.Get(New(g, keys[k], M{}))
						w, wok := want[keys[k].String()]
						if err != nil || ok != wok || ok && Str(u) != w {
							return core.V("get after %s: %v %v %s", o.name, err, ok, Str(u))
						}
						Scramble(u)
						u, ok, err = st.GetByKey(keys[k].String())
						if err != nil || ok != wok || ok && Str(u) != w {
							return core.V("get by key after %s: %v %v %s", o.name, err, ok, Str(u))
						}
						Scramble(u)
					}
					if len(st.ListKeys()) != len(want) {
						return core.V("keys after %s: %v", o.name, st.ListKeys())
					}
				}
				t.Step(Str(want))
			}
			t.Out("%s", Str(want))
			return nil
		})
	})
}
