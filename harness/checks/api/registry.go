package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"

	"k8s.io/apimachinery/pkg/runtime/schema"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"

	"verif/core"
	"verif/vrt"
)

var checkP20 = &core.Check{
	Property: "P20", Level: "model_checking",
	Rule: "a case is a history of registrations, compared after every step through all forms of discovery and by using every kind, or one schedule of registrations that happen at the same time; outcomes differ when what is served differs",
	Assumptions: []string{
		"that a group or kind is not there may be answered with any error of the client (4xx)",
		"between the scheduling points (locks and other synchronizing calls of the API server) registrations do not interact",
	},
	Run: runP20,
}

// world20 is what is registered: the kinds of each group.
type world20 map[string]map[schema.GroupVersionKind]bool

func (w world20) String() string {
	var ret []string
	for _, ks := range w {
		for k := range ks {
			ret = append(ret, k.Group[:3]+"/"+k.Kind)
		}
	}
	sort.Strings(ret)
	return strings.Join(ret, ",")
}

type regOp struct {
	name string
	do   func(s *server) error
	// model changes the reference; an operation that is not in use in a state returns false.
	model func(w world20) bool
}

var (
	k1v, k1w, k1u = gvk("op1", "V"), gvk("op1", "W"), gvk("op1", "U")
	k2v           = gvk("op2", "V")
	native        = schema.GroupVersionKind{Group: "apps", Version: "v1", Kind: "Deployment"}
)

func kinds(ks ...schema.GroupVersionKind) []schema.GroupVersionKind { return ks }

func kindNames(ks []schema.GroupVersionKind) string {
	var ret []string
	for _, k := range ks {
		g := k.Group
		if len(g) > 4 {
			g = g[:3]
		}
		ret = append(ret, g+"/"+k.Kind)
	}
	return "{" + strings.Join(ret, " ") + "}"
}

func set20(w world20, ks []schema.GroupVersionKind) {
	fresh := map[string]bool{}
	for _, k := range ks {
		if !viewv1a1.IsViewGroup(k.Group) {
			continue
		}
		if !fresh[k.Group] {
			fresh[k.Group] = true
			w[k.Group] = map[schema.GroupVersionKind]bool{}
		}
		w[k.Group][k] = true
	}
}

func register(ks ...schema.GroupVersionKind) regOp {
	return regOp{"register " + kindNames(ks), func(s *server) error { return s.api.RegisterGVKs(ks) },
		func(w world20) bool { set20(w, ks); return true }}
}

func registerGroup(g string, ks ...schema.GroupVersionKind) regOp {
	return regOp{fmt.Sprintf("register group %s %s", g[:4], kindNames(ks)), func(s *server) error { return s.api.RegisterAPIGroup(g, ks) },
		func(w world20) bool {
			delete(w, g)
			set20(w, ks)
			return true
		}}
}

func unregister(ks ...schema.GroupVersionKind) regOp {
	return regOp{"unregister " + kindNames(ks), func(s *server) error { s.api.UnregisterGVKs(ks); return nil },
		func(w world20) bool {
			for _, k := range ks {
				delete(w, k.Group)
			}
			return true
		}}
}

func unregisterGroup(g string) regOp {
	return regOp{"unregister group " + g[:4], func(s *server) error { s.api.UnregisterAPIGroup(g); return nil },
		func(w world20) bool { delete(w, g); return true }}
}

var allKinds = kinds(k1v, k1w, k1u, k2v)

// observe compares what the server offers with the reference.
func observe(s *server, w world20) error {
	type group struct{ kinds, verbs map[string]string }
	want := map[string][]string{}
	for g, ks := range w {
		for k := range ks {
			want[g] = append(want[g], k.Kind)
		}
		sort.Strings(want[g])
	}
	get := func(path, accept string) answer {
		return s.do(request{method: "GET", path: path, head: map[string]string{"Accept": accept}})
	}
	list := func(v any) []any { l, _ := v.([]any); return l }
	obj := func(v any) map[string]any { m, _ := v.(map[string]any); return m }
	// All groups.
	a := get("/apis", "application/json")
	if a.code != 200 {
		return core.V("GET /apis: %s", a)
	}
	var got, exp []string
	for _, g := range list(a.object()["groups"]) {
		m := obj(g)
		var vs []string
		for _, v := range list(m["versions"]) {
			vs = append(vs, fmt.Sprint(obj(v)["groupVersion"]))
		}
		got = append(got, fmt.Sprintf("%v %v preferred %v", m["name"], vs, obj(m["preferredVersion"])["groupVersion"]))
	}
	for _, g := range keysOf(want) {
		gv := g + "/" + viewv1a1.Version
		exp = append(exp, fmt.Sprintf("%v %v preferred %v", g, []string{gv}, gv))
	}
	sort.Strings(got)
	if canon(got) != canon(exp) {
		return core.V("/apis lists the groups %q, registered is %q", got, exp)
	}
	// All groups with their kinds.
	verbs := map[string]string{}
	a = get("/apis", "application/json;g=apidiscovery.k8s.io;v=v2;as=APIGroupDiscoveryList")
	if a.code != 200 {
		return core.V("aggregated discovery: %s", a)
	}
	got, exp = nil, nil
	sortVerbs := func(v any) string {
		var vs []string
		for _, x := range list(v) {
			vs = append(vs, fmt.Sprint(x))
		}
		sort.Strings(vs)
		return strings.Join(vs, ",")
	}
	for _, g := range list(a.object()["items"]) {
		name := fmt.Sprint(obj(obj(g)["metadata"])["name"])
		for _, v := range list(obj(g)["versions"]) {
			if len(list(obj(v)["resources"])) == 0 {
				got = append(got, fmt.Sprintf("%s/%v without kinds", name, obj(v)["version"]))
			}
			for _, r := range list(obj(v)["resources"]) {
				m, k := obj(r), obj(obj(r)["responseKind"])
				got = append(got, fmt.Sprintf("%s/%v %v = %v/%v %v %v %v", name, obj(v)["version"], m["resource"], k["group"], k["version"], k["kind"], m["scope"], m["singularResource"]))
				verbs[name+"/"+fmt.Sprint(k["kind"])] = sortVerbs(m["verbs"])
			}
		}
	}
	for _, g := range keysOf(want) {
		for _, k := range want[g] {
			r := strings.ToLower(k)
			exp = append(exp, fmt.Sprintf("%s/%s %s = %s/%s %s Namespaced %s", g, viewv1a1.Version, r, g, viewv1a1.Version, k, r))
		}
	}
	sort.Strings(got)
	sort.Strings(exp)
	if canon(got) != canon(exp) {
		return core.V("aggregated discovery lists %q, registered is %q", got, exp)
	}
	// Each group.
	for _, g := range []string{group1, group2} {
		gv := g + "/" + viewv1a1.Version
		a, b := get("/apis/"+g, "application/json"), get("/apis/"+gv, "application/json")
		if len(want[g]) == 0 {
			if a.code/100 != 4 || b.code/100 != 4 {
				return core.V("group %s is not registered, but discovery answers %s and, for its version, %s", g, a, b)
			}
			continue
		}
		if a.code != 200 || b.code != 200 {
			return core.V("group %s is registered, but discovery answers %s and, for its version, %s", g, a, b)
		}
		m := a.object()
		var vs []string
		for _, v := range list(m["versions"]) {
			vs = append(vs, fmt.Sprint(obj(v)["groupVersion"]))
		}
		if x, y := fmt.Sprint(m["name"], vs, obj(m["preferredVersion"])["groupVersion"]), fmt.Sprint(g, []string{gv}, gv); x != y {
			return core.V("discovery of %s answers %s instead of %s", g, x, y)
		}
		m = b.object()
		got, exp = nil, nil
		for _, r := range list(m["resources"]) {
			m := obj(r)
			got = append(got, fmt.Sprintf("%v %v %v %v", m["kind"], m["name"], m["singularName"], m["namespaced"]))
			v := sortVerbs(m["verbs"])
			if o := verbs[g+"/"+fmt.Sprint(m["kind"])]; o != v {
				return core.V("discovery of %s lists the verbs %q for %v, the aggregated one %q", gv, v, m["kind"], o)
			}
			for _, x := range []string{"get", "list", "watch", "create", "update", "patch", "delete"} {
				if !strings.Contains(","+v+",", ","+x+",") {
					return core.V("discovery of %s does not list verb %s for %v", gv, x, m["kind"])
				}
			}
		}
		for _, k := range want[g] {
			r := strings.ToLower(k)
			exp = append(exp, fmt.Sprintf("%v %v %v true", k, r, r))
		}
		sort.Strings(got)
		if canon(got) != canon(exp) || m["groupVersion"] != gv {
			return core.V("discovery of %v lists %q, registered in %s is %q", m["groupVersion"], got, gv, exp)
		}
	}
	// Each kind.
	for _, k := range allKinds {
		coll := restAPI + k.Group + "/" + k.Version + "/namespaces/d/" + strings.ToLower(k.Kind)
		o := object(k.Group, k.Kind, "d", "n", "data "+k.Kind)
		in := w[k.Group][k]
		steps := []struct {
			request
			code int
		}{
			{request{method: "GET", path: coll}, 200},
			{request{method: "POST", path: coll, body: canon(o)}, 201},
			{request{method: "GET", path: coll + "/n"}, 200},
			{request{method: "PUT", path: coll + "/n", body: canon(o)}, 200},
			{request{method: "PATCH", path: coll + "/n", head: map[string]string{"Content-Type": "application/merge-patch+json"}, body: `{"x":"1"}`}, 200},
			{request{method: "GET", path: restAPI + k.Group + "/" + k.Version + "/" + strings.ToLower(k.Kind) + "?watch=true", stream: true}, 200},
			{request{method: "DELETE", path: coll + "/n"}, 200},
		}
		for _, st := range steps {
			a := s.do(st.request)
			if in && a.code != st.code {
				return core.V("%s is registered, but %s is answered with %s", k, st.request, a)
			}
			if !in && a.code/100 != 4 {
				return core.V("%s is not registered, but %s is answered with %s", k, st.request, a)
			}
			if in && st.code == 200 && !st.stream && st.method == "GET" {
				kind := k.Kind
				if st.path == coll {
					kind += "List"
				}
				if m := a.object(); m["kind"] != kind || m["apiVersion"] != k.GroupVersion().String() {
					return core.V("%s is answered with a %v of %v", st.request, m["kind"], m["apiVersion"])
				}
			}
		}
	}
	return nil
}

func runP20(r *core.Run) {
	ops := []regOp{
		register(k1v), register(k1w), register(k1v, k1w), register(k2v), register(k2v, k1v), register(k1w, k2v, k1u), register(native), register(),
		registerGroup(group1), registerGroup(group1, k1u), registerGroup(group1, k1w, k1v), registerGroup("apps", native),
		unregister(k1v, k1w, k1u), unregister(k1v, k1w, k1u, k2v), unregister(), unregister(native),
		unregisterGroup(group1), unregisterGroup(group2), unregisterGroup("op3.view.dcontroller.io"),
	}
	// Many kinds.
	many := kinds(k1v, k2v)
	for i := range 45 {
		many = append(many, gvk([]string{"op1", "op1", "op2"}[i%3], fmt.Sprintf("Kind%d", i)))
	}
	crowd := len(ops)
	few := ops
	ops = append(ops[:crowd:crowd], register(many...), unregister(many...))
	// Histories. Those that register nothing first add little.
	depth := r.Pick(2, 3)
	var hs [][]int
	for _, order := range []int{vrt.Asc, vrt.Desc} {
		vrt.SetOrder(order)
		hs = nil
		var gen func(h []int)
		gen = func(h []int) {
			if len(h) == depth {
				hs = append(hs, append([]int{}, h...))
				return
			}
			for i := range few {
				gen(append(h, i))
			}
		}
		for i := range few {
			gen([]int{i})
		}
		for i := range ops {
			hs = append(hs, []int{i, crowd}, []int{crowd, i})
		}
		if order == vrt.Asc {
			depth++
			for _, first := range []int{2, 4, 5, 10} {
				gen([]int{first})
			}
			depth--
		}
		r.Space("histories", "operations", len(ops), "depth", depth, "histories", len(hs), "map_order", order)
		r.Parallel(len(hs), func(i int) {
			var names []string
			for _, o := range hs[i] {
				names = append(names, ops[o].name)
			}
			r.Exec(fmt.Sprintf("%s (order %d)", strings.Join(names, "; "), order), names, func(t *core.T) error {
				s := newServer(nil)
				defer s.stop()
				w := world20{}
				for j, o := range hs[i] {
					if err := ops[o].do(s); err != nil {
						return core.V("%s: %v", strings.Join(names[:j+1], "; "), err)
					}
					ops[o].model(w)
					// Earlier steps have been looked at in other histories, but requests may have effects.
					if err := observe(s, w); err != nil {
						return core.V("after %s: %v", strings.Join(names[:j+1], "; "), err)
					}
					t.Step(w.String())
				}
				t.Out("%s", w)
				return nil
			})
		})
	}
	vrt.SetOrder(vrt.Asc)
	concurrent20(r)
}

var checkP22 = &core.Check{
	Property: "P22", Level: "model_checking",
	Rule: "a case is one schedule of a registration and a request, or of two requests, at the same time; outcomes differ when the answers differ",
	Assumptions: []string{
		"between the scheduling points (locks and other synchronizing calls of the API server) a registration and the processing of a request interact only through data races, which the race detector sees whatever the order",
	},
	Run: busy22,
}

// tokens are the parts of a document, in no particular order.
func tokens(b []byte) string {
	ts := strings.FieldsFunc(string(b), func(c rune) bool { return strings.ContainsRune("{}[],", c) })
	sort.Strings(ts)
	return strings.Join(ts, ",")
}

// busy22 explores schedules of a registration and a request at the same time: the request is answered as before or
// as after the registration.
func busy22(r *core.Run) {
	regs := []regOp{register(k1v), register(k1w), register(k1v, k1w), register(k1w, k2v), registerGroup(group1, k1u), unregisterGroup(group1), unregister(k1v, k2v)}
	// What concerns several groups happens group by group.
	parts := map[string][]regOp{
		regs[3].name: {register(k1w), register(k2v)},
		regs[6].name: {unregister(k1v), unregister(k2v)},
	}
	inits := [][]schema.GroupVersionKind{nil, kinds(k1v), kinds(k1v, k1w, k2v)}
	get := func(path, accept string) request {
		return request{method: "GET", path: path, head: map[string]string{"Accept": accept}}
	}
	type asked struct {
		request
		whole bool // the whole answer matters, not just its code
	}
	gv := restAPI + group1 + "/" + viewv1a1.Version
	v, w := gv+"/namespaces/d/v", gv+"/namespaces/d/w"
	requests := []asked{
		{get("/apis", "application/json"), true},
		{get("/apis", "application/json;g=apidiscovery.k8s.io;v=v2;as=APIGroupDiscoveryList"), true},
		{get(restAPI+group1, "application/json"), true},
		{get(gv, "application/json"), true},
		{get(v, "application/json"), true},
		{get(v, "application/json;as=Table;g=meta.k8s.io;v=v1"), false},
		{get(w, "application/json"), true},
		{request{method: "POST", path: v, body: canon(object(group1, "V", "d", "n", "x"))}, false},
		{request{method: "PUT", path: v + "/o", body: canon(object(group1, "V", "d", "o", "x"))}, false},
		{request{method: "PATCH", path: v + "/o", head: map[string]string{"Content-Type": "application/merge-patch+json"}, body: `{"x":"1"}`}, false},
		{request{method: "DELETE", path: v + "/o"}, false},
		{request{method: "GET", path: gv + "/v?watch=true", stream: true}, false},
	}
	type scenario struct {
		init []schema.GroupVersionKind
		reg  regOp
		req  asked
	}
	var scs []scenario
	vrt.SetOrder(vrt.Asc)
	for _, in := range inits {
		for _, g := range regs {
			for _, q := range requests {
				scs = append(scs, scenario{in, g, q})
			}
		}
	}
	start := func(sc scenario) (*server, error) {
		s := newServer(nil)
		s.settle()
		if err := s.api.RegisterGVKs(sc.init); err != nil {
			s.stop()
			return nil, core.V("register %s: %v", kindNames(sc.init), err)
		}
		if len(sc.init) > 0 {
			if a := s.do(request{method: "POST", path: v, body: canon(object(group1, "V", "d", "o", "o"))}); a.code != 201 {
				s.stop()
				return nil, core.V("%s is registered, but an object cannot be created: %s", kindNames(sc.init), a)
			}
		}
		return s, nil
	}
	show := func(q asked, a answer) string {
		switch {
		case !q.whole || a.code/100 != 2:
			return fmt.Sprint(a.code / 100)
		}
		return fmt.Sprintf("%d %s", a.code/100, tokens(volatile.ReplaceAll(a.body, nil)))
	}
	counts := make([]int, len(scs))
	r.Parallel(len(scs), func(i int) {
		sc := scs[i]
		id := fmt.Sprintf("%s; %s || %s", kindNames(sc.init), sc.reg.name, sc.req.request)
		alone := map[string]bool{}
		ok := r.Exec(id+" (one after the other)", nil, func(t *core.T) error {
			before := []regOp{{"", func(*server) error { return nil }, nil}, sc.reg}
			for _, reg := range append(before, parts[sc.reg.name]...) {
				s, err := start(sc)
				if err != nil {
					return err
				}
				defer s.stop()
				if err := reg.do(s); err != nil {
					return core.V("%s: %v", reg.name, err)
				}
				alone[show(sc.req, s.do(sc.req.request))] = true
			}
			t.Out("%d", len(alone))
			return nil
		})
		if !ok {
			return
		}
		counts[i] = r.Explore(id, 1, func(t *core.T, c *core.Choices) error {
			return raceless(c, func(c *core.Choices) error {
				s, err := start(sc)
				if err != nil {
					return err
				}
				defer s.stop()
				var regErr error
				var a answer
				res := vrt.RunAmong(c.Trail(), c.Limit(), func() { regErr = sc.reg.do(s) }, func() { a = s.do(sc.req.request) })
				c.Adopt(res.Trail, res.Width)
				switch {
				case res.Panic != "":
					return core.V("a thread panics: %s", res.Panic)
				case res.Deadlock:
					return core.V("the threads deadlock")
				case regErr != nil:
					return core.V("%s: %v", sc.reg.name, regErr)
				}
				got := show(sc.req, a)
				if !alone[got] {
					return core.V("the answer %s is neither that from before nor that from after the registration", a)
				}
				w := world20{}
				set20(w, sc.init)
				sc.reg.model(w)
				t.Step(fmt.Sprint(a.code))
				t.Out("%s", got)
				return observe(s, w)
			})
		})
	})
	sum := 0
	for _, n := range counts {
		sum += n
	}
	r.Space("registration and request", "scenarios", len(scs), "preemption_bound", 1, "schedules", sum)
	// Two requests at the same time.
	type pair struct {
		init []schema.GroupVersionKind
		a, b asked
	}
	var ps []pair
	more := append(requests, asked{get("/openapi/v2", "application/json"), false}, asked{get("/openapi/v3", "application/json"), false},
		asked{request{method: "DELETE", path: v}, false},
		asked{request{method: "PATCH", path: v + "/o", head: map[string]string{"Content-Type": "application/json-patch+json"}, body: `[{"op":"add","path":"/y","value":"1"}]`}, false})
	for _, in := range inits[1:] {
		for i := range more {
			for j := i; j < len(more); j++ {
				ps = append(ps, pair{in, more[i], more[j]})
			}
		}
	}
	r.Parallel(len(ps), func(i int) {
		p := ps[i]
		r.Exec(fmt.Sprintf("%s: %s || %s", kindNames(p.init), p.a.request, p.b.request), nil, func(t *core.T) error {
			return raceless(&core.Choices{}, func(*core.Choices) error {
				s, err := start(scenario{init: p.init})
				if err != nil {
					return err
				}
				defer s.stop()
				var as [2]answer
				var wg sync.WaitGroup
				for i, q := range []asked{p.a, p.b} {
					wg.Add(1)
					go func() { defer wg.Done(); as[i] = s.do(q.request) }()
				}
				wg.Wait()
				for i, q := range []asked{p.a, p.b} {
					if as[i].code/100 != 2 && as[i].code/100 != 4 {
						return core.V("%s is answered with %s", q.request, as[i])
					}
				}
				t.Step(fmt.Sprint(as[0].code/100, as[1].code/100))
				t.Out("%d %d", as[0].code/100, as[1].code/100)
				return nil
			})
		})
	})
	r.Space("two requests", "pairs", len(ps))
}

// volatile is what differs from server to server.
var volatile = regexp.MustCompile(`"(uid|creationTimestamp|resourceVersion|serverAddress)":"[^"]*"`)

// still keeps executions apart when a race has to be attributed to one of them.
var still sync.RWMutex

// raceless runs an execution and reports data races in it.
func raceless(c *core.Choices, f func(c *core.Choices) error) error {
	once := func(c *core.Choices) (error, int) {
		before := vrt.Races()
		err := f(c)
		return err, vrt.Races() - before
	}
	still.RLock()
	trail := append([]int{}, c.Trail()...)
	err, races := once(c)
	still.RUnlock()
	if err != nil || races == 0 {
		return err
	}
	// Somebody raced. Was it this case?
	still.Lock()
	defer still.Unlock()
	c2 := *c
	c2.Adopt(trail, nil)
	err, races = once(&c2)
	if err == nil && races > 0 {
		err = core.V("data race:\n%s", vrt.LastRace())
	}
	return err
}

// concurrent20 explores schedules of registrations at the same time.
func concurrent20(r *core.Run) {
	regs := []regOp{register(k1v), register(k1w), register(k1v, k1w), register(k2v), registerGroup(group1, k1u), unregisterGroup(group1), unregister(k1v, k1w, k2v)}
	type scenario struct {
		init    *regOp
		threads []regOp
	}
	var scs []scenario
	two := register(k1v, k1w)
	for i := range regs {
		for j := i; j < len(regs); j++ {
			scs = append(scs, scenario{nil, []regOp{regs[i], regs[j]}}, scenario{&two, []regOp{regs[i], regs[j]}})
			if r.Thorough() {
				for k := j; k < len(regs); k++ {
					scs = append(scs, scenario{&two, []regOp{regs[i], regs[j], regs[k]}})
				}
			}
		}
	}
	bound := r.Pick(2, 3)
	counts := make([]int, len(scs))
	r.Parallel(len(scs), func(i int) {
		sc := scs[i]
		var names []string
		for _, o := range sc.threads {
			names = append(names, o.name)
		}
		id := strings.Join(names, " || ")
		if sc.init != nil {
			id = sc.init.name + "; " + id
		}
		counts[i] = r.Explore(id, bound, func(t *core.T, c *core.Choices) error {
			s := newServer(nil)
			defer s.stop()
			s.settle()
			base := world20{}
			if sc.init != nil {
				if err := sc.init.do(s); err != nil {
					return core.V("%s: %v", sc.init.name, err)
				}
				sc.init.model(base)
			}
			errs := make([]error, len(sc.threads))
			var bodies []func()
			for j := range sc.threads {
				bodies = append(bodies, func() { errs[j] = sc.threads[j].do(s) })
			}
			res := vrt.RunAmong(c.Trail(), c.Limit(), bodies...)
			c.Adopt(res.Trail, res.Width)
			switch {
			case res.Panic != "":
				return core.V("a thread panics: %s", res.Panic)
			case res.Deadlock:
				return core.V("the threads deadlock")
			}
			for j, err := range errs {
				if err != nil {
					return core.V("%s: %v", names[j], err)
				}
			}
			// One of the orders must explain what is served: operations on several groups are several operations.
			var first error
			for _, w := range outcomes(base, sc.threads) {
				err := observe(s, w)
				if err == nil {
					t.Step(w.String())
					t.Out("%s", w)
					return nil
				}
				if first == nil {
					first = err
				}
			}
			return core.V("no order of the registrations explains this: %v", first)
		})
	})
	sum := 0
	for _, n := range counts {
		sum += n
	}
	r.Space("schedules", "scenarios", len(scs), "preemption_bound", bound, "schedules", sum)
}

// outcomes are the states that the operations may lead to, in any order, group by group.
func outcomes(base world20, ops []regOp) []world20 {
	byGroup := map[string]map[string]map[schema.GroupVersionKind]bool{group1: {}, group2: {}}
	var perm func(left []int, w world20)
	perm = func(left []int, w world20) {
		if len(left) == 0 {
			for g := range byGroup {
				byGroup[g][canon(kindList(w[g]))] = w[g]
			}
			return
		}
		for i, o := range left {
			n := world20{}
			for g, ks := range w {
				n[g] = ks
			}
			ops[o].model(n)
			rest := append(append([]int{}, left[:i]...), left[i+1:]...)
			perm(rest, n)
		}
	}
	var all []int
	for i := range ops {
		all = append(all, i)
	}
	perm(all, base)
	var ret []world20
	for _, a := range keysOf(byGroup[group1]) {
		for _, b := range keysOf(byGroup[group2]) {
			w := world20{}
			if x := byGroup[group1][a]; len(x) > 0 {
				w[group1] = x
			}
			if x := byGroup[group2][b]; len(x) > 0 {
				w[group2] = x
			}
			ret = append(ret, w)
		}
	}
	return ret
}

func kindList(ks map[schema.GroupVersionKind]bool) []string {
	var ret []string
	for k := range ks {
		ret = append(ret, k.Kind)
	}
	sort.Strings(ret)
	return ret
}
