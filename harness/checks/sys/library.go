package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-logr/logr"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/rest"
	"k8s.io/klog/v2"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/controller"
	"sigs.k8s.io/controller-runtime/pkg/log"
	"sigs.k8s.io/controller-runtime/pkg/reconcile"
	"sigs.k8s.io/yaml"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/operator"
	"github.com/l7mp/dcontroller/pkg/reconciler"

	"verif/core"
	"verif/kapi"
	. "verif/vobj"
)

// setting is how operators are made.
type setting struct {
	name   string
	kube   bool // with a Kubernetes config
	shared bool // all use the same storage
	file   bool // the specification is in a file
}

var settings = []setting{
	{"headless", false, false, false},
	{"headless, shared", false, true, true},
	{"Kubernetes", true, false, true},
	{"Kubernetes, shared", true, true, false},
}

// run is one life of an operator made from Go.
type run struct {
	name   string
	life   int
	op     *operator.Operator
	errs   chan error
	cancel context.CancelFunc
	ended  chan error
	seen   map[string]map[string]bool // kind -> keys that were there when all had settled
	bad    int                        // how many times something it cannot evaluate came up
	// what the Go controller was asked for
	mu   sync.Mutex
	last map[string]reconciler.Request
	odd  string
}

func (r *run) running() bool { return r != nil && r.ended != nil }

// lib is a Go program that uses operators.
type lib struct {
	setting
	k      *kapi.Server
	cfg    *rest.Config
	cache  cache.Cache
	client client.Client
	stop   context.CancelFunc
	wg     sync.WaitGroup
	dir    string
	ops    map[string]*run // op1, op2
	in     map[string]string
	ever   map[string]bool
	val    int
	lives  int
	frozen map[string]map[string]map[string]M // operator that does not run -> kind -> what there is of it
}

func newLib(s setting) *lib {
	quiet.Do(func() {
		klog.SetLogger(logr.Discard())
		log.SetLogger(logr.Discard())
	})
	l := &lib{setting: s, ops: map[string]*run{}, in: map[string]string{}, ever: map[string]bool{}, frozen: map[string]map[string]map[string]M{}}
	ctx, cancel := context.WithCancel(context.Background())
	l.stop = cancel
	if s.kube {
		l.k = kapi.New(kubeKinds...)
		l.cfg = l.k.Config()
	}
	switch {
	case s.shared && s.kube:
		api, err := cache.NewAPI(l.cfg, cache.APIOptions{})
		if err != nil {
			core.Abort("shared storage: %v", err)
		}
		l.cache, l.client = api.Cache, api.Client
		l.wg.Add(1)
		go func() { defer l.wg.Done(); _ = api.Cache.Start(ctx) }()
	case s.shared:
		vc := cache.NewViewCache(cache.CacheOptions{})
		l.cache, l.client = vc, vc.GetClient()
		l.wg.Add(1)
		go func() { defer l.wg.Done(); _ = vc.Start(ctx) }()
	}
	return l
}

func (l *lib) destroy() error {
	var err error
	for _, n := range []string{"op1", "op2"} {
		if e := l.down(n); err == nil {
			err = e
		}
	}
	l.stop()
	l.wg.Wait()
	if l.k != nil {
		l.k.Stop()
	}
	if l.dir != "" {
		_ = os.RemoveAll(l.dir)
	}
	return err
}

func (l *lib) tag(r *run, c string) string { return fmt.Sprintf("%s.%s.%d", r.name, c, r.life) }

// spec is the specification of an operator.
func (l *lib) spec(r *run) M {
	ctl := func(name string, src, dst place) M {
		return M{"name": name, "sources": []any{resource(src)}, "target": resource(dst),
			"pipeline": M{"@project": M{"metadata": M{"name": "$.metadata.name", "namespace": "$.metadata.namespace"},
				"data": M{"tag": l.tag(r, name), "val": "$.data.val", "num": M{"@string": M{"@add": []any{M{"@int": "$.data.val"}, 1}}}}}}}
	}
	if r.name == "op2" {
		b := ctl("b", "op1.Out", "op2.Far")
		b["pipeline"] = []any{M{"@unwind": M{"@nope": 1}}, M{"@join": 1}}
		return M{"controllers": []any{b, ctl("c1", "op1.Out", "op2.Far")}}
	}
	cs := []any{ctl("c1", "op1.In", "op1.Out")}
	if l.kube {
		cs = append(cs, ctl("c2", "op1.Out", "widget"))
	}
	return M{"controllers": cs}
}

// made gives the names of the controllers of an operator.
func (l *lib) made(op string) []string {
	switch {
	case op == "op2":
		return []string{"b", "c1"} // one is broken
	case l.kube:
		return []string{"c1", "c2", "go"}
	}
	return []string{"c1", "go"}
}

// make makes an operator.
func (l *lib) make(name string) error {
	l.lives++
	r := &run{name: name, life: l.lives, errs: make(chan error, 64), seen: map[string]map[string]bool{}, last: map[string]reconciler.Request{}}
	opts := operator.Options{Cache: l.cache, ErrorChannel: r.errs}
	b, err := yaml.Marshal(l.spec(r))
	if err != nil {
		core.Abort("%v", err)
	}
	if l.file {
		if l.dir == "" {
			if l.dir, err = os.MkdirTemp("", "verif-lib"); err != nil {
				core.Abort("%v", err)
			}
		}
		f := filepath.Join(l.dir, name+".yaml")
		if _, err := operator.NewFromFile(name, l.cfg, f+".none", opts); err == nil {
			return core.V("an operator is made from a file that is not there")
		}
		if err := os.WriteFile(f, b, 0o600); err != nil {
			core.Abort("%v", err)
		}
		r.op, err = operator.NewFromFile(name, l.cfg, f, opts)
		if err != nil {
			return core.V("making operator %s from a file: %v", name, err)
		}
	} else {
		var s opv1a1.OperatorSpec
		if err := yaml.Unmarshal(b, &s); err != nil {
			core.Abort("%v", err)
		}
		if r.op, err = operator.New(name, l.cfg, opts); err != nil {
			return core.V("making operator %s: %v", name, err)
		}
		r.op.AddSpec(&s)
	}
	if name == "op1" {
		on := true
		c, err := controller.NewTyped("go", r.op.GetManager(), controller.TypedOptions[reconciler.Request]{SkipNameValidation: &on, Reconciler: &reactor{l, r}})
		if err != nil {
			return core.V("making a Go controller: %v", err)
		}
		src, err := reconciler.NewSource(r.op.GetManager(), name, opv1a1.Source{Resource: opv1a1.Resource{Kind: "Out"}}).GetSource()
		if err == nil {
			err = c.Watch(src)
		}
		if err == nil {
			err = r.op.AddNativeController("go", c, []schema.GroupVersionKind{GVK("op1", "Fin"), GVK("op1", "Out"), GVK("op9", "Not")})
		}
		if err != nil {
			return core.V("adding a Go controller: %v", err)
		}
	}
	l.ops[name] = r
	if !l.shared && name == "op1" {
		l.in = map[string]string{}
	}
	if l.frozen[name] == nil || !l.shared {
		return l.freeze(name)
	}
	return nil
}

// reactor is a controller written in Go: it keeps Fin like Out.
type reactor struct {
	l *lib
	r *run
}

func (g *reactor) Reconcile(ctx context.Context, req reconciler.Request) (reconcile.Result, error) {
	r := g.r
	r.mu.Lock()
	r.last[req.Name] = req
	if req.Namespace != "ns" || req.GVK != GVK("op1", "Out") || req.Object == nil || req.Object.GetName() != req.Name || req.Object.GetNamespace() != "ns" {
		r.odd = fmt.Sprintf("a Go controller is asked for %s with %s", req.String(), object.Dump(req.Object))
	}
	r.mu.Unlock()
	c := r.op.GetClient()
	k := types.NamespacedName{Namespace: req.Namespace, Name: req.Name}
	if req.EventType == object.Deleted {
		return reconcile.Result{}, client.IgnoreNotFound(c.Delete(ctx, New(GVK("op1", "Fin"), k, M{})))
	}
	out := New(req.GVK, k, M{})
	if err := c.Get(ctx, k, out); err != nil {
		return reconcile.Result{}, client.IgnoreNotFound(err)
	}
	d, _ := out.Object["data"].(M)
	fin := New(GVK("op1", "Fin"), k, M{})
	err := c.Get(ctx, k, fin)
	if apierrors.IsNotFound(err) {
		return reconcile.Result{}, c.Create(ctx, New(GVK("op1", "Fin"), k, M{"data": M{"tag": g.l.tag(r, "go"), "val": d["val"]}}))
	} else if err != nil {
		return reconcile.Result{}, err
	}
	fin.Object["data"] = M{"tag": g.l.tag(r, "go"), "val": d["val"]}
	return reconcile.Result{}, c.Update(ctx, fin)
}

// reader is what reads the storage of an operator; there may be none.
func (l *lib) reader(op string) client.Client {
	if l.shared {
		return l.client
	}
	if r := l.ops[op]; r != nil {
		return r.op.GetClient()
	}
	return nil
}

// content gives what there is of a kind in the storage of an operator.
func (l *lib) content(op, kind string) (map[string]M, error) {
	out := map[string]M{}
	if kind == "widget" {
		for _, o := range l.k.List("widgets") {
			d, _ := o["data"].(M)
			out[o["metadata"].(M)["name"].(string)] = d
		}
		return out, nil
	}
	c := l.reader(op)
	if c == nil {
		return out, nil
	}
	vop, view, _ := strings.Cut(kind, ".")
	list := List(GVK(vop, view))
	if err := c.List(context.Background(), list); err != nil {
		return nil, err
	}
	for i := range list.Items {
		d, ok := list.Items[i].Object["data"].(M)
		if !ok {
			d = M{}
		}
		out[list.Items[i].GetName()] = d
	}
	return out, nil
}

// targets are the kinds that an operator writes.
func (l *lib) targets(op string) []string {
	switch {
	case op == "op2":
		return []string{"op2.Far"}
	case l.kube:
		return []string{"op1.Out", "op1.Fin", "widget"}
	}
	return []string{"op1.Out", "op1.Fin"}
}

func (l *lib) freeze(op string) error {
	m := map[string]map[string]M{}
	for _, t := range l.targets(op) {
		c, err := l.content(op, t)
		if err != nil {
			return core.V("%s cannot be read: %v", t, err)
		}
		m[t] = c
	}
	l.frozen[op] = m
	return nil
}

// still checks that operators that do not run change nothing.
func (l *lib) still() error {
	for op, m := range l.frozen {
		if !l.shared && l.ops[op] == nil {
			continue
		}
		for t, was := range m {
			is, err := l.content(op, t)
			if err != nil {
				return core.V("%s cannot be read: %v", t, err)
			}
			if !reflect.DeepEqual(is, was) {
				return core.V("operator %s is not running, but %s changed from %s to %s", op, t, Str(was), Str(is))
			}
		}
	}
	return nil
}

func (l *lib) down(op string) error {
	r := l.ops[op]
	if r == nil {
		return nil
	}
	if r.running() {
		r.cancel()
		select {
		case err := <-r.ended:
			if err != nil {
				return core.V("operator %s ends with %v", op, err)
			}
		case <-time.After(patience):
			return core.V("operator %s does not end when it is told to", op)
		}
		if err := l.freeze(op); err != nil {
			return err
		}
	}
	delete(l.ops, op)
	return nil
}

func (l *lib) apply(e event) error {
	ctx := context.Background()
	switch e.kind {
	case "make":
		return l.make(e.arg)
	case "go":
		r := l.ops[e.arg]
		delete(l.frozen, e.arg)
		var c context.Context
		c, r.cancel = context.WithCancel(ctx)
		r.ended = make(chan error, 1)
		go func() { r.ended <- r.op.Start(c) }()
	case "down":
		return l.down(e.arg)
	case "in", "bad":
		c := l.ops[e.arg].op.GetClient()
		l.val++
		v := fmt.Sprint(l.val)
		if e.kind == "bad" {
			v = "bad"
		}
		k := e.kind
		o := New(GVK("op1", "In"), key(k), M{"data": M{"val": v}})
		if l.shared || e.arg == "op1" {
			l.in[k] = v
			l.ever[k] = true
			if r := l.ops["op1"]; e.kind == "bad" && r.running() {
				r.bad++
			}
		}
		old := o.DeepCopy()
		err := c.Get(ctx, key(k), old)
		switch {
		case apierrors.IsNotFound(err):
			err = c.Create(ctx, o)
		case err == nil:
			o.SetResourceVersion(old.GetResourceVersion())
			o.SetUID(old.GetUID())
			err = c.Update(ctx, o)
		}
		if err != nil {
			return core.V("writing with the client of operator %s: %v", e.arg, err)
		}
	case "noin":
		delete(l.in, "in")
		if err := l.ops[e.arg].op.GetClient().Delete(ctx, New(GVK("op1", "In"), key("in"), M{})); err != nil {
			return core.V("deleting with the client of operator %s: %v", e.arg, err)
		}
	}
	return nil
}

// follows complains when a target is not what its source says.
func (l *lib) follows(r *run, c, src, dst string, full bool) string {
	s, err := l.content(r.name, src)
	if err != nil {
		return fmt.Sprintf("%s cannot be read: %v", src, err)
	}
	d, err := l.content(r.name, dst)
	if err != nil {
		return fmt.Sprintf("%s cannot be read: %v", dst, err)
	}
	for k, x := range s {
		if x["val"] == "bad" {
			continue
		}
		want := M{"tag": l.tag(r, c), "val": x["val"]}
		if full {
			want["num"] = fmt.Sprint(num(x["val"]) + 1)
		}
		if !reflect.DeepEqual(map[string]any(d[k]), map[string]any(want)) {
			return fmt.Sprintf("controller %s of %s: %s has %s %s, %s has %s, not %s", c, r.name, src, k, Str(x), dst, Str(d[k]), Str(want))
		}
	}
	for k := range d {
		if s[k] == nil && r.seen[dst][k] {
			return fmt.Sprintf("controller %s of %s: %s has no %s any more, %s still has", c, r.name, src, k, dst)
		}
		if !l.ever[k] {
			return fmt.Sprintf("controller %s of %s: %s has %s, which was never written", c, r.name, dst, k)
		}
	}
	return ""
}

func (l *lib) complaint() string {
	for _, n := range []string{"op1", "op2"} {
		r := l.ops[n]
		if !r.running() {
			continue
		}
		select {
		case err := <-r.ended:
			r.ended <- err
			return fmt.Sprintf("operator %s has ended by itself: %v", n, err)
		default:
		}
		if n == "op2" {
			if s := l.follows(r, "c1", "op1.Out", "op2.Far", true); s != "" {
				return s
			}
			continue
		}
		in, err := l.content(n, "op1.In")
		if err != nil {
			return fmt.Sprintf("op1.In cannot be read: %v", err)
		}
		got := map[string]string{}
		for k, d := range in {
			got[k] = fmt.Sprint(d["val"])
		}
		if !reflect.DeepEqual(got, l.in) {
			return fmt.Sprintf("op1.In has %v, written was %v", got, l.in)
		}
		if s := l.follows(r, "c1", "op1.In", "op1.Out", true); s != "" {
			return s
		}
		if s := l.follows(r, "go", "op1.Out", "op1.Fin", false); s != "" {
			return s
		}
		if l.kube {
			if s := l.follows(r, "c2", "op1.Out", "widget", true); s != "" {
				return s
			}
		}
		out, err := l.content(n, "op1.Out")
		if err != nil {
			return fmt.Sprintf("op1.Out cannot be read: %v", err)
		}
		r.mu.Lock()
		odd := r.odd
		for k, d := range out {
			q, ok := r.last[k]
			if !ok || q.EventType == object.Deleted {
				odd = fmt.Sprintf("op1.Out has %s, but the Go controller was last asked for %s", k, q.String())
				continue
			}
			od, _ := q.Object.UnstructuredContent()["data"].(M)
			if !reflect.DeepEqual(od, d) {
				odd = fmt.Sprintf("op1.Out has %s %s, but the Go controller was last shown %s", k, Str(d), Str(od))
			}
		}
		for k := range r.seen["op1.Out"] {
			if q := r.last[k]; out[k] == nil && q.EventType != object.Deleted {
				odd = fmt.Sprintf("op1.Out has no %s any more, but the Go controller was last asked for %s", k, q.String())
			}
		}
		r.mu.Unlock()
		if odd != "" {
			return odd
		}
		if r.bad > 0 && len(r.errs) == 0 {
			return "no error of op1 reached the channel for errors"
		}
		if st := r.op.GetStatus(7).Controllers; len(st) > 0 && len(st[0].Conditions) == 1 {
			c := st[0].Conditions[0]
			if want := map[bool]string{true: "Unknown", false: "True"}[r.bad > 0]; string(c.Status) != want && !(l.in["bad"] != "" && r.bad == 0) {
				return fmt.Sprintf("controller c1 of op1 is %s, not %s", c.Status, want)
			}
		}
	}
	return ""
}

// facts checks what operators say of themselves.
func (l *lib) facts() error {
	for n, r := range l.ops {
		op := r.op
		if op.GetName() != n || op.GetErrorChannel() != r.errs || op.GetClient() == nil || op.GetManager() == nil || op.GetController("none") != nil {
			return core.V("operator %s is odd", n)
		}
		for _, s := range []string{"", "c", "c11", "C1", "1", "op1", "op2"} {
			if op.GetController(s) != nil {
				return core.V("operator %s has a controller %q", n, s)
			}
		}
		var names []string
		for _, c := range op.ListControllers() {
			names = append(names, c.GetName())
			if op.GetController(c.GetName()) != c {
				return core.V("operator %s: controller %s is not found", n, c.GetName())
			}
		}
		if want := l.made(n); !reflect.DeepEqual(names, want) {
			return core.V("operator %s has the controllers %v, not %v", n, names, want)
		}
		st := op.GetStatus(7)
		if len(st.Controllers) != len(names) {
			return core.V("operator %s: status %s", n, Str(st))
		}
		for i, c := range st.Controllers {
			if c.Name != names[i] || len(c.Conditions) != 1 || c.Conditions[0].ObservedGeneration != 7 || c.Conditions[0].Type != "Ready" {
				return core.V("operator %s: status %s", n, Str(st))
			}
			// writes to Kubernetes may have met with conflicts, c1 with what it cannot evaluate
			s := string(c.Conditions[0].Status)
			if names[i] == "b" {
				if s != "False" || len(c.LastErrors) == 0 || len(r.errs) == 0 {
					return core.V("operator %s: status %s, %d errors in the channel", n, Str(st), len(r.errs))
				}
				continue
			}
			if s != "True" && (s != "Unknown" || n == "op2" || names[i] == "go") {
				return core.V("operator %s: status %s", n, Str(st))
			}
		}
		var gvks []string
		for _, g := range op.GetGVKs() {
			gvks = append(gvks, g.Group+"/"+g.Version+"/"+g.Kind)
		}
		sort.Strings(gvks)
		want := []string{"op1.view.dcontroller.io/v1alpha1/Fin", "op1.view.dcontroller.io/v1alpha1/In", "op1.view.dcontroller.io/v1alpha1/Out"}
		if n == "op2" {
			want = []string{"op2.view.dcontroller.io/v1alpha1/Far"}
		}
		if !reflect.DeepEqual(gvks, want) {
			return core.V("operator %s has the kinds %v, not %v", n, gvks, want)
		}
	}
	return nil
}

func (l *lib) settle() error {
	deadline := time.Now().Add(patience)
	pause := time.Millisecond
	for {
		s := l.complaint()
		if s == "" {
			break
		}
		if time.Now().After(deadline) {
			return core.V("does not come about: %s", s)
		}
		time.Sleep(pause)
		if pause < 20*time.Millisecond {
			pause += pause / 2
		}
	}
	for n, r := range l.ops {
		if !r.running() {
			continue
		}
		// what the life has written itself it must remove again
		for dst, c := range map[string]string{"op1.Out": "c1", "op1.Fin": "go", "widget": "c2", "op2.Far": "c1"} {
			if dst == "widget" && !l.kube || strings.HasPrefix(dst, "op") && dst[:3] != n || dst == "widget" && n != "op1" {
				continue
			}
			m, err := l.content(n, dst)
			if err != nil {
				return core.V("%s cannot be read: %v", dst, err)
			}
			if r.seen[dst] == nil {
				r.seen[dst] = map[string]bool{}
			}
			for k, d := range m {
				if d["tag"] == l.tag(r, c) {
					r.seen[dst][k] = true
				}
			}
		}
	}
	return nil
}

func (l *lib) summary() string {
	var b strings.Builder
	for _, op := range []string{"op1", "op2"} {
		fmt.Fprintf(&b, "%s:%v,%v ", op, l.ops[op] != nil, l.ops[op].running())
		for _, t := range l.targets(op) {
			c, _ := l.content(op, t)
			fmt.Fprintf(&b, "%s=%s ", t, Str(c))
		}
	}
	return b.String() + Str(l.in)
}

// lstate decides which events make sense.
type lstate struct {
	st      map[string]int // 0 none, 1 made, 2 running
	in, bad bool
}

func (s lstate) next(l setting, e event) (lstate, bool) {
	n := lstate{map[string]int{"op1": s.st["op1"], "op2": s.st["op2"]}, s.in, s.bad}
	a := e.arg
	switch e.kind {
	case "make":
		if s.st[a] != 0 {
			return s, false
		}
		n.st[a] = 1
		if !l.shared && a == "op1" {
			n.in, n.bad = false, false
		}
	case "go":
		if s.st[a] != 1 {
			return s, false
		}
		n.st[a] = 2
	case "down":
		if s.st[a] == 0 {
			return s, false
		}
		n.st[a] = 0
		if !l.shared && a == "op1" {
			n.in, n.bad = false, false
		}
	case "in", "bad", "noin":
		if s.st[a] == 0 || e.kind == "noin" && (!s.in || !l.shared && a == "op2") || e.kind == "bad" && s.bad {
			return s, false
		}
		if l.shared || a == "op1" {
			switch e.kind {
			case "in":
				n.in = true
			case "bad":
				n.bad = true
			case "noin":
				n.in = false
			}
		}
	}
	return n, true
}

var lalphabet = []event{
	{"make", "op1"}, {"go", "op1"}, {"down", "op1"}, {"make", "op2"}, {"go", "op2"}, {"down", "op2"},
	{"in", "op1"}, {"in", "op2"}, {"noin", "op1"}, {"noin", "op2"}, {"bad", "op1"},
}

func lhistories(l setting, s lstate, n int) [][]event {
	if n == 0 {
		return [][]event{nil}
	}
	var out [][]event
	for _, e := range lalphabet {
		t, ok := s.next(l, e)
		if !ok {
			continue
		}
		for _, h := range lhistories(l, t, n-1) {
			out = append(out, append([]event{e}, h...))
		}
	}
	return out
}

func runLibrary(t *core.T, s setting, start, h []event, burst bool) (err error) {
	l := newLib(s)
	defer func() {
		if e := l.destroy(); err == nil {
			err = e
		}
	}()
	wrap := func(err error) error {
		if err == nil {
			return nil
		}
		return core.V("%s: after %v, %v: %v", s.name, start, h, err)
	}
	for i, e := range append(append([]event{}, start...), h...) {
		if err := l.apply(e); err != nil {
			return wrap(err)
		}
		if burst && i != len(start)-1 {
			continue
		}
		if err := l.settle(); err != nil {
			return wrap(err)
		}
		t.Step(l.summary())
	}
	if err := l.settle(); err != nil {
		return wrap(err)
	}
	if err := l.still(); err != nil {
		return wrap(err)
	}
	if err := l.facts(); err != nil {
		return wrap(err)
	}
	t.Step(l.summary())
	t.Out("%s", l.summary())
	return nil
}

var checkP28 = &core.Check{
	Property: "P28",
	Level:    "model_checking",
	Rule:     "a case is one history of a Go program that makes, starts and ends operators and writes views with their clients; outcomes differ when the operators or the views at the end do",
	Run: func(r *core.Run) {
		debug.SetGCPercent(300)
		type job struct {
			id       string
			s        setting
			start, h []event
			burst    bool
		}
		starts := []struct {
			evs   []event
			st    lstate
			depth [2]int
		}{
			{nil, lstate{st: map[string]int{}}, [2]int{4, 5}},
			{[]event{{"make", "op1"}, {"make", "op2"}, {"in", "op1"}}, lstate{map[string]int{"op1": 1, "op2": 1}, true, false}, [2]int{3, 4}},
			{[]event{{"make", "op1"}, {"go", "op1"}, {"make", "op2"}, {"go", "op2"}, {"in", "op1"}}, lstate{map[string]int{"op1": 2, "op2": 2}, true, false}, [2]int{3, 4}},
		}
		var jobs []job
		for _, s := range settings {
			for _, st := range starts {
				for n := 1; n <= r.Pick(st.depth[0], st.depth[1]); n++ {
					hs := lhistories(s, st.st, n)
					r.Space("histories", "setting", s.name, "start", fmt.Sprint(st.evs), "length", n, "histories", len(hs))
					for _, h := range hs {
						for _, b := range []bool{false, true} {
							jobs = append(jobs, job{fmt.Sprintf("%s/%v/burst=%v/%v", s.name, st.evs, b, h), s, st.evs, h, b})
						}
					}
				}
			}
		}
		var next atomic.Int64
		var wg sync.WaitGroup
		for range 24 { // most of the time is spent waiting
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1) - 1)
					if i >= len(jobs) || r.Expired() {
						return
					}
					j := jobs[i]
					r.Exec(j.id, map[string]any{"setting": j.s.name, "start": fmt.Sprint(j.start), "history": fmt.Sprint(j.h), "burst": j.burst},
						func(t *core.T) error { return runLibrary(t, j.s, j.start, j.h, j.burst) })
				}
			}()
		}
		wg.Wait()
	},
}
