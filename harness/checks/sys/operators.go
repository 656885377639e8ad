package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	apierrors "k8s.io/apimachinery/pkg/api/errors"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/operator"

	"verif/core"
	. "verif/vobj"
)

// place is where a controller reads from or writes to: "cm" and "widget" are native kinds,
// "OP.Kind" are views.
type place string

// ctl is one controller of an operator.
type ctl struct {
	name     string
	src, dst place
	// broken: it cannot be set up; picky: it fails on sources whose value is not a number.
	broken, picky bool
	// once: its source is triggered once, when it starts; often: it is also triggered with a period.
	once, often bool
}

// spec is what an operator's custom resource says.
type spec struct {
	name  string
	op    string
	ctls  []ctl
	extra []M // broken controllers
}

var specs = map[string]*spec{
	"A": {name: "A", op: "op1", ctls: []ctl{{name: "c1", src: "cm", dst: "op1.Out"}}},
	"B": {name: "B", op: "op1", ctls: []ctl{{name: "c1", src: "cm", dst: "op1.Mid"}, {name: "c2", src: "op1.Mid", dst: "widget"}}},
	"C": {name: "C", op: "op1", ctls: []ctl{{name: "bad", src: "op1.In", dst: "op1.Out", broken: true}, {name: "c1", src: "cm", dst: "op1.Out"}, {name: "bad2", src: "op1.In", dst: "op1.Out", broken: true}}},
	"D": {name: "D", op: "op1", ctls: []ctl{{name: "c1", src: "cm", dst: "op1.Out", picky: true}}},
	"F": {name: "F", op: "op1", ctls: []ctl{{name: "c1", src: "op1.In", dst: "op1.Out"}}},
	"E": {name: "E", op: "op2", ctls: []ctl{{name: "c1", src: "op1.Out", dst: "op2.Far"}}},
	"H": {name: "H", op: "op1", ctls: []ctl{{name: "c1", src: "cm", dst: "widget"}}},
	"G": {name: "G", op: "op1", ctls: append(many(70), ctl{name: "c1", src: "cm", dst: "op1.Out"})},
	"O": {name: "O", op: "op1", ctls: []ctl{{name: "c1", src: "op1.Init", dst: "op1.Out", once: true}, {name: "c2", src: "op1.Out", dst: "widget", often: true}}},
	"W": {name: "W", op: "dog", ctls: []ctl{{name: "c1", src: "cm", dst: "dog.Dog"}}},
}

// many makes controllers that cannot be set up.
func many(n int) (cs []ctl) {
	for i := range n {
		cs = append(cs, ctl{name: fmt.Sprintf("bad%d", i), src: "op1.In", dst: "op1.Out", broken: true})
	}
	return cs
}

// tag is what the n-th life of an operator marks its results with.
// trigger is the object a source that is triggered once is triggered with.
const trigger = "one-shot-trigger"

// val is the value a controller gives the result for a source object.
func (c ctl) val(src M) any {
	if c.once {
		return "0"
	}
	return src["val"]
}

func (s *spec) tag(c ctl, n int) string { return fmt.Sprintf("%s.%s.%d", s.name, c.name, n) }

func resource(p place) M {
	switch p {
	case "cm":
		return M{"apiGroup": "", "version": "v1", "kind": "ConfigMap"}
	case "widget":
		return M{"apiGroup": "test.io", "version": "v1", "kind": "Widget"}
	}
	op, kind, _ := strings.Cut(string(p), ".")
	return M{"apiGroup": op + ".view.dcontroller.io", "kind": kind}
}

// object is the custom resource.
func (s *spec) object(n int) M {
	var cs []any
	for _, c := range s.ctls {
		data := M{"tag": s.tag(c, n), "val": "$.data.val"}
		if c.once {
			data["val"] = "0"
		}
		if c.picky {
			data["num"] = M{"@add": []any{M{"@int": "$.data.val"}, 1}}
		}
		var pl any = M{"@project": M{"metadata": M{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "data": data}}
		if c.once {
			pl = M{"@project": M{"metadata": M{"name": "$.metadata.name", "namespace": "ns"}, "data": data}}
		}
		if c.broken {
			pl = []any{M{"@unwind": M{"@nope": 1}}, M{"@join": 1}}
		}
		src := resource(c.src)
		if c.once {
			src["type"] = "OneShot"
		}
		srcs := []any{src}
		if c.often {
			srcs = append(srcs, M{"type": "Periodic", "kind": "Tick", "parameters": M{"period": "15ms"}})
		}
		cs = append(cs, M{"name": c.name, "sources": srcs, "pipeline": pl, "target": resource(c.dst)})
	}
	return M{"apiVersion": "dcontroller.io/v1alpha1", "kind": "Operator", "metadata": M{"name": s.op}, "spec": M{"controllers": cs}}
}

// event is one change.
type event struct {
	kind string // cr, nocr, cm, nocm, in, noin, restart
	arg  string
}

func (e event) String() string { return strings.TrimSpace(e.kind + " " + e.arg) }

// epoch is a life of an operator.
type epoch struct {
	s    *spec
	n    int
	seen map[place]map[string]bool // results that were there when all had settled
	bad  bool                      // a source it cannot evaluate was there when all had settled
	mbad bool                      // ... or may have been
	gen  float64
	op   *operator.Operator // what runs it
}

// play is a world with the model of what has happened in it.
type play struct {
	*world
	live  map[string]*epoch
	past  []*epoch                  // lives that are over but may linger on for a while
	ever  map[place]map[string]bool // keys that may be in a place
	cm    map[string]string
	in    map[string]string
	val   int
	bad   int
	lives int // of operators so far
	born  int // the value the sources had when the program started
	// manual: operators come and go by calls, not by custom resources
	manual    bool
	conflicts atomic.Int32
}

var allViews = []place{"op1.Out", "op1.Mid", "op1.In", "op1.Init", "op2.Far", "dog.Dog"}

func newPlay(manual bool) *play {
	p := &play{world: newWorld(), live: map[string]*epoch{}, cm: map[string]string{}, in: map[string]string{}, manual: manual}
	p.k.Fail = func(method, resource, sub, name string) int {
		if method == "PUT" && sub == "status" && p.conflicts.Load() > 0 && p.conflicts.Add(-1) >= 0 {
			return 409
		}
		return 0
	}
	p.boot()
	return p
}

func (p *play) boot() {
	ever := map[place]map[string]bool{}
	for _, v := range allViews {
		ever[v] = map[string]bool{}
	}
	ever["widget"] = p.ever["widget"]
	if ever["widget"] == nil {
		ever["widget"] = map[string]bool{}
	}
	p.ever = ever
	p.past = nil
	p.born = p.val
	p.in = map[string]string{}
	for _, e := range p.live {
		e.seen = map[place]map[string]bool{}
		e.mbad = e.mbad || e.bad
		e.bad = false
		e.op = nil
	}
	p.build()
	for _, v := range []place{"op1.Out", "op1.Mid", "op2.Far"} {
		op, kind, _ := strings.Cut(string(v), ".")
		p.watchViews(GVK(op, kind))
	}
	p.open()
	if !p.manual {
		p.run()
	}
	p.reached()
}

// reached notes that what the sources have now may show up.
func (p *play) reached() {
	for range 3 { // along chains
		all := append([]*epoch{}, p.past...)
		for _, e := range p.live {
			all = append(all, e)
		}
		for _, e := range all {
			for _, c := range e.s.ctls {
				if c.once {
					p.ever[c.src][trigger] = true
				}
				for k := range p.have(c.src) {
					p.ever[c.dst][k] = true
				}
				if c.picky && p.bad > 0 {
					e.mbad = true
				}
			}
		}
	}
}

func (p *play) have(s place) map[string]bool {
	m := map[string]bool{}
	switch s {
	case "cm":
		for k := range p.cm {
			m[k] = true
		}
	default:
		for k := range p.ever[s] {
			m[k] = true
		}
	}
	return m
}

func (p *play) apply(e event) error {
	ctx := context.Background()
	switch e.kind {
	case "cr":
		s := specs[e.arg]
		p.lives++
		o := p.k.Put("operators", s.object(p.lives))
		gen, _ := o["metadata"].(M)["generation"].(float64)
		if l := p.live[s.op]; l != nil {
			p.past = append(p.past, l)
		}
		p.live[s.op] = &epoch{s: s, n: p.lives, seen: map[place]map[string]bool{}, gen: gen}
	case "nocr":
		p.k.Delete("operators", "", e.arg)
		p.past = append(p.past, p.live[e.arg])
		delete(p.live, e.arg)
	case "cm":
		p.val++
		v := fmt.Sprint(p.val)
		if e.arg == "b" {
			v = "bad"
			p.bad++
		}
		p.cm[e.arg] = v
		p.k.Put("configmaps", configMap(e.arg, v))
	case "nocm":
		if p.cm[e.arg] == "bad" {
			p.bad--
		}
		delete(p.cm, e.arg)
		p.k.Delete("configmaps", "ns", e.arg)
	case "in":
		p.val++
		v := fmt.Sprint(p.val)
		o := New(GVK("op1", "In"), key(e.arg), M{"data": M{"val": v}})
		p.in[e.arg] = v
		p.ever["op1.In"][e.arg] = true
		old := o.DeepCopy()
		err := p.api.Client.Get(ctx, key(e.arg), old)
		switch {
		case apierrors.IsNotFound(err):
			err = p.api.Client.Create(ctx, o)
		case err == nil:
			o.SetUID(old.GetUID())
			o.SetResourceVersion(old.GetResourceVersion())
			err = p.api.Client.Update(ctx, o)
		}
		if err != nil {
			return core.V("writing view object %s: %v", e.arg, err)
		}
	case "noin":
		delete(p.in, e.arg)
		if err := p.api.Client.Delete(ctx, New(GVK("op1", "In"), key(e.arg), M{})); err != nil {
			return core.V("deleting view object %s: %v", e.arg, err)
		}
	case "restart":
		if err := p.halt(); err != nil {
			return err
		}
		p.boot()
	case "touch": // changes that are not of the operator's business
		if o := p.k.Get("operators", "", e.arg); o != nil {
			p.val++
			o["metadata"].(M)["labels"] = M{"touched": fmt.Sprint(p.val)}
			delete(o["metadata"].(M), "resourceVersion")
			p.k.Put("operators", o)
		}
	case "conflict": // the next write of a status meets another writer
		p.conflicts.Store(1)
	case "start":
		p.run()
	case "up":
		s := specs[e.arg]
		if l := p.live[s.op]; l != nil {
			p.past = append(p.past, l)
		}
		p.lives++
		var o opv1a1.Operator
		if err := json.Unmarshal([]byte(Str(s.object(p.lives))), &o); err != nil {
			core.Abort("spec %s: %v", s.name, err)
		}
		if _, err := p.c.UpsertOperator(s.op, &o.Spec); err != nil {
			return core.V("upserting operator %s: %v", s.op, err)
		}
		p.live[s.op] = &epoch{s: s, n: p.lives, seen: map[place]map[string]bool{}}
	case "down":
		if l := p.live[e.arg]; l != nil {
			p.past = append(p.past, l)
		}
		p.c.DeleteOperator(e.arg)
		delete(p.live, e.arg)
	}
	p.reached()
	return nil
}

// content gives what is in a place: the data by name.
func (p *play) content(pl place) (map[string]M, error) {
	out := map[string]M{}
	switch pl {
	case "cm", "widget":
		r := "configmaps"
		if pl == "widget" {
			r = "widgets"
		}
		for _, o := range p.k.List(r) {
			d, ok := o["data"].(M)
			if !ok {
				d = M{}
			}
			out[o["metadata"].(M)["name"].(string)] = d
		}
	default:
		op, kind, _ := strings.Cut(string(pl), ".")
		os, err := p.view(GVK(op, kind))
		if err != nil {
			return nil, err
		}
		for k, o := range os {
			d, ok := o["data"].(M)
			if !ok {
				d = M{}
			}
			out[k] = d
		}
	}
	return out, nil
}

// complaint says what is not yet as it must become.
func (p *play) complaint() string {
	for _, op := range []string{"op1", "op2", "dog"} {
		kinds, ok := p.served(op)
		if !ok {
			code, o := p.get("/apis/" + op + ".view.dcontroller.io/v1alpha1")
			return fmt.Sprintf("the extension API server does not answer: %d %v", code, o)
		}
		l := p.live[op]
		if l == nil {
			if len(kinds) > 0 {
				return fmt.Sprintf("operator %s is gone but the API server still has its kinds %v", op, kinds)
			}
			if p.c.GetOperator(op) != nil {
				return fmt.Sprintf("operator %s is gone but its operator is still there", op)
			}
			continue
		}
		if s := p.kindsComplaint(l, kinds); s != "" {
			return s
		}
		if s := p.targetComplaint(l); s != "" {
			return s
		}
		if p.manual {
			continue
		}
		if s := p.statusComplaint(l); s != "" {
			return s
		}
	}
	for pl, keys := range p.ever {
		got, err := p.content(pl)
		if err != nil {
			return fmt.Sprintf("%s cannot be read: %v", pl, err)
		}
		for k := range got {
			if !keys[k] {
				return fmt.Sprintf("%s has %s, which no source ever led to", pl, k)
			}
		}
	}
	return ""
}

func (p *play) kindsComplaint(l *epoch, kinds []string) string {
	must, may := map[string]bool{}, map[string]bool{}
	for _, c := range l.s.ctls {
		pls := []place{c.src, c.dst}
		if c.often {
			pls = append(pls, place(l.s.op+".Tick"))
		}
		for _, pl := range pls {
			if op, kind, ok := strings.Cut(string(pl), "."); ok && op == l.s.op {
				may[kind] = true
				if !c.broken {
					must[kind] = true
				}
			}
		}
	}
	got := map[string]bool{}
	for _, k := range kinds {
		got[k] = true
		if !may[k] {
			return fmt.Sprintf("the API server has kind %s of operator %s, which does not have it", k, l.s.op)
		}
	}
	for k := range must {
		if !got[k] {
			return fmt.Sprintf("the API server does not have kind %s of operator %s: %v", k, l.s.op, kinds)
		}
	}
	return ""
}

func (p *play) targetComplaint(l *epoch) string {
	for _, c := range l.s.ctls {
		if c.broken {
			continue
		}
		src, err := p.content(c.src)
		if err != nil {
			return fmt.Sprintf("%s cannot be read: %v", c.src, err)
		}
		dst, err := p.content(c.dst)
		if err != nil {
			return fmt.Sprintf("%s cannot be read: %v", c.dst, err)
		}
		if _, ok := src[trigger]; c.once && !ok {
			return fmt.Sprintf("controller %s of %s has not been triggered", c.name, l.s.name)
		}
		for k, d := range src {
			if c.picky && d["val"] == "bad" {
				continue
			}
			want := M{"tag": l.s.tag(c, l.n), "val": c.val(d)}
			got := dst[k]
			if c.picky {
				want["num"] = fmt.Sprint(num(d["val"]) + 1)
				if got != nil {
					g := M{}
					for k, v := range got {
						g[k] = v
					}
					g["num"] = fmt.Sprint(got["num"])
					got = g
				}
			}
			if !reflect.DeepEqual(map[string]any(got), map[string]any(want)) {
				return fmt.Sprintf("controller %s of %s: source %s has %s=%s, target %s has %s, wanted %s", c.name, l.s.name, c.src, k, Str(d), c.dst, Str(got), Str(want))
			}
		}
		for k := range l.seen[c.dst] {
			if src[k] == nil && dst[k] != nil {
				return fmt.Sprintf("controller %s of %s: source %s is gone, target %s still has %s", c.name, l.s.name, k, c.dst, Str(dst[k]))
			}
		}
	}
	return ""
}

func num(v any) int {
	n := 0
	_, _ = fmt.Sscan(fmt.Sprint(v), &n)
	return n
}

func (p *play) statusComplaint(l *epoch) string {
	o := p.k.Get("operators", "", l.s.op)
	if o == nil {
		return "the custom resource of " + l.s.op + " is gone"
	}
	st, _ := o["status"].(M)
	cs, _ := st["controllers"].([]any)
	if len(cs) != len(l.s.ctls) {
		return fmt.Sprintf("the status of %s has %d controllers, not %d: %s", l.s.name, len(cs), len(l.s.ctls), Str(st))
	}
	for i, c := range l.s.ctls {
		m, _ := cs[i].(M)
		if m["name"] != c.name {
			return fmt.Sprintf("the status of %s has controller %v, not %s", l.s.name, m["name"], c.name)
		}
		conds, _ := m["conditions"].([]any)
		if len(conds) != 1 {
			return fmt.Sprintf("controller %s of %s has conditions %s", c.name, l.s.name, Str(conds))
		}
		cond, _ := conds[0].(M)
		errs, _ := m["lastErrors"].([]any)
		if cond["type"] != "Ready" || cond["observedGeneration"] != l.gen {
			return fmt.Sprintf("controller %s of %s (generation %v) has condition %s", c.name, l.s.name, l.gen, Str(cond))
		}
		if len(errs) > 10 {
			return fmt.Sprintf("controller %s of %s has %d errors", c.name, l.s.name, len(errs))
		}
		var want []string
		switch {
		case c.broken:
			want = []string{"False"}
		case c.picky && p.bad > 0:
			want = []string{"Unknown"}
		case c.picky && l.bad:
			want = []string{"Unknown"}
		case c.picky && l.mbad:
			want = []string{"Unknown", "True"}
		default:
			want = []string{"True"}
		}
		ok := false
		for _, s := range want {
			ok = ok || cond["status"] == s && (s == "True") == (len(errs) == 0)
		}
		if !ok {
			return fmt.Sprintf("controller %s of %s has condition %s and errors %s, expected status %v", c.name, l.s.name, Str(cond), Str(errs), want)
		}
	}
	return ""
}

// settle waits until all is as it must be.
func (p *play) settle() error {
	if s := p.eventually(p.complaint); s != "" {
		return core.V("does not come about: %s", s)
	}
	for _, l := range p.live {
		for _, c := range l.s.ctls {
			if c.broken {
				continue
			}
			src, err1 := p.content(c.src)
			dst, err2 := p.content(c.dst)
			if err1 != nil || err2 != nil {
				continue
			}
			for k := range src {
				// what has been there before is not known to be its own
				if dst[k]["tag"] != l.s.tag(c, l.n) || c.dst == "widget" && num(dst[k]["val"]) <= p.born {
					continue
				}
				if l.seen[c.dst] == nil {
					l.seen[c.dst] = map[string]bool{}
				}
				l.seen[c.dst][k] = true
			}
			if c.picky && p.bad > 0 {
				l.bad = true
			}
		}
	}
	return nil
}

// steady checks that what runs an operator stays the same while its specification does.
func (p *play) steady() error {
	for _, l := range p.live {
		op := p.c.GetOperator(l.s.op)
		if l.op == nil {
			l.op = op
		}
		if op != l.op {
			return core.V("operator %s has been started anew although its specification has not changed", l.s.name)
		}
	}
	return nil
}

// silent checks that nothing but the operators there are reacts to changes any more.
func (p *play) silent() error {
	tags := map[string]bool{}
	for _, l := range p.live {
		for _, c := range l.s.ctls {
			if !c.broken {
				tags[l.s.tag(c, l.n)] = true
			}
		}
	}
	_, pos := p.k.Writes("widgets", 0)
	p.writes.take()
	var foreign []string
	for i := 0; i < 12; i++ {
		for _, e := range []event{{"cm", "p"}, {"in", "p"}} {
			if err := p.apply(e); err != nil {
				return err
			}
		}
		if err := p.settle(); err != nil {
			return err
		}
		time.Sleep(time.Duration(2+i*i*5) * time.Millisecond)
		seen := p.writes.take()
		ws, next := p.k.Writes("widgets", pos)
		pos = next
		for _, w := range ws {
			if w.Type != "DELETED" {
				seen[tagOf(w.Object)] = true
			}
		}
		foreign = nil
		for t := range seen {
			if !tags[t] {
				foreign = append(foreign, t)
			}
		}
		if len(foreign) == 0 {
			return nil
		}
		sort.Strings(foreign)
	}
	return core.V("controllers that are gone still write: %v", foreign)
}

var alphabet = []event{
	{"cr", "A"}, {"cr", "B"}, {"cr", "C"}, {"cr", "D"}, {"cr", "F"}, {"cr", "G"}, {"cr", "H"}, {"cr", "O"}, {"nocr", "op1"},
	{"cr", "E"}, {"nocr", "op2"},
	{"cm", "a"}, {"nocm", "a"}, {"cm", "b"}, {"nocm", "b"}, {"in", "x"}, {"noin", "x"}, {"restart", ""},
	{"touch", "op1"}, {"conflict", ""},
}

// state is the part of the model that decides which events make sense.
type state struct {
	op1, op2   string
	a, b, x, n bool
}

func (s state) next(e event) (state, bool) {
	switch e.kind {
	case "cr":
		if e.arg == "E" {
			if s.op2 != "" {
				return s, false
			}
			s.op2 = "E"
			return s, true
		}
		if s.op1 == e.arg {
			return s, false
		}
		s.op1 = e.arg
	case "nocr":
		f := &s.op1
		if e.arg == "op2" {
			f = &s.op2
		}
		if *f == "" {
			return s, false
		}
		*f = ""
	case "cm":
		if e.arg == "b" {
			if s.b {
				return s, false
			}
			s.b = true
		} else {
			s.a = true
		}
	case "nocm":
		if e.arg == "b" {
			if !s.b {
				return s, false
			}
			s.b = false
		} else {
			if !s.a {
				return s, false
			}
			s.a = false
		}
	case "in":
		s.x = true
	case "noin":
		if !s.x {
			return s, false
		}
		s.x = false
	case "restart":
		s.x = false
	case "touch":
		return s, s.op1 != ""
	}
	return s, true
}

// histories gives all sequences of n sensible events from the start.
func histories(s state, n int) [][]event {
	if n == 0 {
		return [][]event{nil}
	}
	var out [][]event
	for _, e := range alphabet {
		t, ok := s.next(e)
		if !ok {
			continue
		}
		for _, h := range histories(t, n-1) {
			out = append(out, append([]event{e}, h...))
		}
	}
	return out
}

func runHistory(t *core.T, start, h []event, burst, manual bool) (err error) {
	p := newPlay(manual)
	defer func() {
		if e := p.destroy(); err == nil {
			err = e
		}
	}()
	if !manual {
		start = append([]event{{"cr", "W"}}, start...)
	}
	for _, e := range start {
		if err := p.apply(e); err != nil {
			return err
		}
	}
	var done []string
	wrap := func(err error) error {
		if err == nil {
			return nil
		}
		return core.V("after %v, %s: %v", start, strings.Join(done, ", "), err)
	}
	if !manual {
		if err := p.settle(); err != nil {
			return wrap(err)
		}
	}
	for _, e := range h {
		done = append(done, e.String())
		if err := p.apply(e); err != nil {
			return wrap(err)
		}
		if !burst {
			if err := p.settle(); err != nil {
				return wrap(err)
			}
			if err := p.steady(); err != nil {
				return wrap(err)
			}
			t.Step(p.summary())
		}
	}
	if burst {
		if err := p.settle(); err != nil {
			return wrap(err)
		}
		t.Step(p.summary())
	}
	if err := p.silent(); err != nil {
		return wrap(err)
	}
	if !burst {
		if err := p.steady(); err != nil {
			return wrap(err)
		}
	}
	t.Out("%s", p.summary())
	return nil
}

// summary is the observable state.
func (p *play) summary() string {
	var b strings.Builder
	for _, op := range []string{"op1", "op2"} {
		if l := p.live[op]; l != nil {
			fmt.Fprintf(&b, "%s=%s ", op, l.s.name)
		}
	}
	for _, pl := range append([]place{"cm", "widget"}, allViews...) {
		c, err := p.content(pl)
		if err != nil {
			continue
		}
		var ks []string
		for k, d := range c {
			ks = append(ks, fmt.Sprintf("%s:%v:%v", k, d["tag"], d["val"]))
		}
		sort.Strings(ks)
		fmt.Fprintf(&b, "%s%v ", pl, ks)
	}
	return b.String()
}

// starts are where histories begin.
var starts = []struct {
	name  string
	evs   []event
	st    state
	depth [2]int
}{
	{"empty", nil, state{}, [2]int{2, 4}},
	{"running", []event{{"cm", "a"}, {"cr", "A"}, {"cr", "E"}}, state{op1: "A", op2: "E", a: true}, [2]int{3, 4}},
}

// calls gives all sequences of n calls of the operator controller among which it is started once.
func calls(n int) [][]event {
	var out [][]event
	var rec func(h []event, started bool)
	rec = func(h []event, started bool) {
		if len(h) == n {
			if started {
				out = append(out, append([]event{{"up", "W"}}, h...))
			}
			return
		}
		for _, e := range []event{{"up", "A"}, {"up", "B"}, {"up", "O"}, {"up", "E"}, {"down", "op1"}, {"down", "op2"}, {"start", ""}} {
			if e.kind == "start" && started {
				continue
			}
			rec(append(h[:len(h):len(h)], e), started || e.kind == "start")
		}
	}
	rec(nil, false)
	return out
}

var checkP21 = &core.Check{
	Property: "P21",
	Level:    "model_checking",
	Rule:     "a case is one history of changes on a running program; it is non-trivial when it changes a custom resource or a source",
	Run: func(r *core.Run) {
		debug.SetGCPercent(300)
		type job struct {
			id     string
			start  []event
			h      []event
			burst  bool
			manual bool
		}
		var jobs []job
		for _, s := range starts {
			for n := 1; n <= r.Pick(s.depth[0], s.depth[1]); n++ {
				hs := histories(s.st, n)
				if n == 3 && !r.Thorough() { // the costly ones
					hs = slices.DeleteFunc(hs, func(h []event) bool {
						return slices.Contains(h, event{"cr", "G"}) || slices.Contains(h, event{"cr", "O"})
					})
				}
				for _, h := range hs {
					if n < 3 || r.Thorough() {
						jobs = append(jobs, job{fmt.Sprintf("%s/step/%v", s.name, h), s.evs, h, false, false})
					}
					if n > 1 {
						jobs = append(jobs, job{fmt.Sprintf("%s/burst/%v", s.name, h), s.evs, h, true, false})
					}
				}
				r.Space("histories "+s.name, "length", n, "histories", len(hs))
			}
		}
		for n := 1; n <= r.Pick(4, 5); n++ {
			hs := calls(n)
			for _, h := range hs {
				jobs = append(jobs, job{fmt.Sprintf("calls/%v", h), []event{{"cm", "a"}}, h, true, true})
			}
			r.Space("calls", "length", n, "histories", len(hs))
		}
		var next atomic.Int64
		var wg sync.WaitGroup
		for range 24 { // most of the time is spent waiting
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1) - 1)
					if i >= len(jobs) || r.Expired() {
						return
					}
					j := jobs[i]
					r.Exec(j.id, map[string]any{"start": fmt.Sprint(j.start), "history": fmt.Sprint(j.h), "burst": j.burst},
						func(t *core.T) error { return runHistory(t, j.start, j.h, j.burst, j.manual) })
				}
			}()
		}
		wg.Wait()
	},
}
