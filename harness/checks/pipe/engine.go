package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/runtime/schema"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"

	"verif/ref"
)

// slot is one object that can exist in a source, with the contents it may take.
type slot struct {
	kind     string
	ns, name string
	contents []map[string]any
	still    bool // changes only in the prefix
}

// scenario is one pipeline with the alphabet of its sources.
type scenario struct {
	name   string
	ops    string
	kinds  []string // sources in order
	groups map[string]string
	slots  []slot
	// linear: the result for an unchanged input never changes, so redundant output is an error
	target schema.GroupVersionKind
	depth  [2]int // quick, thorough
	// types: enumerate all event types rather than a canonical one
	types bool
	// gatherTemplate: outputs may legitimately be re-emitted when the group's template changes
	uid bool
	// narrow: few events, explored deeper; resyncs find no drift
	narrow bool
	// prefix: what all histories start with
	prefix []event

	opsRef []any
	memo   sync.Map
}

var viewGroup = "vop.view.dcontroller.io"

func (s *scenario) gvk(kind string) schema.GroupVersionKind {
	if g, ok := s.groups[kind]; ok {
		gv, _ := schema.ParseGroupVersion(g)
		return gv.WithKind(kind)
	}
	return schema.GroupVersionKind{Group: viewGroup, Version: "v1alpha1", Kind: kind}
}

func (s *scenario) init() {
	if s.opsRef == nil {
		o := ref.Parse(s.ops)
		if l, ok := o.([]any); ok {
			s.opsRef = l
		} else {
			s.opsRef = []any{o}
		}
	}
	if s.target.Kind == "" {
		s.target = schema.GroupVersionKind{Group: viewGroup, Version: "v1alpha1", Kind: "Target"}
	}
}

func (s *scenario) pipeline() (pipeline.Evaluator, error) {
	var p opv1a1.Pipeline
	if err := json.Unmarshal([]byte(s.ops), &p); err != nil {
		return nil, err
	}
	src := []schema.GroupVersionKind{}
	for _, k := range s.kinds {
		src = append(src, s.gvk(k))
	}
	return pipeline.New("vop", s.target, src, p, logr.Discard())
}

// object builds the object of a slot with the given content.
func (s *scenario) object(sl int, content map[string]any) object.Object {
	x := s.slots[sl]
	obj := object.New()
	c := ref.CopyMap(content)
	meta, _ := c["metadata"].(map[string]any)
	if meta == nil {
		meta = map[string]any{}
	}
	meta["name"] = x.name
	if x.ns != "" {
		meta["namespace"] = x.ns
	}
	if s.uid {
		meta["uid"] = "uid-" + x.ns + "-" + x.name
	}
	c["metadata"] = meta
	obj.SetUnstructuredContent(c)
	obj.SetGroupVersionKind(s.gvk(x.kind))
	return obj
}

// refDoc is the document the reference sees for a slot's content.
func (s *scenario) refDoc(sl int, content map[string]any) map[string]any {
	x := s.slots[sl]
	c := ref.CopyMap(content)
	meta, _ := c["metadata"].(map[string]any)
	if meta == nil {
		meta = map[string]any{}
	}
	meta["name"] = x.name
	if x.ns != "" {
		meta["namespace"] = x.ns
	}
	if s.uid {
		meta["uid"] = "uid-" + x.ns + "-" + x.name
		if strings.Contains(s.gvk(x.kind).Group, "view.dcontroller.io") {
			delete(meta, "uid")
		}
	}
	c["metadata"] = meta
	g := s.gvk(x.kind)
	c["apiVersion"] = g.GroupVersion().String()
	c["kind"] = g.Kind
	return c
}

// state is the content index of each slot, -1 for absent.
type state []int8

func (st state) key() string {
	b := make([]byte, len(st))
	for i := range st {
		b[i] = byte(st[i] + 'b')
	}
	return string(b)
}

type expected struct {
	alts []map[string]string // key -> canonical object
	err  error
	dup  bool // two different results with the same key: outside the property
}

// expect computes the target view for a source state, from scratch.
func (s *scenario) expect(st state) *expected {
	k := st.key()
	if e, ok := s.memo.Load(k); ok {
		return e.(*expected)
	}
	srcs := []ref.Source{}
	for _, kind := range s.kinds {
		src := ref.Source{Kind: kind}
		for i, sl := range s.slots {
			if sl.kind == kind && st[i] >= 0 {
				src.Docs = append(src.Docs, s.refDoc(i, sl.contents[st[i]]))
			}
		}
		srcs = append(srcs, src)
	}
	e := &expected{}
	alts, err := ref.Pipeline(s.opsRef, srcs)
	if err != nil {
		e.err = err
	} else {
		for _, a := range alts {
			m := map[string]string{}
			for _, d := range a {
				key, c, err := s.canonDoc(d)
				if err != nil {
					e.err = err
					break
				}
				if o, ok := m[key]; ok && o != c {
					e.dup = true
				}
				if _, ok := m[key]; ok {
					e.dup = true
				}
				m[key] = c
			}
			e.alts = append(e.alts, m)
		}
	}
	s.memo.Store(k, e)
	return e
}

func (s *scenario) canonDoc(d map[string]any) (string, string, error) {
	c := ref.CopyMap(d)
	meta, ok := c["metadata"].(map[string]any)
	if !ok {
		return "", "", fmt.Errorf("no metadata")
	}
	name, ok := meta["name"].(string)
	if !ok || name == "" {
		return "", "", fmt.Errorf("no name")
	}
	ns := ""
	if n, ok := meta["namespace"]; ok {
		if ns, ok = n.(string); !ok {
			return "", "", fmt.Errorf("bad namespace")
		}
	}
	if ns == "" {
		delete(meta, "namespace")
	}
	c["apiVersion"] = s.target.GroupVersion().String()
	c["kind"] = s.target.Kind
	return ns + "/" + name, ref.Canon(ref.SortLists(c)), nil
}

func canonObj(o object.Object) string {
	c := ref.CopyMap(o.UnstructuredContent())
	if meta, ok := c["metadata"].(map[string]any); ok {
		if ns, ok := meta["namespace"]; ok && ns == "" {
			delete(meta, "namespace")
		}
	}
	return ref.Canon(ref.SortLists(c))
}

func objKey(o object.Object) string { return o.GetNamespace() + "/" + o.GetName() }

func fmtMap(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%s; ", k, m[k])
	}
	return b.String()
}

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (e *expected) match(got map[string]string) bool {
	for _, a := range e.alts {
		if eqMap(a, got) {
			return true
		}
	}
	return false
}

func (e *expected) String() string {
	var b strings.Builder
	for i, a := range e.alts {
		if i > 0 {
			b.WriteString(" OR ")
		}
		b.WriteString("{" + fmtMap(a) + "}")
	}
	return b.String()
}

// event is one source event.
type event struct {
	slot int
	to   int8 // content index; -1 for delete
	typ  object.DeltaType
	del  int // delete: 0 with the last content, 1 with another content, 2 with the key only
	sync bool
	// drift: what happens to the target before a resync: 1 an object is lost, 2 an object is altered,
	// 3 a foreign object appears, 4 everything is lost
	drift int
}

func (s *scenario) evString(e event) string {
	if e.sync {
		return fmt.Sprintf("sync/%d", e.drift)
	}
	x := s.slots[e.slot]
	if e.to < 0 {
		return fmt.Sprintf("del%d(%s:%s/%s)", e.del, x.kind, x.ns, x.name)
	}
	return fmt.Sprintf("%s(%s:%s/%s#%d)", e.typ, x.kind, x.ns, x.name, e.to)
}

func (s *scenario) histString(h []event) string {
	ss := make([]string, len(h))
	for i := range h {
		ss[i] = s.evString(h[i])
	}
	if n := len(s.prefix); n > 0 && len(h) > n {
		ss = append([]string{fmt.Sprintf("(%s ... %d events)", ss[0], n)}, ss[n:]...)
	}
	return strings.Join(ss, " ")
}

var upd = []object.DeltaType{object.Updated, object.Replaced, object.Upserted}

var again = []object.DeltaType{object.Updated, object.Replaced, object.Upserted, object.Added}

// events enumerates the events possible in a state.
func (s *scenario) events(st state, depth int) []event {
	var out []event
	for i, sl := range s.slots {
		if sl.still {
			continue
		}
		for c := range sl.contents {
			if st[i] < 0 {
				if s.types {
					for _, t := range []object.DeltaType{object.Added, object.Upserted, object.Updated, object.Replaced} {
						out = append(out, event{slot: i, to: int8(c), typ: t})
					}
				} else {
					t := object.Added
					if (depth+i+c)%3 == 2 {
						t = object.Upserted
					}
					out = append(out, event{slot: i, to: int8(c), typ: t})
				}
			} else {
				if s.types {
					for _, t := range append([]object.DeltaType{object.Added}, upd...) {
						out = append(out, event{slot: i, to: int8(c), typ: t})
					}
				} else {
					out = append(out, event{slot: i, to: int8(c), typ: again[(depth+i+c)%4]})
				}
			}
		}
		if st[i] >= 0 {
			if s.types {
				out = append(out, event{slot: i, to: -1, del: 0}, event{slot: i, to: -1, del: 1}, event{slot: i, to: -1, del: 2})
			} else {
				out = append(out, event{slot: i, to: -1, del: (depth + i) % 3})
			}
		}
	}
	return out
}

func (s *scenario) delta(e event, st state) object.Delta {
	if e.to < 0 {
		c := s.slots[e.slot].contents[st[e.slot]]
		switch e.del {
		case 1:
			c = s.slots[e.slot].contents[(int(st[e.slot])+1)%len(s.slots[e.slot].contents)]
		case 2:
			c = map[string]any{}
		}
		return object.Delta{Type: object.Deleted, Object: s.object(e.slot, c)}
	}
	return object.Delta{Type: e.typ, Object: s.object(e.slot, s.slots[e.slot].contents[e.to])}
}

// histories calls f for every maximal history of the given depth.
func (s *scenario) histories(depth int, withSync bool, f func(h []event)) {
	st := make(state, len(s.slots))
	for i := range st {
		st[i] = -1
	}
	h := append(make([]event, 0, len(s.prefix)+depth), s.prefix...)
	for _, e := range s.prefix {
		st[e.slot] = e.to
	}
	var rec func()
	rec = func() {
		if len(h) == len(s.prefix)+depth {
			f(append([]event{}, h...))
			return
		}
		evs := s.events(st, len(h))
		if withSync && (len(h) == 0 || !h[len(h)-1].sync) {
			for d := 0; d < 5 && (d == 0 || !s.narrow); d++ {
				evs = append(evs, event{sync: true, drift: d})
			}
		}
		for _, e := range evs {
			h = append(h, e)
			var old int8
			if !e.sync {
				old = st[e.slot]
				st[e.slot] = e.to
			}
			rec()
			if !e.sync {
				st[e.slot] = old
			}
			h = h[:len(h)-1]
		}
	}
	rec()
}
