package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apiserver/pkg/authentication/authenticator"
	"k8s.io/apiserver/pkg/authentication/user"
	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/yaml"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/apiserver"

	"verif/core"
	"verif/vrt"
)

var checkP19 = &core.Check{
	Property: "P19", Level: "model_checking",
	Rule: "a case is a stored state with every request on it, a history of requests under all kinds of watches, or one schedule of requests at the same time, compared with a reference store; outcomes differ when the codes of the answers or the states differ",
	Assumptions: []string{
		"what a request that is not acceptable is answered with is left open within 4xx, except for objects that do not exist (404); creating an object that exists may be refused (409) or replace it",
		"writes to the view storage that do not come through the API server do not happen at the same time as requests that change the same object",
	},
	Run: runP19,
}

// store19 is the reference: the objects of the kind, by namespace and name.
type store19 map[string]map[string]any

func (st store19) copy() store19 {
	ret := store19{}
	for k, v := range st {
		ret[k] = v
	}
	return ret
}

func key19(ns, name string) string { return ns + "/" + name }

// want19 is what a request must be answered with and lead to.
type want19 struct {
	code int            // 400 means any error of the client
	obj  map[string]any // the object in the answer
	list []string       // the keys of the objects in the answer, if it is a list
	next store19
	gen  string // the prefix of the name of a new object, if the server is to choose it
	alt  *want19
}

// given takes the alternative, if the answer's code says so.
func (w want19) given(code int) want19 {
	if w.alt != nil && code == w.alt.code {
		return *w.alt
	}
	return w
}

type form int

const (
	plain form = iota
	asYAML
	asTable
	asPartial
)

// call19 is a request with its meaning.
type call19 struct {
	request
	form form
	mean func(st store19) want19
}

var (
	kind19 = gvk("op1", "V")
	base19 = restAPI + group1 + "/" + viewv1a1.Version
)

func path19(ns, name string) string {
	p := base19
	if ns != "" {
		p += "/namespaces/" + ns
	}
	p += "/v"
	if name != "" {
		p += "/" + name
	}
	return p
}

// contents of objects, without their names.
func content19(i int) map[string]any {
	switch i {
	case 1:
		return map[string]any{"metadata": map[string]any{"labels": map[string]any{"l": "1"}}, "data": map[string]any{"a": int64(1), "s": "x"}}
	case 2:
		return map[string]any{
			"metadata": map[string]any{
				"labels":      map[string]any{"l": "2", "m": "", "n": "3", "k": "4", "j": "5"},
				"annotations": map[string]any{"a": "1", "b": "\u0171<&>\n"}},
			"data":  map[string]any{"a": map[string]any{"b": []any{int64(1), map[string]any{}, []any{}, "z"}}, "e": map[string]any{}},
			"big":   int64(9007199254740993),
			"float": 1.5, "flag": false,
			"status": map[string]any{"conditions": []any{
				map[string]any{"type": "Other", "status": "True"},
				map[string]any{"type": "Progressing", "status": "False"},
				map[string]any{"type": "Ready", "status": "Unknown"},
				map[string]any{"type": "Available", "status": "True"}}},
		}
	case 3:
		return map[string]any{"metadata": map[string]any{"annotations": map[string]any{"a": "1"}}, "data": "text",
			"status": map[string]any{"conditions": []any{map[string]any{"type": "Ready", "status": "True"}, map[string]any{"type": "Other", "status": "False"}}}}
	}
	return nil
}

func object19(ns, name string, i int) map[string]any {
	o := content19(i)
	o["apiVersion"], o["kind"] = kind19.GroupVersion().String(), kind19.Kind
	m, _ := o["metadata"].(map[string]any)
	if m == nil {
		m = map[string]any{}
		o["metadata"] = m
	}
	if name != "" {
		m["name"] = name
	}
	if ns != "" {
		m["namespace"] = ns
	}
	return o
}

func meta19(o map[string]any) map[string]any {
	m, _ := o["metadata"].(map[string]any)
	return m
}

func labels19(o map[string]any) map[string]any {
	m, _ := meta19(o)["labels"].(map[string]any)
	return m
}

// selector19 is a selector with its meaning.
type selector19 struct {
	labels, fields string
	match          func(ns, name string, l map[string]any) bool
}

func (s selector19) query() string {
	v := url.Values{}
	if s.labels != "" {
		v.Set("labelSelector", s.labels)
	}
	if s.fields != "" {
		v.Set("fieldSelector", s.fields)
	}
	return v.Encode()
}

func selectors19() []selector19 {
	type part struct {
		s string
		m func(ns, name string, l map[string]any) bool
	}
	all := func(string, string, map[string]any) bool { return true }
	has := func(k string, vs ...string) func(string, string, map[string]any) bool {
		return func(_, _ string, l map[string]any) bool {
			x, ok := l[k]
			for _, v := range vs {
				if ok && x == v {
					return true
				}
			}
			return ok && len(vs) == 0
		}
	}
	not := func(f func(string, string, map[string]any) bool) func(string, string, map[string]any) bool {
		return func(a, b string, l map[string]any) bool { return !f(a, b, l) }
	}
	and := func(f, g func(string, string, map[string]any) bool) func(string, string, map[string]any) bool {
		return func(a, b string, l map[string]any) bool { return f(a, b, l) && g(a, b, l) }
	}
	name := func(n string) func(string, string, map[string]any) bool {
		return func(_, x string, _ map[string]any) bool { return x == n }
	}
	space := func(n string) func(string, string, map[string]any) bool {
		return func(x, _ string, _ map[string]any) bool { return x == n }
	}
	ls := []part{{"", all}, {"l=1", has("l", "1")}, {"l!=1", not(has("l", "1"))}, {"l", has("l")}, {"!l", not(has("l"))},
		{"l in (1,2)", has("l", "1", "2")}, {"l notin (2)", not(has("l", "2"))}, {"l=2,n=3", and(has("l", "2"), has("n", "3"))}, {"m=", has("m", "")}, {"l=1,l=2", and(has("l", "1"), has("l", "2"))}}
	fs := []part{{"", all}, {"metadata.name=x", name("x")}, {"metadata.name!=x", not(name("x"))}, {"metadata.namespace=d", space("d")},
		{"metadata.name=y,metadata.namespace=d", and(name("y"), space("d"))}, {"metadata.name=x,metadata.name=y", and(name("x"), name("y"))}}
	var ret []selector19
	for _, l := range ls {
		for _, f := range fs {
			ret = append(ret, selector19{l.s, f.s, and(l.m, f.m)})
		}
	}
	return ret
}

var names19 = []struct{ ns, name string }{{"d", "x"}, {"d", "y"}, {"e", "x"}}

// far19 are long names that differ only at the end, or only at the beginning.
var far19 = []struct{ ns, name string }{
	{"d", strings.Repeat("n", 199) + "x"}, {"d", strings.Repeat("n", 199) + "y"}, {"d", "x" + strings.Repeat("n", 199)},
}

func reads19() (ret []call19) {
	accept := func(f form) map[string]string {
		switch f {
		case asYAML:
			return map[string]string{"Accept": "application/yaml"}
		case asTable:
			return map[string]string{"Accept": "application/json;as=Table;v=v1;g=meta.k8s.io"}
		case asPartial:
			return map[string]string{"Accept": "application/json;as=PartialObjectMetadata;v=v1;g=meta.k8s.io"}
		}
		return map[string]string{"Accept": "application/json"}
	}
	for _, k := range append(append(names19[:3:3], far19...), struct{ ns, name string }{"d", "z"}, struct{ ns, name string }{"f", "x"}) {
		for f := plain; f <= asPartial; f++ {
			ret = append(ret, call19{request{method: "GET", path: path19(k.ns, k.name), head: accept(f)}, f, func(st store19) want19 {
				o := st[key19(k.ns, k.name)]
				if o == nil {
					return want19{code: 404, next: st}
				}
				return want19{code: 200, obj: o, next: st}
			}})
		}
	}
	for _, ns := range []string{"", "d", "e", "f"} {
		for i, s := range selectors19() {
			for f := plain; f <= asPartial; f++ {
				if f != plain && i > 7 {
					continue
				}
				p := path19(ns, "")
				if q := s.query(); q != "" {
					p += "?" + q
				}
				h := accept(f)
				if f == asPartial {
					h["Accept"] = strings.Replace(h["Accept"], "Metadata", "MetadataList", 1)
				}
				ret = append(ret, call19{request{method: "GET", path: p, head: h}, f, func(st store19) want19 {
					return want19{code: 200, list: selected(st, ns, s), next: st}
				}})
			}
		}
		for _, q := range []string{"labelSelector=%3D%3D", "labelSelector=l+in+1", "fieldSelector=metadata.name"} {
			ret = append(ret, call19{request{method: "GET", path: path19(ns, "") + "?" + q, head: accept(plain)}, plain, refused})
		}
	}
	return ret
}

func refused(st store19) want19 { return want19{code: 400, next: st} }

func selected(st store19, ns string, s selector19) []string {
	ret := []string{}
	for k, o := range st {
		n, _ := meta19(o)["namespace"].(string)
		name, _ := meta19(o)["name"].(string)
		if (ns == "" || n == ns) && s.match(n, name, labels19(o)) {
			ret = append(ret, k)
		}
	}
	sort.Strings(ret)
	return ret
}

// mergePatch is RFC 7386.
func mergePatch(target any, patch any) any {
	p, ok := patch.(map[string]any)
	if !ok {
		return patch
	}
	ret := map[string]any{}
	if t, ok := target.(map[string]any); ok {
		for k, v := range t {
			ret[k] = v
		}
	}
	for k, v := range p {
		if v == nil {
			delete(ret, k)
		} else {
			ret[k] = mergePatch(ret[k], v)
		}
	}
	return ret
}

type patch19 struct {
	kind, body string
	apply      func(o map[string]any) map[string]any // nil: not applicable
}

func patches19() (ret []patch19) {
	for _, b := range []string{
		`{"data":{"p":"1"}}`, `{"data":{"a":null}}`, `{"data":null}`, `{"data":[1]}`, `{"metadata":{"labels":{"l":"2"}}}`, `{"metadata":{"labels":{"l":null}}}`, `{"metadata":{"labels":null}}`,
		`{"metadata":{"annotations":{"a":"2"}}}`, `{"status":{"conditions":[{"type":"Ready","status":"False"}]}}`, `{"status":{"z":{"y":{"x":1}}}}`, `{}`, `{"big":9007199254740995,"float":2.5,"flag":true}`,
	} {
		ret = append(ret, patch19{"merge", b, func(o map[string]any) map[string]any {
			return mergePatch(o, decode19(b)).(map[string]any)
		}})
	}
	data := func(o map[string]any) map[string]any { m, _ := o["data"].(map[string]any); return m }
	change := func(o map[string]any, f func(d map[string]any)) map[string]any {
		c := clone(o)
		f(c)
		return c
	}
	ret = append(ret,
		patch19{"json", `[]`, func(o map[string]any) map[string]any { return o }},
		patch19{"json", `[{"op":"add","path":"/new","value":{"a":[1]}}]`, func(o map[string]any) map[string]any {
			return change(o, func(c map[string]any) { c["new"] = map[string]any{"a": []any{int64(1)}} })
		}},
		patch19{"json", `[{"op":"add","path":"/data/q","value":"2"}]`, func(o map[string]any) map[string]any {
			if data(o) == nil {
				return nil
			}
			return change(o, func(c map[string]any) { data(c)["q"] = "2" })
		}},
		patch19{"json", `[{"op":"remove","path":"/data/a"}]`, func(o map[string]any) map[string]any {
			if _, ok := data(o)["a"]; !ok {
				return nil
			}
			return change(o, func(c map[string]any) { delete(data(c), "a") })
		}},
		patch19{"json", `[{"op":"test","path":"/data/a","value":1},{"op":"replace","path":"/data/a","value":2}]`, func(o map[string]any) map[string]any {
			if canon(data(o)["a"]) != "1" {
				return nil
			}
			return change(o, func(c map[string]any) { data(c)["a"] = int64(2) })
		}},
		patch19{"json", `[{"op":"add","path":"/first","value":1},{"op":"test","path":"/data","value":"text"}]`, func(o map[string]any) map[string]any {
			if o["data"] != "text" {
				return nil
			}
			return change(o, func(c map[string]any) { c["first"] = int64(1) })
		}},
		patch19{"json", `[{"op":"replace","path":"/metadata/labels/l","value":"2"}]`, func(o map[string]any) map[string]any {
			if _, ok := labels19(o)["l"]; !ok {
				return nil
			}
			return change(o, func(c map[string]any) { labels19(c)["l"] = "2" })
		}},
	)
	// Patches that cannot be.
	for _, b := range []string{`{"metadata":{"name":"q"}}`, `{"metadata":{"namespace":"e2"}}`, `[1]`, `{`, `"x"`} {
		ret = append(ret, patch19{"merge", b, func(map[string]any) map[string]any { return nil }})
	}
	for _, b := range []string{`[{"op":"replace","path":"/metadata/name","value":"q"}]`, `[{"op":"move"}]`, `{}`, `[`} {
		ret = append(ret, patch19{"json", b, func(map[string]any) map[string]any { return nil }})
	}
	return ret
}

func decode19(s string) any {
	var u unstructured.Unstructured
	if err := json.Unmarshal([]byte(`{"apiVersion":"v1","kind":"V","x":`+s+`}`), &u); err != nil {
		core.Abort("decode %s: %v", s, err)
	}
	return u.Object["x"]
}

func post19(ns, body string, mean func(st store19) want19) call19 {
	return call19{request{method: "POST", path: path19(ns, ""), body: body}, plain, mean}
}

func create19(ns string, o map[string]any) func(st store19) want19 {
	return func(st store19) want19 {
		o := clone(o)
		meta19(o)["namespace"] = ns
		k := key19(ns, meta19(o)["name"].(string))
		n := st.copy()
		n[k] = o
		w := want19{code: 201, obj: o, next: n}
		if st[k] != nil { // whether this replaces the object or is refused is left open
			return want19{code: 409, next: st, alt: &w}
		}
		return w
	}
}

func put19(ns, name string, o map[string]any) call19 {
	return call19{request{method: "PUT", path: path19(ns, name), body: canon(o)}, plain, func(st store19) want19 {
		o := clone(o)
		meta19(o)["namespace"] = ns
		k := key19(ns, name)
		if st[k] == nil {
			return want19{code: 404, next: st}
		}
		n := st.copy()
		n[k] = o
		return want19{code: 200, obj: o, next: n}
	}}
}

func patchCall(ns, name string, p patch19) call19 {
	return call19{request{method: "PATCH", path: path19(ns, name), body: p.body, head: map[string]string{"Content-Type": "application/" + p.kind + "-patch+json"}}, plain, func(st store19) want19 {
		k := key19(ns, name)
		if st[k] == nil {
			return want19{code: 400, next: st} // absent, or malformed
		}
		o := p.apply(st[k])
		if o == nil {
			return want19{code: 400, next: st}
		}
		n := st.copy()
		n[k] = o
		return want19{code: 200, obj: o, next: n}
	}}
}

func delete19(ns, name, body string) call19 {
	return call19{request{method: "DELETE", path: path19(ns, name), body: body}, plain, func(st store19) want19 {
		k := key19(ns, name)
		if st[k] == nil {
			return want19{code: 404, next: st}
		}
		n := st.copy()
		delete(n, k)
		return want19{code: 200, next: n}
	}}
}

func writes19() (ret []call19) {
	add := func(cs ...call19) { ret = append(ret, cs...) }
	for _, k := range append(names19[:3:3], struct{ ns, name string }{"f", "z"}) {
		for i := 1; i <= 3; i++ {
			o := object19("", k.name, i)
			add(post19(k.ns, canon(o), create19(k.ns, o)))
			o = object19(k.ns, k.name, i)
			add(post19(k.ns, canon(o), create19(k.ns, o)))
			add(put19(k.ns, k.name, object19("", k.name, i)), put19(k.ns, k.name, o))
			y, err := yaml.Marshal(o)
			if err != nil {
				core.Abort("yaml: %v", err)
			}
			c := post19(k.ns, string(y), create19(k.ns, o))
			c.head = map[string]string{"Content-Type": "application/yaml"}
			add(c)
			c = put19(k.ns, k.name, o)
			c.body, c.head = string(y), map[string]string{"Content-Type": "application/yaml"}
			add(c)
		}
		for _, p := range patches19() {
			add(patchCall(k.ns, k.name, p))
		}
		c := patchCall(k.ns, k.name, patch19{"text", `{}`, func(map[string]any) map[string]any { return nil }})
		c.head = map[string]string{"Content-Type": "text/plain"}
		add(c)
		add(delete19(k.ns, k.name, ""))
		for _, v := range []string{`"apiVersion":"v1","kind":"DeleteOptions",`, `"apiVersion":"meta.k8s.io/v1","kind":"DeleteOptions",`, ``} {
			add(delete19(k.ns, k.name, `{`+v+`"propagationPolicy":"Background"}`), delete19(k.ns, k.name, `{`+v+`"gracePeriodSeconds":0}`))
			d := delete19(k.ns, k.name, `{`+v+`"dryRun":["All"]}`)
			mean := d.mean
			d.mean = func(st store19) want19 { w := mean(st); w.next = st; return w }
			add(d)
		}
	}
	for _, k := range far19 {
		o := object19(k.ns, k.name, 2)
		add(post19(k.ns, canon(o), create19(k.ns, o)), put19(k.ns, k.name, o), delete19(k.ns, k.name, ""))
		for _, p := range patches19()[:2] {
			add(patchCall(k.ns, k.name, p))
		}
	}
	// Names that the server chooses.
	for _, ns := range []string{"d", "e"} {
		o := object19("", "", 1)
		meta19(o)["generateName"] = "gen-"
		add(post19(ns, canon(o), func(st store19) want19 {
			o := clone(o)
			meta19(o)["namespace"] = ns
			return want19{code: 201, obj: o, next: st, gen: "gen-"}
		}))
	}
	// Requests that cannot be.
	bad := func(method, path, body string) {
		add(call19{request{method: method, path: path, body: body}, plain, refused})
	}
	bad("POST", path19("d", ""), canon(object19("e", "z", 1)))
	bad("POST", path19("d", ""), canon(object19("e", "x", 2)))
	bad("POST", path19("d", ""), canon(object19("", "", 1)))
	bad("POST", path19("d", ""), `{"kind":"V","metadata":{"name":"x"}}`)
	bad("POST", path19("d", ""), `{"apiVersion":"`+kind19.GroupVersion().String()+`","metadata":{"name":"x"}}`)
	bad("POST", path19("d", ""), `{"apiVersion":"`+group2+`/v1alpha1","kind":"V","metadata":{"name":"x"}}`)
	bad("POST", path19("d", ""), `{"apiVersion":`)
	bad("POST", path19("d", ""), `[]`)
	bad("POST", path19("d", ""), ``)
	for _, k := range names19 {
		other := map[string]string{"x": "y", "y": "x"}[k.name]
		bad("PUT", path19(k.ns, k.name), canon(object19("", other, 3)))
		bad("PUT", path19(k.ns, k.name), canon(object19("g", k.name, 3)))
		bad("PUT", path19(k.ns, k.name), canon(object19("", "", 3)))
		bad("PUT", path19(k.ns, k.name), `{`)
		bad("PUT", path19(k.ns, k.name), `{"apiVersion":"`+group2+`/v1alpha1","kind":"V","metadata":{"name":"`+k.name+`"}}`)
		for _, sub := range []string{"status", "scale", "nothing"} {
			bad("GET", path19(k.ns, k.name)+"/"+sub, "")
			bad("PUT", path19(k.ns, k.name)+"/"+sub, canon(object19("", k.name, 3)))
			bad("DELETE", path19(k.ns, k.name)+"/"+sub, "")
		}
		bad("OPTIONS", path19(k.ns, k.name), "")
	}
	bad("PUT", path19("d", ""), canon(object19("", "x", 1)))
	bad("PATCH", path19("d", ""), "{}")
	// Collections.
	for _, ns := range []string{"d", "e", "f"} {
		for _, s := range selectors19() {
			p := path19(ns, "")
			if q := s.query(); q != "" {
				p += "?" + q
			}
			add(call19{request{method: "DELETE", path: p}, plain, func(st store19) want19 {
				n := st.copy()
				for _, k := range selected(st, ns, s) {
					delete(n, k)
				}
				return want19{code: 200, next: n}
			}})
		}
		for _, v := range []string{"v1", "meta.k8s.io/v1"} {
			b := `{"apiVersion":"` + v + `","kind":"DeleteOptions","dryRun":["All"]}`
			add(call19{request{method: "DELETE", path: path19(ns, ""), body: b}, plain, func(st store19) want19 { return want19{code: 200, next: st} }})
		}
		bad("DELETE", path19(ns, "")+"?labelSelector=%3D%3D", "")
		bad("DELETE", path19(ns, "")+"?fieldSelector=metadata.name", "")
	}
	// The same, without doing it.
	for _, c := range append([]call19{}, ret...) {
		if c.method == "DELETE" && c.body != "" {
			continue // the options come in the body
		}
		d := c
		if strings.Contains(d.path, "?") {
			d.path += "&dryRun=All"
		} else {
			d.path += "?dryRun=All"
		}
		d.mean = func(st store19) want19 {
			w := c.mean(st)
			w.next = st
			if w.alt != nil {
				alt := *w.alt
				alt.next = st
				w.alt = &alt
			}
			if w.gen != "" {
				w.gen = "?" + w.gen
			}
			return w
		}
		add(d)
		d.path = strings.Replace(d.path, "dryRun=All", "dryRun=Some", 1)
		d.mean = refused
		add(d)
	}
	return ret
}

// strip removes what the server may add to an object.
func strip(o map[string]any) map[string]any {
	c := clone(o)
	for _, f := range []string{"uid", "resourceVersion", "creationTimestamp", "generation", "managedFields", "selfLink"} {
		unstructured.RemoveNestedField(c, "metadata", f)
	}
	return c
}

// decodeObject decodes an object in an answer.
func decodeObject(b []byte) (map[string]any, error) {
	var u any
	if err := json.Unmarshal(b, &u); err != nil {
		return nil, err
	}
	if l, ok := u.(map[string]any); ok && l["items"] != nil {
		var ul unstructured.UnstructuredList
		if err := json.Unmarshal(b, &ul); err != nil {
			return nil, err
		}
		items := []any{}
		for i := range ul.Items {
			items = append(items, ul.Items[i].Object)
		}
		ul.Object["items"] = items
		return ul.Object, nil
	}
	var o unstructured.Unstructured
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	return o.Object, nil
}

// summary is what a table must show of the conditions of an object.
func summary(o map[string]any) string {
	m, _ := o["status"].(map[string]any)
	cs, _ := m["conditions"].([]any)
	var known, other []string
	for _, t := range []string{"Ready", "Available", "Progressing", "Degraded"} {
		for _, c := range cs {
			if c := c.(map[string]any); c["type"] == t {
				known = append(known, fmt.Sprintf("%v:%v", t, c["status"]))
			}
		}
	}
	for _, c := range cs {
		c := c.(map[string]any)
		switch c["type"] {
		case "Ready", "Available", "Progressing", "Degraded":
		default:
			other = append(other, fmt.Sprintf("%v:%v", c["type"], c["status"]))
		}
	}
	return short(append(known, other...))
}

func short(l []string) string {
	if len(l) == 0 {
		return "<none>"
	}
	if len(l) > 3 {
		return fmt.Sprintf("%s +%d more", strings.Join(l[:3], ","), len(l)-3)
	}
	return strings.Join(l, ",")
}

// row is what a table must show of an object.
func row(o map[string]any) string {
	m := meta19(o)
	ls := []string{}
	for k, v := range labels19(o) {
		ls = append(ls, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(ls)
	lab := short(ls)
	if len(ls) > 3 {
		lab = fmt.Sprintf("3 of %d", len(ls)) // which ones is left open
	}
	ann := "<none>"
	if as, _ := m["annotations"].(map[string]any); len(as) > 0 {
		ann = fmt.Sprint(len(as))
	}
	return fmt.Sprintf("%v|%v|%s|%s|%s", m["namespace"], m["name"], summary(o), lab, ann)
}

// rows are what a table in an answer shows.
func rows(a answer, st store19) ([]string, error) {
	var t struct {
		Kind              string
		APIVersion        string
		ColumnDefinitions []struct{ Name string }
		Rows              []struct {
			Cells  []any
			Object map[string]any
		}
	}
	if err := json.Unmarshal(a.body, &t); err != nil || t.Kind != "Table" || t.APIVersion != "meta.k8s.io/v1" {
		return nil, core.V("not a table: %s", a)
	}
	var ret []string
	for _, r := range t.Rows {
		if len(r.Cells) != len(t.ColumnDefinitions) {
			return nil, core.V("a row of %d cells in a table of %d columns", len(r.Cells), len(t.ColumnDefinitions))
		}
		c := map[string]string{}
		for i, d := range t.ColumnDefinitions {
			c[d.Name] = fmt.Sprint(r.Cells[i])
		}
		m := meta19(r.Object)
		if m["name"] != c["Name"] || m["namespace"] != c["Namespace"] {
			return nil, core.V("the row of %s/%s is of object %v/%v", c["Namespace"], c["Name"], m["namespace"], m["name"])
		}
		o := st[key19(c["Namespace"], c["Name"])]
		head, tail, more := strings.Cut(c["Labels"], " +")
		ls := strings.Split(head, ",")
		sort.Strings(ls)
		lab := strings.Join(ls, ",")
		if more {
			for _, l := range ls {
				k, v, _ := strings.Cut(l, "=")
				if x, ok := labels19(o)[k]; !ok || x != v {
					return nil, core.V("%s has no label %q", c["Name"], l)
				}
			}
			n := 0
			if _, err := fmt.Sscanf(tail, "%d more", &n); err != nil {
				return nil, core.V("labels %q", c["Labels"])
			}
			lab = fmt.Sprintf("%d of %d", len(ls), len(ls)+n)
		}
		ret = append(ret, fmt.Sprintf("%s|%s|%s|%s|%s", c["Namespace"], c["Name"], c["Conditions"], lab, c["Annotations"]))
	}
	sort.Strings(ret)
	return ret, nil
}

// judge compares an answer with what it must be.
func (c call19) judge(a answer, w want19, st store19) error {
	if w.code == 400 && a.code/100 == 4 || w.code == a.code && w.code >= 400 {
		// Errors are told as a Status with the same code.
		if m := a.object(); m != nil && m["kind"] == "Status" && (m["status"] != "Failure" || fmt.Sprint(m["code"]) != fmt.Sprint(a.code)) {
			return core.V("%s: answered with code %d and %s", c.request, a.code, a.body)
		}
		return nil
	}
	if a.code != w.code {
		return core.V("%s: answered with %s instead of %d", c.request, a, w.code)
	}
	body := a.body
	switch c.form {
	case asYAML:
		var err error
		if body, err = yaml.YAMLToJSON(a.body); err != nil || json.Valid(a.body) {
			return core.V("%s: answered with %s", c.request, a)
		}
	case asTable:
		var exp []string
		if w.obj != nil {
			exp = append(exp, row(w.obj))
		}
		for _, k := range w.list {
			exp = append(exp, row(st[k]))
		}
		got, err := rows(a, st)
		if err != nil {
			return core.V("%s: %v", c.request, err)
		}
		sort.Strings(exp)
		if canon(got) != canon(exp) {
			return core.V("%s: the table shows %q instead of %q", c.request, got, exp)
		}
		return nil
	}
	if w.obj == nil && w.list == nil {
		return nil // deleted: the answer may be anything
	}
	got, err := decodeObject(body)
	if err != nil {
		return core.V("%s: answered with %s", c.request, a)
	}
	view := func(o map[string]any) map[string]any {
		if c.form == asPartial {
			return map[string]any{"apiVersion": "meta.k8s.io/v1", "kind": "PartialObjectMetadata", "metadata": strip(o)["metadata"]}
		}
		return strip(o)
	}
	if w.list != nil {
		kind := kind19.Kind + "List"
		gv := kind19.GroupVersion().String()
		if c.form == asPartial {
			kind, gv = "PartialObjectMetadataList", "meta.k8s.io/v1"
		}
		if got["kind"] != kind || got["apiVersion"] != gv {
			return core.V("%s: answered with %s", c.request, a)
		}
		items, _ := got["items"].([]any)
		var is, es []string
		for _, i := range items {
			m, _ := i.(map[string]any)
			is = append(is, canon(strip(m)))
		}
		for _, k := range w.list {
			es = append(es, canon(view(st[k])))
		}
		sort.Strings(is)
		sort.Strings(es)
		if canon(is) != canon(es) {
			return core.V("%s: answered with %q instead of %q", c.request, is, es)
		}
		return nil
	}
	o := strip(got)
	if w.gen != "" {
		n, _ := meta19(o)["name"].(string)
		if p := strings.TrimPrefix(w.gen, "?"); !strings.HasPrefix(n, p) || len(n) == len(p) {
			return core.V("%s: the new object's name is %q", c.request, n)
		}
		delete(meta19(o), "name")
	}
	if x, y := canon(o), canon(view(w.obj)); x != y {
		return core.V("%s: answered with %s instead of %s", c.request, x, y)
	}
	return nil
}

// others are objects of other kinds, which no request may touch.
func others() []map[string]any {
	return []map[string]any{object(group1, "W", "d", "x", "other"), object(group2, "V", "d", "x", "other"), object(group2, "V", "e", "x", "other")}
}

func serve19(wrap func(client.Client) client.Client) *server {
	return newServerWith(func(c *apiserver.Config) { c.Authenticator = byHeader{} }, wrap, kind19, gvk("op1", "W"), gvk("op2", "V"))
}

func (s *server) fill19(st store19) {
	objs := others()
	for _, k := range core.Keys(st) {
		objs = append(objs, st[k])
	}
	s.fill(objs...)
}

// stored19 compares what is stored with the reference, and completes the reference with the name of
// a new object.
func (s *server) stored19(w want19) (store19, error) {
	exp := map[string]string{}
	for _, o := range others() {
		g, _, _ := strings.Cut(o["apiVersion"].(string), "/")
		m := meta19(o)
		exp[fmt.Sprintf("%s/%s/%s/%s", g, o["kind"], m["namespace"], m["name"])] = canon(o)
	}
	pre := kind19.Group + "/" + kind19.Kind + "/"
	for k, o := range w.next {
		exp[pre+k] = canon(strip(o))
	}
	next := w.next
	for k, o := range s.stored() {
		o = strip(o)
		if e, ok := exp[k]; ok {
			if e != canon(o) {
				return nil, core.V("stored is %s instead of %s", canon(o), e)
			}
			delete(exp, k)
			continue
		}
		n, _ := meta19(o)["name"].(string)
		if w.gen == "" || w.gen[0] == '?' || !strings.HasPrefix(n, w.gen) || len(n) == len(w.gen) {
			return nil, core.V("stored is an unexpected %s", canon(o))
		}
		e := clone(w.obj)
		meta19(e)["name"] = n
		if canon(e) != canon(o) {
			return nil, core.V("stored is %s instead of %s", canon(o), canon(e))
		}
		next = next.copy()
		next[strings.TrimPrefix(k, pre)] = e
		w.gen = ""
	}
	for k := range exp {
		return nil, core.V("%s is no longer stored", k)
	}
	if w.gen != "" && w.gen[0] != '?' {
		return nil, core.V("the new object is not stored")
	}
	return next, nil
}

func states19() (ret []store19) {
	for a := 0; a < 4; a++ {
		for b := 0; b < 4; b++ {
			for c := 0; c < 4; c++ {
				st := store19{}
				for i, x := range []int{a, b, c} {
					if x > 0 {
						k := names19[i]
						st[key19(k.ns, k.name)] = object19(k.ns, k.name, x)
					}
				}
				ret = append(ret, st)
			}
		}
	}
	return ret
}

// many19 is a state with many objects.
func many19() store19 {
	st := store19{}
	for i := range 60 {
		ns, name := []string{"d", "e", "d"}[i%3], fmt.Sprintf("o%d", i)
		st[key19(ns, name)] = object19(ns, name, i%7%3+1)
	}
	for i, k := range names19 {
		st[key19(k.ns, k.name)] = object19(k.ns, k.name, i+1)
	}
	for i, k := range far19 {
		st[key19(k.ns, k.name)] = object19(k.ns, k.name, i+1)
	}
	return st
}

// pages19 lists in pages of all sizes.
func pages19(r *core.Run, s *server) {
	st := many19()
	s.fill19(st)
	for _, ns := range []string{"", "d", "e", "f"} {
		for _, sel := range []selector19{selectors19()[0], selectors19()[6], selectors19()[12]} {
			for _, n := range []int{1, 2, 7, 40, 63, 500} {
				r.Exec(fmt.Sprintf("pages of %d in %q by %q", n, ns, sel.query()), nil, func(t *core.T) error {
					var got []string
					cont := ""
					for range 100 {
						p := fmt.Sprintf("%s?limit=%d", path19(ns, ""), n)
						if q := sel.query(); q != "" {
							p += "&" + q
						}
						if cont != "" {
							p += "&continue=" + url.QueryEscape(cont)
						}
						a := s.do(request{method: "GET", path: p})
						if a.code != 200 {
							return core.V("GET %s: %s", p, a)
						}
						m := a.object()
						l, _ := m["items"].([]any)
						for _, x := range l {
							o, _ := x.(map[string]any)
							got = append(got, fmt.Sprintf("%v/%v", meta19(o)["namespace"], meta19(o)["name"]))
						}
						if cont, _ = meta19(m)["continue"].(string); cont == "" {
							break
						}
					}
					sort.Strings(got)
					if want := selected(st, ns, sel); canon(got) != canon(want) && len(got)+len(want) > 0 {
						return core.V("listing %q by %q in pages of %d gives %q, stored is %q", ns, sel.query(), n, got, want)
					}
					t.Step(canon(got))
					t.Out("%d", len(got))
					return nil
				})
			}
		}
	}
}

func name19(st store19) string {
	if len(st) > 20 {
		return fmt.Sprintf("{%d objects}", len(st))
	}
	var ret []string
	for _, k := range core.Keys(st) {
		n := 0
		for i := 1; i <= 3; i++ {
			ns, name, _ := strings.Cut(k, "/")
			if canon(st[k]) == canon(object19(ns, name, i)) {
				n = i
			}
		}
		ret = append(ret, fmt.Sprintf("%s:%d", k, n))
	}
	return "{" + strings.Join(ret, " ") + "}"
}

func runP19(r *core.Run) {
	plain := &servers{make: func() *server { return serve19(nil) }}
	defer func() { plain.stop() }()
	everywhere(r, plain)
	s := plain.get()
	pages19(r, s)
	plain.put(s)
	sequences(r, plain)
	together(r)
}

// everywhere sends every request in every state.
func everywhere(r *core.Run, pool *servers) {
	rs, ws := reads19(), writes19()
	all := append(append([]call19{}, rs...), ws...)
	sts := append([]store19{many19()}, states19()...)
	var mu sync.Mutex
	tables := map[string]string{}
	for _, order := range []int{vrt.Asc, vrt.Desc} {
		vrt.SetOrder(order)
		r.Space("requests in states", "states", len(sts), "requests", len(all), "map_order", order)
		r.Parallel(len(sts), func(i int) {
			st := sts[i]
			s := pool.get()
			defer pool.put(s)
			s.fill19(st)
			for j, c := range all {
				if order != vrt.Asc && c.form != asTable && j%16 != 0 {
					continue // the order of maps matters to few
				}
				r.Exec(fmt.Sprintf("%s %s (form %d, order %d)", name19(st), c.request, c.form, order), c.request.String(), func(t *core.T) error {
					a := s.do(c.request)
					w := c.mean(st).given(a.code)
					err := c.judge(a, w, st)
					next, err2 := s.stored19(w)
					changed := err2 != nil || canon(next) != canon(st)
					if changed {
						s.fill19(st)
					}
					if err == nil && err2 != nil {
						err = core.V("%s, answered with %s: %v", c.request, a, err2)
					}
					if err == nil && c.form == asTable && a.code == 200 {
						id := name19(st) + c.request.String()
						got := cells(a)
						mu.Lock()
						was, ok := tables[id]
						tables[id] = got
						mu.Unlock()
						if ok && was != got {
							err = core.V("%s: the same table is shown as %s and as %s", c.request, was, got)
						}
					}
					if err == nil {
						t.Step(canon(next))
						t.Out("%s %d %s", c.method, a.code, name19(next))
					}
					return err
				})
			}
		})
	}
	vrt.SetOrder(vrt.Asc)
}

// cells are the rows of a table, as they are shown, in the order of names.
func cells(a answer) string {
	l, _ := a.object()["rows"].([]any)
	var ret []string
	for _, r := range l {
		m, _ := r.(map[string]any)
		ret = append(ret, canon(m["cells"]))
	}
	sort.Strings(ret)
	return strings.Join(ret, " ")
}

// A watch over HTTP.
type watch19 struct {
	ns     string
	sel    selector19
	get    func() (map[string]any, error)
	cancel func()
}

func (s *server) watch(ns string, sel selector19) (*watch19, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	p := path19(ns, "") + "?watch=true"
	if q := sel.query(); q != "" {
		p += "&" + q
	}
	req, _ := http.NewRequestWithContext(ctx, "GET", s.base+p, nil)
	resp, err := s.client.Do(req)
	if err != nil {
		cancel()
		return nil, core.V("GET %s: %v", p, err)
	}
	if resp.StatusCode != 200 {
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		cancel()
		return nil, core.V("GET %s: %d %s", p, resp.StatusCode, b)
	}
	rd := bufio.NewReader(resp.Body)
	return &watch19{ns, sel, func() (map[string]any, error) {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return nil, core.V("the watch %s ends: %v", p, err)
		}
		var ev struct {
			Type   string
			Object json.RawMessage
		}
		if err := json.Unmarshal(line, &ev); err != nil {
			return nil, core.V("the watch %s shows %q", p, line)
		}
		o, err := decodeObject(ev.Object)
		if err != nil {
			return nil, core.V("the watch %s shows %q", p, line)
		}
		return map[string]any{"type": ev.Type, "object": o}, nil
	}, func() { cancel(); resp.Body.Close() }}, nil
}

// sequences sends all short sequences of changes while watches of all kinds are open.
func sequences(r *core.Run, pool *servers) {
	var ops []call19
	for _, k := range names19[:2] {
		for i := 1; i <= 2; i++ {
			o := object19(k.ns, k.name, i)
			ops = append(ops, post19(k.ns, canon(o), create19(k.ns, o)), put19(k.ns, k.name, o))
		}
		ps := patches19()
		ops = append(ops, patchCall(k.ns, k.name, ps[0]), patchCall(k.ns, k.name, ps[4]), patchCall(k.ns, k.name, ps[6]), delete19(k.ns, k.name, ""))
	}
	o := object19("e", "x", 1)
	ops = append(ops, post19("e", canon(o), create19("e", o)), delete19("e", "x", ""))
	for _, s := range selectors19()[:8] {
		if s.fields == "" || s.fields == "metadata.name=x" {
			ops = append(ops, call19{request{method: "DELETE", path: path19("d", "") + "?" + s.query()}, plain, func(st store19) want19 {
				n := st.copy()
				for _, k := range selected(st, "d", s) {
					delete(n, k)
				}
				return want19{code: 200, next: n}
			}})
		}
	}
	ops = append(ops, func() call19 {
		c := put19("d", "x", object19("d", "x", 2))
		c.path += "?dryRun=All"
		m := c.mean
		c.mean = func(st store19) want19 { w := m(st); w.next = st; return w }
		return c
	}())
	depth := r.Pick(2, 3)
	starts := []store19{{}, states19()[1*16+2*4+3]}
	var hs [][]int
	var gen func(h []int)
	gen = func(h []int) {
		if len(h) == depth {
			hs = append(hs, append([]int{}, h...))
			return
		}
		for i := range ops {
			gen(append(h, i))
		}
	}
	gen(nil)
	var sels []selector19
	for _, s := range selectors19() {
		switch s.labels + "|" + s.fields {
		case "|", "l=1|", "l!=1|", "!l|", "|metadata.name=x", "|metadata.name!=x", "|metadata.namespace=d", "l=1|metadata.name=x":
			sels = append(sels, s)
		}
	}
	r.Space("sequences", "operations", len(ops), "depth", depth, "starts", len(starts), "watches", len(sels)*3, "sequences", len(hs)*len(starts))
	r.Parallel(len(hs)*len(starts), func(n int) {
		h, st0 := hs[n/len(starts)], starts[n%len(starts)]
		var id []string
		for _, i := range h {
			id = append(id, ops[i].request.String())
		}
		r.Exec(name19(st0)+" "+strings.Join(id, "; "), id, func(t *core.T) error {
			s := pool.get()
			defer pool.put(s)
			s.fill19(st0)
			var watches []*watch19
			defer func() {
				for _, w := range watches {
					w.cancel()
				}
			}()
			for _, ns := range []string{"", "d", "e"} {
				for _, sel := range sels {
					if ns == "e" && sel.fields == "metadata.namespace=d" {
						continue
					}
					w, err := s.watch(ns, sel)
					if err != nil {
						return err
					}
					watches = append(watches, w)
				}
			}
			trail := []store19{st0}
			st := st0
			for _, i := range h {
				w := ops[i].mean(st)
				if w.alt != nil {
					return nil // what watches show of an object created once more is left open
				}
				a := s.do(ops[i].request)
				if err := ops[i].judge(a, w, st); err != nil {
					return err
				}
				next, err := s.stored19(w)
				if err != nil {
					return core.V("%s: %v", ops[i].request, err)
				}
				st = next
				trail = append(trail, st)
				t.Step(canon(st))
				t.Out("%d ", a.code)
			}
			// The end of each watch: a change that it sees.
			for _, ns := range []string{"d", "e"} {
				for _, name := range []string{"x", "y"} {
					for _, l := range []string{"1", ""} {
						o := object19(ns, name, 3)
						o["end"] = "yes"
						if l != "" {
							meta19(o)["labels"] = map[string]any{"l": l}
						}
						s.do(request{method: "POST", path: path19(ns, ""), body: canon(o)})
						if a := s.do(request{method: "PUT", path: path19(ns, name), body: canon(o)}); a.code != 200 {
							return core.V("PUT %s/%s: %s", ns, name, a)
						}
					}
				}
			}
			for _, w := range watches {
				if err := w.compare(trail); err != nil {
					return err
				}
			}
			t.Out("%s", name19(st))
			return nil
		})
	})
}

// compare reads what the watch shows up to its end, and compares it with the history of the store.
func (w *watch19) compare(trail []store19) error {
	in := func(st store19, k string) map[string]any {
		o := st[k]
		if o == nil {
			return nil
		}
		ns, name, _ := strings.Cut(k, "/")
		if w.ns != "" && w.ns != ns || !w.sel.match(ns, name, labels19(o)) {
			return nil
		}
		return o
	}
	what := fmt.Sprintf("the watch of namespace %q with %q", w.ns, w.sel.query())
	// Per object: the versions to be seen, first to last.
	want := map[string][]string{}
	for _, k := range names19 {
		key := key19(k.ns, k.name)
		for i, st := range trail {
			o := in(st, key)
			var p map[string]any
			if i > 0 {
				p = in(trail[i-1], key)
			}
			switch {
			case o != nil && p == nil && i > 0 && trail[i-1][key] != nil: // it comes in by a change
				want[key] = append(want[key], "IN "+canon(strip(o)))
			case o != nil && p == nil:
				want[key] = append(want[key], "ADDED "+canon(strip(o)))
			case o == nil && p != nil:
				want[key] = append(want[key], "DELETED")
			case o != nil && canon(o) != canon(p):
				want[key] = append(want[key], "MODIFIED "+canon(strip(o)))
			}
		}
	}
	got := map[string][]string{}
	for {
		ev, err := w.get()
		if err != nil {
			return core.V("%s: %v; so far %q", what, err, got)
		}
		o := ev["object"].(map[string]any)
		if o["end"] != nil {
			break
		}
		m := meta19(o)
		k := fmt.Sprintf("%v/%v", m["namespace"], m["name"])
		x := fmt.Sprint(ev["type"])
		if x != "DELETED" {
			x += " " + canon(strip(o))
		}
		got[k] = append(got[k], x)
	}
	for k, l := range want {
		for i, x := range l {
			if strings.HasPrefix(x, "IN ") && i < len(got[k]) {
				l[i] = strings.Replace(x, "IN", "ADDED", 1)
				if strings.HasPrefix(got[k][i], "MODIFIED ") {
					l[i] = strings.Replace(x, "IN", "MODIFIED", 1)
				}
			}
		}
		if canon(got[k]) == canon(l) {
			delete(got, k)
			continue
		}
		return core.V("%s shows %q of %s instead of %q", what, got[k], k, l)
	}
	for k, l := range got {
		return core.V("%s shows %q of %s", what, l, k)
	}
	return nil
}

// byHeader takes the user's name from the agent's header, so that requests can be told from each other.
type byHeader struct{}

func (byHeader) AuthenticateRequest(req *http.Request) (*authenticator.Response, bool, error) {
	return &authenticator.Response{User: &user.DefaultInfo{Name: req.Header.Get("X-Thread"), Groups: []string{"system:masters"}}}, true, nil
}

// gate stops the requests' accesses to the storage.
type gate struct {
	client.WithWatch
	stop atomic.Pointer[func(who string)]
}

func (g *gate) at(ctx context.Context) {
	if f := g.stop.Load(); f != nil {
		if u, ok := genericapirequest.UserFrom(ctx); ok {
			(*f)(u.GetName())
		}
	}
}

func (g *gate) Get(ctx context.Context, k client.ObjectKey, o client.Object, opts ...client.GetOption) error {
	g.at(ctx)
	return g.WithWatch.Get(ctx, k, o, opts...)
}

func (g *gate) List(ctx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	g.at(ctx)
	return g.WithWatch.List(ctx, l, opts...)
}

func (g *gate) Create(ctx context.Context, o client.Object, opts ...client.CreateOption) error {
	g.at(ctx)
	return g.WithWatch.Create(ctx, o, opts...)
}

func (g *gate) Update(ctx context.Context, o client.Object, opts ...client.UpdateOption) error {
	g.at(ctx)
	return g.WithWatch.Update(ctx, o, opts...)
}

func (g *gate) Patch(ctx context.Context, o client.Object, p client.Patch, opts ...client.PatchOption) error {
	g.at(ctx)
	return g.WithWatch.Patch(ctx, o, p, opts...)
}

func (g *gate) Delete(ctx context.Context, o client.Object, opts ...client.DeleteOption) error {
	g.at(ctx)
	return g.WithWatch.Delete(ctx, o, opts...)
}

// together sends requests at the same time, in all orders of their accesses to the storage.
func together(r *core.Run) {
	ps := patches19()
	o1, o2 := object19("d", "x", 1), object19("d", "x", 2)
	get := call19{request{method: "GET", path: path19("d", "x")}, plain, func(st store19) want19 {
		if o := st[key19("d", "x")]; o != nil {
			return want19{code: 200, obj: o, next: st}
		}
		return want19{code: 404, next: st}
	}}
	ops := []call19{
		patchCall("d", "x", ps[0]), patchCall("d", "x", ps[7]), patchCall("d", "x", ps[14]), patchCall("d", "x", ps[16]),
		put19("d", "x", o2), delete19("d", "x", ""), post19("d", canon(o1), create19("d", o1)), post19("d", canon(o2), create19("d", o2)),
		get, patchCall("d", "y", ps[0]),
	}
	type scenario struct {
		st  store19
		ops []int
	}
	var scs []scenario
	full := store19{"d/x": o1, "d/y": object19("d", "y", 1)}
	for i := range ops {
		for j := i; j < len(ops); j++ {
			scs = append(scs, scenario{full, []int{i, j}}, scenario{store19{"d/y": full["d/y"]}, []int{i, j}})
		}
	}
	if r.Thorough() {
		for i := range ops {
			for j := i; j < len(ops); j++ {
				for k := j; k < len(ops); k++ {
					scs = append(scs, scenario{full, []int{i, j, k}})
				}
			}
		}
	}
	pool := &servers{make: func() *server {
		g := &gate{}
		s := serve19(func(c client.Client) client.Client {
			w, ok := c.(client.WithWatch)
			if !ok {
				core.Abort("the client cannot watch")
			}
			g.WithWatch = w
			return g
		})
		s.gate = g
		s.settle()
		return s
	}}
	defer pool.stop()
	var total atomic.Int64
	r.Parallel(len(scs), func(i int) {
		sc := scs[i]
		var id []string
		for _, o := range sc.ops {
			id = append(id, ops[o].request.String())
		}
		n := r.Explore(name19(sc.st)+" "+strings.Join(id, " || "), 0, func(t *core.T, c *core.Choices) error {
			s := pool.get()
			defer pool.put(s)
			s.fill19(sc.st)
			as, err := s.atOnce(c, sc.ops, ops)
			if err != nil {
				return err
			}
			// Some order must explain it.
			var first error
			ok := false
			var perm func(st store19, done map[int]bool)
			perm = func(st store19, done map[int]bool) {
				if ok {
					return
				}
				if len(done) == len(sc.ops) {
					if _, err := s.stored19(want19{next: st}); err != nil {
						if first == nil {
							first = err
						}
						return
					}
					ok = true
					t.Step(canon(st))
					return
				}
				for j, o := range sc.ops {
					if done[j] {
						continue
					}
					w := ops[o].mean(st).given(as[j].code)
					if err := ops[o].judge(as[j], w, st); err != nil {
						if first == nil {
							first = err
						}
						continue
					}
					done[j] = true
					perm(w.next, done)
					delete(done, j)
				}
			}
			perm(sc.st, map[int]bool{})
			for _, a := range as {
				t.Out("%d ", a.code)
			}
			if !ok {
				return core.V("no order of the requests explains the answers %v and what is stored: %v", as, first)
			}
			return nil
		})
		total.Add(int64(n))
	})
	r.Space("requests at the same time", "scenarios", len(scs), "requests", len(ops), "at_once", r.Pick(2, 3), "schedules", total.Load())
}

// patience is how long a request that was let on may take before others are let on as well. It decides on
// what is explored, not on what is found right.
const patience = 60 * time.Millisecond

// atOnce sends requests at the same time; c decides on the order of their accesses to the storage.
func (s *server) atOnce(c *core.Choices, which []int, ops []call19) ([]answer, error) {
	type report struct {
		who  int
		done bool
	}
	reports := make(chan report, 64)
	on := make([]chan struct{}, len(which))
	names := map[string]int{}
	for i := range which {
		on[i] = make(chan struct{}, 64)
		names[fmt.Sprintf("t%d", i)] = i
	}
	hook := func(who string) {
		if i, ok := names[who]; ok {
			reports <- report{i, false}
			<-on[i]
		}
	}
	s.gate.stop.Store(&hook)
	defer s.gate.stop.Store(nil)
	as := make([]answer, len(which))
	const (
		ready = iota
		busy
		over
	)
	state := make([]int, len(which))
	started := make([]bool, len(which))
	note := func(x report) {
		state[x.who] = ready
		if x.done {
			state[x.who] = over
		}
	}
	for {
		var enabled []int
		waiting := false
		for i := range which {
			switch state[i] {
			case ready:
				enabled = append(enabled, i)
			case busy:
				waiting = true
			}
		}
		if len(enabled) == 0 {
			if !waiting {
				return as, nil
			}
			select {
			case x := <-reports:
				note(x)
			case <-time.After(70 * time.Second):
				return nil, core.V("the requests block each other")
			}
			continue
		}
		i := enabled[c.Pick(len(enabled))]
		state[i] = busy
		if started[i] {
			on[i] <- struct{}{}
		} else {
			started[i] = true
			go func() {
				q := ops[which[i]].request
				h := map[string]string{"X-Thread": fmt.Sprintf("t%d", i)}
				for k, v := range q.head {
					h[k] = v
				}
				q.head = h
				as[i] = s.do(q)
				reports <- report{i, true}
			}()
		}
		// Wait for it, and for those that it held up.
		end := time.After(patience)
		for wait := true; wait; {
			wait = false
			for j := range state {
				wait = wait || state[j] == busy
			}
			if wait {
				select {
				case x := <-reports:
					note(x)
				case <-end:
					wait = false
				}
			}
		}
	}
}
