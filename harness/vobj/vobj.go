// Package vobj has the objects that the checks of the view cache write.
package vobj

import (
	"encoding/json"
	"fmt"
	"sort"

	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
)

// Obj is short for what the view cache stores.
type Obj = *unstructured.Unstructured

// M is short for a JSON object.
type M = map[string]any

// GVK returns the kind of a view of an operator.
func GVK(operator, view string) schema.GroupVersionKind {
	return schema.GroupVersionKind{Group: operator + ".view.dcontroller.io", Version: "v1alpha1", Kind: view}
}

// List makes an empty list of objects of a kind.
func List(gvk schema.GroupVersionKind) *unstructured.UnstructuredList {
	l := &unstructured.UnstructuredList{}
	l.SetGroupVersionKind(schema.GroupVersionKind{Group: gvk.Group, Version: gvk.Version, Kind: gvk.Kind + "List"})
	return l
}

// JS parses JSON with numbers as the engine represents them.
func JS(s string) M {
	m := M{}
	if err := json.Unmarshal([]byte(s), &m); err != nil {
		panic(s + ": " + err.Error())
	}
	fix(m)
	return m
}

func fix(v any) any {
	switch x := v.(type) {
	case M:
		for k := range x {
			x[k] = fix(x[k])
		}
	case []any:
		for i := range x {
			x[i] = fix(x[i])
		}
	case float64:
		if x == float64(int64(x)) {
			return int64(x)
		}
	}
	return v
}

// New makes an object with the given content.
func New(gvk schema.GroupVersionKind, key types.NamespacedName, content M) Obj {
	o := &unstructured.Unstructured{Object: runtime.DeepCopyJSON(content)}
	o.SetGroupVersionKind(gvk)
	if key.Namespace != "" {
		o.SetNamespace(key.Namespace)
	}
	o.SetName(key.Name)
	return o
}

// Str is the canonical form of a value.
func Str(v any) string {
	if o, ok := v.(Obj); ok {
		if o == nil {
			return "<nil>"
		}
		v = o.Object
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}

// Strs is Str for lists, sorted.
func Strs(l []unstructured.Unstructured) []string {
	r := make([]string, len(l))
	for i := range l {
		r[i] = Str(l[i].Object)
	}
	sort.Strings(r)
	return r
}

// Merge is the reference of JSON merge patches (RFC 7386).
func Merge(o, m any) any {
	pm, ok := m.(M)
	if !ok {
		return m
	}
	r := M{}
	if om, ok := o.(M); ok {
		for k, v := range om {
			r[k] = v
		}
	}
	for k, v := range pm {
		if v == nil {
			delete(r, k)
			continue
		}
		r[k] = Merge(r[k], v)
	}
	return r
}

// Scramble overwrites everything that can be reached from an object.
func Scramble(v any) {
	switch x := v.(type) {
	case Obj:
		if x != nil {
			Scramble(x.Object)
		}
	case M:
		for k, y := range x {
			Scramble(y)
			switch y.(type) {
			case M, []any:
			default:
				x[k] = "scrambled"
			}
		}
		x["scrambled"] = true
	case []any:
		for i, y := range x {
			Scramble(y)
			switch y.(type) {
			case M, []any:
			default:
				x[i] = "scrambled"
			}
		}
	}
}
