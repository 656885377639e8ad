// Package kfake is an in-memory API server with the semantics clients rely on (resource versions and
// optimistic concurrency, the status subresource, generations, UIDs), and a client wrapper that
// lets a check decide the fate of every call.
package kfake

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	jsonpatch "gopkg.in/evanphx/json-patch.v4"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// Server stores objects.
type Server struct {
	mu   sync.Mutex
	objs map[schema.GroupVersionKind]map[types.NamespacedName]*unstructured.Unstructured
	rv   int
	uid  int
	// NeedRV makes updates without a resource version invalid, as for custom resources.
	NeedRV bool
	// NoStatus are the kinds without a status subresource.
	NoStatus map[string]bool
	// Log are the successful writes.
	Log []string
}

// New makes an empty server.
func New() *Server {
	return &Server{objs: map[schema.GroupVersionKind]map[types.NamespacedName]*unstructured.Unstructured{}, NoStatus: map[string]bool{}}
}

func gr(gvk schema.GroupVersionKind) schema.GroupResource {
	return schema.GroupResource{Group: gvk.Group, Resource: strings.ToLower(gvk.Kind) + "s"}
}

func (s *Server) kind(gvk schema.GroupVersionKind) map[types.NamespacedName]*unstructured.Unstructured {
	m := s.objs[gvk]
	if m == nil {
		m = map[types.NamespacedName]*unstructured.Unstructured{}
		s.objs[gvk] = m
	}
	return m
}

// Peek returns a copy of what is stored, or nil.
func (s *Server) Peek(gvk schema.GroupVersionKind, key types.NamespacedName) *unstructured.Unstructured {
	s.mu.Lock()
	defer s.mu.Unlock()
	if o := s.objs[gvk][key]; o != nil {
		return o.DeepCopy()
	}
	return nil
}

// All returns copies of all objects of a kind by key.
func (s *Server) All(gvk schema.GroupVersionKind) map[string]*unstructured.Unstructured {
	s.mu.Lock()
	defer s.mu.Unlock()
	ret := map[string]*unstructured.Unstructured{}
	for k, o := range s.objs[gvk] {
		ret[k.String()] = o.DeepCopy()
	}
	return ret
}

// Edit changes, creates (when absent) or deletes (when f returns false) an object directly, as another
// writer would.
func (s *Server) Edit(gvk schema.GroupVersionKind, key types.NamespacedName, f func(o *unstructured.Unstructured) bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := s.kind(gvk)
	o := m[key]
	if o == nil {
		o = &unstructured.Unstructured{Object: map[string]any{}}
		o.SetGroupVersionKind(gvk)
		o.SetNamespace(key.Namespace)
		o.SetName(key.Name)
		s.uid++
		o.SetUID(types.UID("uid-" + strconv.Itoa(s.uid)))
		o.SetCreationTimestamp(metav1.Unix(int64(s.uid), 0))
		o.SetGeneration(1)
	} else {
		o = o.DeepCopy()
	}
	if !f(o) {
		delete(m, key)
		return
	}
	s.rv++
	o.SetResourceVersion(strconv.Itoa(s.rv))
	m[key] = o
}

func (s *Server) get(gvk schema.GroupVersionKind, key types.NamespacedName) (*unstructured.Unstructured, error) {
	if gvk.Kind == "" {
		return nil, errors.New("object has no kind")
	}
	o := s.objs[gvk][key]
	if o == nil {
		return nil, apierrors.NewNotFound(gr(gvk), key.Name)
	}
	return o.DeepCopy(), nil
}

func (s *Server) create(o *unstructured.Unstructured) (*unstructured.Unstructured, error) {
	gvk, key := o.GroupVersionKind(), client.ObjectKeyFromObject(o)
	if gvk.Kind == "" || key.Name == "" {
		return nil, apierrors.NewBadRequest("name and kind are required")
	}
	if o.GetResourceVersion() != "" {
		return nil, apierrors.NewBadRequest("resourceVersion should not be set on objects to be created")
	}
	m := s.kind(gvk)
	if m[key] != nil {
		return nil, apierrors.NewAlreadyExists(gr(gvk), key.Name)
	}
	o = o.DeepCopy()
	if !s.NoStatus[gvk.Kind] {
		delete(o.Object, "status")
	}
	s.uid++
	s.rv++
	o.SetUID(types.UID("uid-" + strconv.Itoa(s.uid)))
	o.SetCreationTimestamp(metav1.Unix(int64(s.uid), 0))
	o.SetGeneration(1)
	o.SetResourceVersion(strconv.Itoa(s.rv))
	m[key] = o
	s.Log = append(s.Log, "create "+gvk.Kind+" "+key.String())
	return o.DeepCopy(), nil
}

func (s *Server) update(o *unstructured.Unstructured, status bool) (*unstructured.Unstructured, error) {
	gvk, key := o.GroupVersionKind(), client.ObjectKeyFromObject(o)
	old := s.objs[gvk][key]
	if old == nil || (status && s.NoStatus[gvk.Kind]) {
		return nil, apierrors.NewNotFound(gr(gvk), key.Name)
	}
	rv := o.GetResourceVersion()
	if rv == "" && s.NeedRV {
		return nil, apierrors.NewInvalid(gvk.GroupKind(), key.Name, nil)
	}
	if rv != "" && rv != old.GetResourceVersion() {
		return nil, apierrors.NewConflict(gr(gvk), key.Name, errors.New("the object has been modified"))
	}
	if o.GetUID() != "" && o.GetUID() != old.GetUID() {
		return nil, apierrors.NewConflict(gr(gvk), key.Name, errors.New("UID mismatch"))
	}
	var n *unstructured.Unstructured
	if status {
		n = old.DeepCopy()
		if st, ok := o.Object["status"]; ok {
			n.Object["status"] = runtime.DeepCopyJSONValue(st)
		} else {
			delete(n.Object, "status")
		}
	} else {
		n = o.DeepCopy()
		if !s.NoStatus[gvk.Kind] {
			delete(n.Object, "status")
			if st, ok := old.Object["status"]; ok {
				n.Object["status"] = runtime.DeepCopyJSONValue(st)
			}
		}
		n.SetUID(old.GetUID())
		n.SetCreationTimestamp(old.GetCreationTimestamp())
		n.SetGeneration(old.GetGeneration())
		if !reflect.DeepEqual(content(n), content(old)) {
			n.SetGeneration(old.GetGeneration() + 1)
		}
	}
	n.SetResourceVersion(old.GetResourceVersion())
	if !reflect.DeepEqual(n.Object, old.Object) {
		s.rv++
		n.SetResourceVersion(strconv.Itoa(s.rv))
	}
	s.objs[gvk][key] = n
	what := "update "
	if status {
		what = "status "
	}
	s.Log = append(s.Log, what+gvk.Kind+" "+key.String())
	return n.DeepCopy(), nil
}

func content(o *unstructured.Unstructured) map[string]any {
	m := map[string]any{}
	for k, v := range o.Object {
		if k != "metadata" && k != "status" {
			m[k] = v
		}
	}
	return m
}

// Client returns a client of the server.
func (s *Server) Client() client.Client { return &fakeClient{s} }

type fakeClient struct{ s *Server }

func un(o client.Object) (*unstructured.Unstructured, error) {
	u, ok := o.(*unstructured.Unstructured)
	if !ok {
		return nil, fmt.Errorf("unexpected object type %T", o)
	}
	return u, nil
}

func (c *fakeClient) Get(_ context.Context, key types.NamespacedName, obj client.Object, _ ...client.GetOption) error {
	u, err := un(obj)
	if err != nil {
		return err
	}
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	o, err := c.s.get(u.GroupVersionKind(), key)
	if err != nil {
		return err
	}
	u.Object = o.Object
	return nil
}

func (c *fakeClient) List(_ context.Context, list client.ObjectList, opts ...client.ListOption) error {
	l, ok := list.(*unstructured.UnstructuredList)
	if !ok {
		return fmt.Errorf("unexpected list type %T", list)
	}
	gvk := l.GroupVersionKind()
	gvk.Kind = strings.TrimSuffix(gvk.Kind, "List")
	o := (&client.ListOptions{}).ApplyOptions(opts)
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	l.Items = nil
	var keys []types.NamespacedName
	for k := range c.s.objs[gvk] {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	for _, k := range keys {
		x := c.s.objs[gvk][k]
		if o.Namespace != "" && o.Namespace != k.Namespace {
			continue
		}
		if o.LabelSelector != nil && !o.LabelSelector.Matches(labels.Set(x.GetLabels())) {
			continue
		}
		l.Items = append(l.Items, *x.DeepCopy())
	}
	return nil
}

func (c *fakeClient) Apply(context.Context, runtime.ApplyConfiguration, ...client.ApplyOption) error {
	return errors.New("apply: not supported")
}

func (c *fakeClient) Create(_ context.Context, obj client.Object, _ ...client.CreateOption) error {
	u, err := un(obj)
	if err != nil {
		return err
	}
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	o, err := c.s.create(u)
	if err != nil {
		return err
	}
	u.Object = o.Object
	return nil
}

func (c *fakeClient) Delete(_ context.Context, obj client.Object, opts ...client.DeleteOption) error {
	gvk, key := obj.GetObjectKind().GroupVersionKind(), client.ObjectKeyFromObject(obj)
	o := (&client.DeleteOptions{}).ApplyOptions(opts)
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	x, err := c.s.get(gvk, key)
	if err != nil {
		return err
	}
	if p := o.Preconditions; p != nil {
		if p.UID != nil && *p.UID != x.GetUID() || p.ResourceVersion != nil && *p.ResourceVersion != x.GetResourceVersion() {
			return apierrors.NewConflict(gr(gvk), key.Name, errors.New("precondition failed"))
		}
	}
	delete(c.s.objs[gvk], key)
	c.s.Log = append(c.s.Log, "delete "+gvk.Kind+" "+key.String())
	return nil
}

func (c *fakeClient) upd(obj client.Object, status bool) error {
	u, err := un(obj)
	if err != nil {
		return err
	}
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	o, err := c.s.update(u, status)
	if err != nil {
		return err
	}
	u.Object = o.Object
	return nil
}

func (c *fakeClient) Update(_ context.Context, obj client.Object, _ ...client.UpdateOption) error {
	return c.upd(obj, false)
}

func (c *fakeClient) patch(obj client.Object, p client.Patch, status bool) error {
	u, err := un(obj)
	if err != nil {
		return err
	}
	data, err := p.Data(obj)
	if err != nil {
		return err
	}
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	old, err := c.s.get(u.GroupVersionKind(), client.ObjectKeyFromObject(u))
	if err != nil {
		return err
	}
	js, err := json.Marshal(old.Object)
	if err != nil {
		return err
	}
	switch p.Type() {
	case types.MergePatchType:
		js, err = jsonpatch.MergePatch(js, data)
	case types.JSONPatchType:
		var jp jsonpatch.Patch
		if jp, err = jsonpatch.DecodePatch(data); err == nil {
			js, err = jp.Apply(js)
		}
	default:
		err = fmt.Errorf("patch type %s not supported", p.Type())
	}
	if err != nil {
		return err
	}
	n := &unstructured.Unstructured{}
	if err := n.UnmarshalJSON(js); err != nil {
		return err
	}
	o, err := c.s.update(n, status)
	if err != nil {
		return err
	}
	u.Object = o.Object
	return nil
}

func (c *fakeClient) Patch(_ context.Context, obj client.Object, p client.Patch, _ ...client.PatchOption) error {
	return c.patch(obj, p, false)
}

func (c *fakeClient) DeleteAllOf(context.Context, client.Object, ...client.DeleteAllOfOption) error {
	return errors.New("deleteallof: not supported")
}

func (c *fakeClient) Status() client.SubResourceWriter { return sub{c} }

func (c *fakeClient) SubResource(string) client.SubResourceClient { return sub{c} }
func (c *fakeClient) Scheme() *runtime.Scheme                     { return nil }
func (c *fakeClient) RESTMapper() meta.RESTMapper                 { return nil }
func (c *fakeClient) GroupVersionKindFor(o runtime.Object) (schema.GroupVersionKind, error) {
	return o.GetObjectKind().GroupVersionKind(), nil
}
func (c *fakeClient) IsObjectNamespaced(runtime.Object) (bool, error) { return true, nil }

type sub struct{ c *fakeClient }

func (s sub) Get(context.Context, client.Object, client.Object, ...client.SubResourceGetOption) error {
	return errors.New("subresource get: not supported")
}
func (s sub) Create(context.Context, client.Object, client.Object, ...client.SubResourceCreateOption) error {
	return errors.New("subresource create: not supported")
}
func (s sub) Update(_ context.Context, obj client.Object, opts ...client.SubResourceUpdateOption) error {
	o := (&client.SubResourceUpdateOptions{}).ApplyOptions(opts)
	if o.SubResourceBody != nil {
		obj = o.SubResourceBody
	}
	return s.c.upd(obj, true)
}
func (s sub) Patch(_ context.Context, obj client.Object, p client.Patch, _ ...client.SubResourcePatchOption) error {
	return s.c.patch(obj, p, true)
}

// Call is one call of a client.
type Call struct {
	Verb string // get, list, create, update, status, delete, patch, ...
	GVK  schema.GroupVersionKind
	Key  types.NamespacedName
}

// Fate of a call: Before, if not nil, is returned instead of making it, After is returned after making it
// (whose effects take place). Read, if not nil, is what a get finds instead of what is stored.
type Fate struct {
	Before, After error
	Read          func(obj client.Object) error
}

// Hooked is a client whose calls' fates are decided by Hook.
type Hooked struct {
	client.Client
	Hook func(Call) Fate
}

func (h *Hooked) fate(verb string, obj client.Object, key types.NamespacedName) Fate {
	if h.Hook == nil {
		return Fate{}
	}
	return h.Hook(Call{verb, obj.GetObjectKind().GroupVersionKind(), key})
}

func (h *Hooked) do(verb string, obj client.Object, key types.NamespacedName, f func() error) error {
	ft := h.fate(verb, obj, key)
	if ft.Read != nil {
		return ft.Read(obj)
	}
	if ft.Before != nil {
		return ft.Before
	}
	err := f()
	if err == nil && ft.After != nil {
		return ft.After
	}
	return err
}

func (h *Hooked) Get(ctx context.Context, key types.NamespacedName, obj client.Object, o ...client.GetOption) error {
	return h.do("get", obj, key, func() error { return h.Client.Get(ctx, key, obj, o...) })
}
func (h *Hooked) Create(ctx context.Context, obj client.Object, o ...client.CreateOption) error {
	return h.do("create", obj, client.ObjectKeyFromObject(obj), func() error { return h.Client.Create(ctx, obj, o...) })
}
func (h *Hooked) Update(ctx context.Context, obj client.Object, o ...client.UpdateOption) error {
	return h.do("update", obj, client.ObjectKeyFromObject(obj), func() error { return h.Client.Update(ctx, obj, o...) })
}
func (h *Hooked) Delete(ctx context.Context, obj client.Object, o ...client.DeleteOption) error {
	return h.do("delete", obj, client.ObjectKeyFromObject(obj), func() error { return h.Client.Delete(ctx, obj, o...) })
}
func (h *Hooked) Patch(ctx context.Context, obj client.Object, p client.Patch, o ...client.PatchOption) error {
	return h.do("patch", obj, client.ObjectKeyFromObject(obj), func() error { return h.Client.Patch(ctx, obj, p, o...) })
}
func (h *Hooked) Status() client.SubResourceWriter {
	return &hookedSub{SubResourceClient: nil, w: h.Client.Status(), h: h}
}
func (h *Hooked) SubResource(n string) client.SubResourceClient {
	c := h.Client.SubResource(n)
	return &hookedSub{SubResourceClient: c, w: c, h: h}
}

type hookedSub struct {
	client.SubResourceClient
	w client.SubResourceWriter
	h *Hooked
}

func (s *hookedSub) Create(ctx context.Context, obj client.Object, so client.Object, o ...client.SubResourceCreateOption) error {
	return s.h.do("status", obj, client.ObjectKeyFromObject(obj), func() error { return s.w.Create(ctx, obj, so, o...) })
}
func (s *hookedSub) Update(ctx context.Context, obj client.Object, o ...client.SubResourceUpdateOption) error {
	return s.h.do("status", obj, client.ObjectKeyFromObject(obj), func() error { return s.w.Update(ctx, obj, o...) })
}
func (s *hookedSub) Patch(ctx context.Context, obj client.Object, p client.Patch, o ...client.SubResourcePatchOption) error {
	return s.h.do("status", obj, client.ObjectKeyFromObject(obj), func() error { return s.w.Patch(ctx, obj, p, o...) })
}
