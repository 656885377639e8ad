package main

import (
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"

	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/discovery"
	"k8s.io/client-go/discovery/cached/memory"
	"k8s.io/client-go/restmapper"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"

	"verif/core"
	"verif/vobj"
)

// partly is a native API some groups of which cannot be discovered.
type partly struct {
	discovery.DiscoveryInterface
}

var errPart = &discovery.ErrGroupDiscoveryFailed{Groups: map[schema.GroupVersion]error{{Group: "broken.io", Version: "v1"}: errors.New("down")}}

func (p partly) ServerGroupsAndResources() ([]*metav1.APIGroup, []*metav1.APIResourceList, error) {
	g, r, err := p.DiscoveryInterface.ServerGroupsAndResources()
	must(err)
	return g, r, errPart
}

func (p partly) ServerPreferredResources() ([]*metav1.APIResourceList, error) {
	r, err := p.DiscoveryInterface.ServerPreferredResources()
	must(err)
	return r, errPart
}

func (p partly) ServerPreferredNamespacedResources() ([]*metav1.APIResourceList, error) {
	r, err := p.DiscoveryInterface.ServerPreferredNamespacedResources()
	must(err)
	return r, errPart
}

func (p partly) WithLegacy() discovery.DiscoveryInterface {
	return partly{p.DiscoveryInterface.WithLegacy()}
}

// native is a native API.
type native struct {
	name  string
	disco discovery.DiscoveryInterface
	part  bool
}

func natives() []native {
	d, err := discovery.NewDiscoveryClientForConfig(newKapi().Config())
	must(err)
	m := memory.NewMemCacheClient(d)
	return []native{{"cluster", m, false}, {"partly", partly{m}, true}, {"none", nil, false}}
}

var (
	gAlpha  = vobj.GVK("op1", "Alpha")
	gBeta   = vobj.GVK("op1", "BetaView")
	gAlpha2 = vobj.GVK("op2", "Alpha")
	gWidget = vobj.GVK("op2", "Widget")             // a native kind has the same name
	gMapped = vobj.GVK("apps.v1.op1", "Deployment") // a native kind as a view
	gList   = vobj.GVK("op1", "AlphaList")
	gOther  = schema.GroupVersionKind{Group: "op1.view.dcontroller.io", Version: "v1", Kind: "Alpha"}
)

// regs are the kinds that are registered and unregistered, and whether they are views.
var regs = []struct {
	gvk schema.GroupVersionKind
	ok  bool
}{{gAlpha, true}, {gBeta, true}, {gAlpha2, true}, {gWidget, true}, {gMapped, true}, {gList, false}, {gOther, false}, {widget, false}}

// fewRegs is the number of those that are registered and unregistered in all orders; there are more.
var fewRegs = len(regs)

func init() {
	for i := range 40 {
		regs = append(regs, struct {
			gvk schema.GroupVersionKind
			ok  bool
		}{vobj.GVK([]string{"alpha", "op1", "op7"}[i%3], fmt.Sprintf("Kind%d", i)), true})
	}
}

type change struct {
	add bool
	i   int
}

func (c change) String() string {
	if c.add {
		return "+" + regs[c.i].gvk.String()
	}
	return "-" + regs[c.i].gvk.String()
}

func resourceText(r metav1.APIResource) string {
	v := slices.Clone([]string(r.Verbs))
	sort.Strings(v)
	return fmt.Sprintf("%s/%s/%v/%s/%s/%s/%v/%v", r.Name, r.SingularName, r.Namespaced, r.Group, r.Version, r.Kind, v, r.ShortNames)
}

func listsText(ls []*metav1.APIResourceList) []string {
	var out []string
	for _, l := range ls {
		var rs []string
		for _, r := range l.APIResources {
			rs = append(rs, resourceText(r))
		}
		sort.Strings(rs)
		out = append(out, l.GroupVersion+": "+strings.Join(rs, " "))
	}
	sort.Strings(out)
	return out
}

func groupsText(gs []metav1.APIGroup) []string {
	var out []string
	for _, g := range gs {
		var vs []string
		for _, v := range g.Versions {
			vs = append(vs, v.GroupVersion+"="+v.Version)
		}
		sort.Strings(vs)
		out = append(out, fmt.Sprintf("%s %v %s", g.Name, vs, g.PreferredVersion.GroupVersion))
	}
	sort.Strings(out)
	return out
}

func deref(gs []*metav1.APIGroup) []metav1.APIGroup {
	var out []metav1.APIGroup
	for _, g := range gs {
		out = append(out, *g)
	}
	return out
}

var verbs = []string{"get", "list", "create", "update", "patch", "delete", "watch"}

// viewLists is what discovery has to say about registered views.
func viewLists(set []schema.GroupVersionKind) []*metav1.APIResourceList {
	m := map[string]*metav1.APIResourceList{}
	for _, g := range set {
		gv := g.GroupVersion().String()
		if m[gv] == nil {
			m[gv] = &metav1.APIResourceList{GroupVersion: gv}
		}
		m[gv].APIResources = append(m[gv].APIResources, metav1.APIResource{Name: strings.ToLower(g.Kind), SingularName: strings.ToLower(g.Kind),
			Namespaced: true, Group: g.Group, Version: g.Version, Kind: g.Kind, Verbs: verbs})
	}
	var ls []*metav1.APIResourceList
	for _, k := range core.Keys(m) {
		ls = append(ls, m[k])
	}
	return ls
}

func viewGroups(set []schema.GroupVersionKind) []metav1.APIGroup {
	m := map[string]metav1.APIGroup{}
	for _, g := range set {
		v := metav1.GroupVersionForDiscovery{GroupVersion: g.GroupVersion().String(), Version: g.Version}
		m[g.Group] = metav1.APIGroup{Name: g.Group, Versions: []metav1.GroupVersionForDiscovery{v}, PreferredVersion: v}
	}
	var out []metav1.APIGroup
	for _, k := range core.Keys(m) {
		out = append(out, m[k])
	}
	return out
}

// differ compares two sorted texts.
func differ(what string, got, want []string) error {
	sort.Strings(got)
	sort.Strings(want)
	if !slices.Equal(got, want) {
		return core.V("%s: %s, should be %s", what, strings.Join(got, "; "), strings.Join(want, "; "))
	}
	return nil
}

// discovered checks what a composite discovery client says, set being registered.
func discovered(d discovery.DiscoveryInterface, n native, set []schema.GroupVersionKind) error {
	wantL, wantP, wantN := listsText(viewLists(set)), listsText(viewLists(set)), listsText(viewLists(set))
	wantG := groupsText(viewGroups(set))
	if n.disco != nil {
		gs, err := n.disco.ServerGroups()
		must(err)
		wantG = append(wantG, groupsText(gs.Groups)...)
		_, ls, _ := n.disco.ServerGroupsAndResources()
		wantL = append(wantL, listsText(ls)...)
		ls, _ = n.disco.ServerPreferredResources()
		wantP = append(wantP, listsText(ls)...)
		ls, _ = n.disco.ServerPreferredNamespacedResources()
		wantN = append(wantN, listsText(ls)...)
	}
	fault := func(err error) error {
		if n.part != (err != nil) {
			return core.V("discovery says %v where the native one fails in part: %v", err, n.part)
		}
		var e *discovery.ErrGroupDiscoveryFailed
		if n.part && !errors.As(err, &e) {
			return core.V("discovery hides what kind of failure it is: %v", err)
		}
		return nil
	}
	gl, err := d.ServerGroups()
	if err != nil {
		return core.V("groups: %v", err)
	}
	if err := differ("groups", groupsText(gl.Groups), slices.Clone(wantG)); err != nil {
		return err
	}
	gs, ls, err := d.ServerGroupsAndResources()
	if err := fault(err); err != nil {
		return err
	}
	if err := differ("groups with resources", groupsText(deref(gs)), slices.Clone(wantG)); err != nil {
		return err
	}
	if err := differ("resources", listsText(ls), wantL); err != nil {
		return err
	}
	ls, err = d.ServerPreferredResources()
	if err := fault(err); err != nil {
		return err
	}
	if err := differ("preferred resources", listsText(ls), wantP); err != nil {
		return err
	}
	ls, err = d.ServerPreferredNamespacedResources()
	if err := fault(err); err != nil {
		return err
	}
	if err := differ("preferred namespaced resources", listsText(ls), wantN); err != nil {
		return err
	}
	for _, l := range viewLists(set) {
		got, err := d.ServerResourcesForGroupVersion(l.GroupVersion)
		if err != nil {
			return core.V("resources of %s: %v", l.GroupVersion, err)
		}
		if err := differ("resources of "+l.GroupVersion, listsText([]*metav1.APIResourceList{got}), listsText([]*metav1.APIResourceList{l})); err != nil {
			return err
		}
	}
	// A group of views no kind of which is registered.
	if got, err := d.ServerResourcesForGroupVersion(vobj.GVK("op9", "X").GroupVersion().String()); err == nil && len(got.APIResources) > 0 {
		return core.V("resources of an unknown operator: %v", got)
	}
	for _, gv := range []string{"v1", "example.io/v1", review.GroupVersion().String(), inview.GroupVersion().String(), "none.io/v1"} {
		got, err := d.ServerResourcesForGroupVersion(gv)
		if n.disco == nil {
			if err == nil && len(got.APIResources) > 0 {
				return core.V("resources of %s without a native API: %v", gv, got)
			}
			continue
		}
		want, werr := n.disco.ServerResourcesForGroupVersion(gv)
		if (err != nil) != (werr != nil) {
			return core.V("resources of %s: %v, should be %v", gv, err, werr)
		}
		if err != nil {
			continue
		}
		if err := differ("resources of "+gv, listsText([]*metav1.APIResourceList{got}), listsText([]*metav1.APIResourceList{want})); err != nil {
			return err
		}
	}
	if n.disco != nil {
		got, err := d.ServerVersion()
		want, werr := n.disco.ServerVersion()
		if (err != nil) != (werr != nil) || err == nil && got.GitVersion != want.GitVersion {
			return core.V("version: %v %v, should be %v %v", got, err, want, werr)
		}
	} else if _, err := d.ServerVersion(); err != nil {
		return core.V("version: %v", err)
	}
	return nil
}

// named checks the functions of the discovery that go by the names of kinds.
func named(d cache.ViewDiscoveryInterface, set []schema.GroupVersionKind) error {
	var got, want []string
	for _, g := range d.GetRegisteredViewGVKs() {
		got = append(got, g.String())
	}
	for _, g := range set {
		want = append(want, g.String())
	}
	if err := differ("registered kinds", got, want); err != nil {
		return err
	}
	for _, g := range regs {
		kinds := map[string]bool{}
		for _, h := range set {
			if strings.EqualFold(g.gvk.Kind, h.Kind) {
				kinds[h.Kind] = true
			}
		}
		k, err := d.KindFromResource(strings.ToLower(g.gvk.Kind))
		if len(kinds) == 0 && err == nil || len(kinds) > 0 && !kinds[k] {
			return core.V("the kind of resource %s is said to be %q, %v; registered are %v", strings.ToLower(g.gvk.Kind), k, err, set)
		}
	}
	return nil
}

func mappingText(m *meta.RESTMapping) string {
	if m == nil {
		return "nil"
	}
	return fmt.Sprintf("%s %s %s", m.Resource, m.GroupVersionKind, m.Scope.Name())
}

// answers are all that a mapper says about a kind and a resource.
func answers(m meta.RESTMapper, gvk schema.GroupVersionKind, gvr schema.GroupVersionResource) []string {
	var out []string
	add := func(what string, v any, err error) {
		if err != nil {
			v = "error"
		}
		out = append(out, fmt.Sprintf("%s: %v", what, v))
	}
	a, err := m.RESTMapping(gvk.GroupKind(), gvk.Version)
	add("mapping", mappingText(a), err)
	a, err = m.RESTMapping(gvk.GroupKind())
	add("mapping without version", mappingText(a), err)
	all := func(l []*meta.RESTMapping) string {
		var s []string
		for _, a := range l {
			s = append(s, mappingText(a))
		}
		sort.Strings(s)
		return strings.Join(s, ",")
	}
	b, err := m.RESTMappings(gvk.GroupKind(), gvk.Version)
	add("mappings", all(b), err)
	b, err = m.RESTMappings(gvk.GroupKind())
	add("mappings without version", all(b), err)
	k, err := m.KindFor(gvr)
	add("kind", k, err)
	ks, err := m.KindsFor(gvr)
	add("kinds", ks, err)
	r, err := m.ResourceFor(gvr)
	add("resource", r, err)
	rs, err := m.ResourcesFor(gvr)
	add("resources", rs, err)
	return out
}

// mapped checks a mapper, set being registered when it was made.
func mapped(m meta.RESTMapper, n native, set []schema.GroupVersionKind) error {
	for _, g := range append(slices.Clone(set), vobj.GVK("op9", "Plain")) {
		gvr := g.GroupVersion().WithResource(strings.ToLower(g.Kind))
		want := answers(viewMapper{}, g, gvr)
		for i := range want {
			want[i] = strings.ReplaceAll(want[i], "KIND", g.Kind)
		}
		if got := answers(m, g, gvr); !slices.Equal(got, want) {
			return core.V("mapping %s: %v, should be %v", g, got, want)
		}
		if s, err := m.ResourceSingularizer(gvr.Resource); err != nil || s != gvr.Resource {
			return core.V("the singular of %s is said to be %s, %v", gvr.Resource, s, err)
		}
	}
	if n.disco == nil {
		return nil
	}
	gr, err := restmapper.GetAPIGroupResources(n.disco)
	must(err)
	ref := restmapper.NewDiscoveryRESTMapper(gr)
	for _, g := range []schema.GroupVersionKind{cm, widget, gadget, review, inview, {Group: "example.io", Version: "v2", Kind: "Widget"}, {Group: "none.io", Version: "v1", Kind: "Widget"}, {Version: "v1", Kind: "Widget"}} {
		for _, res := range []string{"configmaps", "configmap", "widgets", "gadget", "nothing"} {
			gvr := g.GroupVersion().WithResource(res)
			if got, want := answers(m, g, gvr), answers(ref, g, gvr); !slices.Equal(got, want) {
				return core.V("mapping %s and %s: %v, should be %v", g, gvr, got, want)
			}
		}
	}
	for _, res := range []string{"configmaps", "configmap"} {
		got, err := m.ResourceSingularizer(res)
		want, _ := ref.ResourceSingularizer(res)
		if err != nil || got != want {
			return core.V("the singular of %s is said to be %s, %v, should be %s", res, got, err, want)
		}
	}
	return nil
}

// viewMapper maps views: the resource is the kind in lower case. It cannot know the kind of a resource.
type viewMapper struct{ meta.RESTMapper }

func (viewMapper) RESTMapping(gk schema.GroupKind, _ ...string) (*meta.RESTMapping, error) {
	gv := schema.GroupVersion{Group: gk.Group, Version: viewv1a1.Version}
	return &meta.RESTMapping{Resource: gv.WithResource(strings.ToLower(gk.Kind)), GroupVersionKind: gv.WithKind(gk.Kind), Scope: meta.RESTScopeNamespace}, nil
}

func (m viewMapper) RESTMappings(gk schema.GroupKind, v ...string) ([]*meta.RESTMapping, error) {
	a, err := m.RESTMapping(gk, v...)
	return []*meta.RESTMapping{a}, err
}

func (viewMapper) KindFor(r schema.GroupVersionResource) (schema.GroupVersionKind, error) {
	return r.GroupVersion().WithKind("KIND"), nil
}

func (m viewMapper) KindsFor(r schema.GroupVersionResource) ([]schema.GroupVersionKind, error) {
	k, err := m.KindFor(r)
	return []schema.GroupVersionKind{k}, err
}

func (viewMapper) ResourceFor(r schema.GroupVersionResource) (schema.GroupVersionResource, error) {
	return r, nil
}

func (viewMapper) ResourcesFor(r schema.GroupVersionResource) ([]schema.GroupVersionResource, error) {
	return []schema.GroupVersionResource{r}, nil
}

// history plays registrations and checks everything after each of them.
func history(t *core.T, n native, h []change) error {
	d := cache.NewCompositeDiscoveryClient(n.disco)
	v := cache.NewViewDiscovery()
	var set []schema.GroupVersionKind
	for i, c := range h {
		g := regs[c.i]
		for _, x := range []cache.ViewDiscoveryInterface{d, v} {
			f := x.UnregisterViewGVK
			if c.add {
				f = x.RegisterViewGVK
			}
			if err := f(g.gvk); err != nil {
				return core.V("%v: %v", c, err)
			}
		}
		had := slices.Contains(set, g.gvk)
		switch {
		case c.add && g.ok && !had:
			set = append(slices.Clone(set), g.gvk)
		case !c.add && had:
			set = slices.DeleteFunc(slices.Clone(set), func(x schema.GroupVersionKind) bool { return x == g.gvk })
		}
		if i < len(h)-1 {
			continue // a shorter history has this at its end
		}
	}
	after := func(err error) error {
		if err != nil {
			return core.V("native API %s, after %v: %v", n.name, h, err)
		}
		return nil
	}
	t.Out("%v", set)
	names := []string{n.name}
	for _, g := range set {
		names = append(names, g.String())
	}
	sort.Strings(names[1:])
	t.Step(fmt.Sprint(names))
	if err := discovered(d, n, set); err != nil {
		return after(err)
	}
	if err := discovered(d.WithLegacy(), native{n.name, legacy(n.disco), n.part}, set); err != nil {
		return after(core.V("legacy discovery: %v", err))
	}
	if err := discovered(&alone{DiscoveryInterface: d, v: v}, native{"none", nil, false}, set); err != nil {
		return after(core.V("discovery of views: %v", err))
	}
	for _, x := range []cache.ViewDiscoveryInterface{d, v} {
		if err := named(x, set); err != nil {
			return after(err)
		}
	}
	return after(mapped(cache.NewCompositeRESTMapper(d), n, set))
}

func legacy(d discovery.DiscoveryInterface) discovery.DiscoveryInterface {
	if d == nil {
		return nil
	}
	return d.WithLegacy()
}

// alone is the discovery of views by itself.
type alone struct {
	discovery.DiscoveryInterface
	v *cache.ViewDiscovery
}

func (a *alone) ServerGroups() (*metav1.APIGroupList, error) { return a.v.ServerGroups() }
func (a *alone) ServerGroupsAndResources() ([]*metav1.APIGroup, []*metav1.APIResourceList, error) {
	return a.v.ServerGroupsAndResources()
}
func (a *alone) ServerPreferredResources() ([]*metav1.APIResourceList, error) {
	return a.v.ServerPreferredResources()
}
func (a *alone) ServerPreferredNamespacedResources() ([]*metav1.APIResourceList, error) {
	return a.v.ServerPreferredNamespacedResources()
}
func (a *alone) ServerResourcesForGroupVersion(gv string) (*metav1.APIResourceList, error) {
	return a.v.ServerResourcesForGroupVersion(gv)
}

// translated checks the translations between kinds: of lists and objects, of native kinds and views.
func translated(t *core.T, op string, gvk schema.GroupVersionKind) error {
	d := cache.NewViewDiscovery()
	native := gvk.Group == "" || !strings.HasSuffix("."+gvk.Group, "."+viewv1a1.GroupSuffix)
	if viewv1a1.IsViewKind(gvk) == native || viewv1a1.IsViewGroup(gvk.Group) == native || viewv1a1.IsViewGroupVersion(gvk.GroupVersion()) == native ||
		d.IsViewKind(gvk) == native || d.IsViewGroup(gvk.Group) == native {
		return core.V("%s is said to be a view: %v %v %v %v", gvk, viewv1a1.IsViewKind(gvk), viewv1a1.IsViewGroup(gvk.Group), d.IsViewKind(gvk), d.IsViewGroup(gvk.Group))
	}
	v := gvk
	if native {
		v = viewv1a1.MapIntoView(op, gvk)
		back, err := viewv1a1.MapFromView(v)
		if err != nil || back != gvk {
			return core.V("%s as a view of %s is %s, and from there %s, %v", gvk, op, v, back, err)
		}
		if _, err := viewv1a1.MapFromView(gvk); err == nil {
			return core.V("%s, which is native, is mapped from a view", gvk)
		}
		if viewv1a1.GetOperator(gvk) != "" {
			return core.V("%s is said to be of operator %s", gvk, viewv1a1.GetOperator(gvk))
		}
		if got := d.ListGVKFromObjectGVK(gvk); got != gvk {
			return core.V("the list of the native %s is said to be %s", gvk, got)
		}
	}
	if !native {
		if from, err := viewv1a1.MapFromView(v); err == nil {
			return core.V("%s, which is no view of a native kind, is mapped to %s", v, from)
		}
	}
	t.Out("%s", v)
	t.Step(v.String())
	if !viewv1a1.IsViewKind(v) || viewv1a1.GetOperator(v) != op {
		return core.V("%s is said to be of operator %q, a view: %v", v, viewv1a1.GetOperator(v), viewv1a1.IsViewKind(v))
	}
	l := v
	l.Kind += "List"
	if got := d.ListGVKFromObjectGVK(v); got != l {
		return core.V("the list of %s is said to be %s", v, got)
	}
	if got := d.ObjectGVKFromListGVK(l); got != v {
		return core.V("the items of %s are said to be %s", l, got)
	}
	if !d.IsViewListKind(l) || d.IsViewListKind(v) || d.IsViewKind(l) || !d.IsViewKind(v) {
		return core.V("%s and %s: lists %v %v, objects %v %v", v, l, d.IsViewListKind(v), d.IsViewListKind(l), d.IsViewKind(v), d.IsViewKind(l))
	}
	if d.ResourceFromKind(v.Kind) != strings.ToLower(v.Kind) || d.ResourceFromKind(l.Kind) != strings.ToLower(v.Kind) {
		return core.V("the resources of %s and %s are said to be %s and %s", v, l, d.ResourceFromKind(v.Kind), d.ResourceFromKind(l.Kind))
	}
	if a, b := viewv1a1.HasViewGroupVersionKind(v.Group, v), viewv1a1.HasViewGroupVersion(gvk.Group+"x", v.GroupVersion()); !a || b {
		return core.V("%s: of its group: %v, of another: %v", v, a, b)
	}
	return nil
}

var checkP24 = &core.Check{
	Property: "P24",
	Level:    "model_checking",
	Rule:     "a case is one sequence of registrations with everything discovery and mapper say afterwards, or one kind with its translations; outcomes differ when the registered kinds or the translation differ",
	Run: func(r *core.Run) {
		ns := natives()
		for n := 0; n <= r.Pick(4, 5); n++ {
			var hs [][]change
			var rec func(h []change)
			rec = func(h []change) {
				if len(h) == n {
					hs = append(hs, h)
					return
				}
				for i := range fewRegs {
					if n == 4 && !r.Thorough() && (i == 3 || i > 5) || n == 5 && i > 5 {
						continue
					}
					for _, add := range []bool{true, false} {
						if n >= 4 && !add && !slices.Contains(h, change{true, i}) {
							continue
						}
						rec(append(h[:len(h):len(h)], change{add, i}))
					}
				}
			}
			rec(nil)
			r.Space("registrations", "length", n, "sequences", len(hs), "native APIs", len(ns))
			for _, nat := range ns {
				r.Parallel(len(hs), func(i int) {
					h := hs[i]
					r.Exec(fmt.Sprintf("%s/%v", nat.name, h), map[string]any{"native": nat.name, "registrations": fmt.Sprint(h)}, func(t *core.T) error {
						return history(t, nat, h)
					})
				})
			}
		}
		// Many kinds.
		for _, nat := range ns {
			var all []change
			for i := range regs {
				all = append(all, change{true, (i * 7) % len(regs)})
			}
			for i := range regs {
				for _, last := range [][]change{{{false, i}}, {{false, i}, {true, i}}, {{true, i}}} {
					h := append(all[:len(all):len(all)], last...)
					r.Exec(fmt.Sprintf("%s/all/%v", nat.name, last), map[string]any{"native": nat.name, "registrations": "all, " + fmt.Sprint(last)}, func(t *core.T) error {
						return history(t, nat, h)
					})
				}
			}
			h := all[: len(all)-3 : len(all)-3]
			for i := range 20 {
				h = append(h, change{false, i * 2})
			}
			r.Exec(nat.name+"/half", map[string]any{"native": nat.name}, func(t *core.T) error { return history(t, nat, h) })
		}
		groups := []string{"", "apps", "batch", "networking.k8s.io", "rbac.authorization.k8s.io", "example.io", "dcontroller.io", "review.dcontroller.io", "view.example.io",
			"core.example.io", "view.dcontroller.io.example.org", "a.b.c.d.e.f", "v1.example.io"}
		kinds := []string{"Pod", "Ingress", "EndpointSlice", "CSINode", "A", "lower"}
		count := 0
		for _, op := range []string{"test", "op-1", "core", "view", "v1", "my-operator"} {
			var gvks []schema.GroupVersionKind
			for _, k := range kinds {
				gvks = append(gvks, vobj.GVK(op, k))
				for _, g := range groups {
					for _, v := range []string{"v1", "v1alpha1", "v2beta3"} {
						gvks = append(gvks, schema.GroupVersionKind{Group: g, Version: v, Kind: k})
					}
				}
			}
			for _, g := range gvks {
				count++
				r.Exec(fmt.Sprintf("translate %s %s", op, g), map[string]any{"operator": op, "kind": g.String()}, func(t *core.T) error { return translated(t, op, g) })
			}
		}
		r.Space("translations", "kinds", count)
	},
}
