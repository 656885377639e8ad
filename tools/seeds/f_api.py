RH = '''package apiserver_test

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/runtime/schema"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/apiserver"
	"github.com/l7mp/dcontroller/pkg/cache"
)

const zgroup = "op1.view.dcontroller.io"

var zbase string

func zok(t *testing.T, err error) {
	if err != nil {
		t.Fatal(err)
	}
}

func zserver(t *testing.T) *apiserver.APIServer {
	a, err := cache.NewAPI(nil, cache.APIOptions{})
	zok(t, err)
	var s *apiserver.APIServer
	for i := 0; i < 20; i++ { // the random port may be in use
		cfg, err := apiserver.NewDefaultConfig("127.0.0.1", 0, a.Client, true, false, logr.Discard())
		zok(t, err)
		if s, err = apiserver.NewAPIServer(cfg); err == nil {
			break
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	t.Cleanup(cancel)
	go func() { _ = s.Start(ctx) }()
	zbase = "http://" + s.GetInsecureServerAddress()
	for i := 0; i < 500; i++ {
		if code, _ := zdo("GET", "/healthz", ""); code == 200 {
			return s
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("the server does not come up")
	return nil
}

// zdo sends a request; head is a list of names and values of header fields.
func zdo(method, path, body string, head ...string) (int, string) {
	r, err := http.NewRequest(method, zbase+path, strings.NewReader(body))
	if err != nil {
		return 0, err.Error()
	}
	r.Header.Set("Content-Type", "application/json")
	for i := 0; i+1 < len(head); i += 2 {
		r.Header.Set(head[i], head[i+1])
	}
	resp, err := http.DefaultClient.Do(r)
	if err != nil {
		return 0, err.Error()
	}
	defer resp.Body.Close()
	b, _ := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b)
}

func zkinds(names ...string) []schema.GroupVersionKind {
	var ret []schema.GroupVersionKind
	for _, n := range names {
		ret = append(ret, viewv1a1.GroupVersionKind("op1", n))
	}
	return ret
}

func zpath(kind, ns string) string {
	return "/apis/" + zgroup + "/v1alpha1/namespaces/" + ns + "/" + kind
}

// zlisted tells whether the plain list of groups has the group.
func zlisted(t *testing.T, s *apiserver.APIServer) (string, bool) {
	_, b := zdo("GET", "/apis", "", "Accept", "application/json")
	return b, strings.Contains(b, zgroup)
}

func zserved(t *testing.T, s *apiserver.APIServer, kind string) bool {
	code, _ := zdo("GET", zpath(kind, "d"), "")
	return code == 200
}

// zresources are the resources of the group that are served.
func zresources(t *testing.T, s *apiserver.APIServer) string {
	ret := []string{}
	for _, k := range []string{"v", "w"} {
		if zserved(t, s, k) {
			ret = append(ret, k)
		}
	}
	return fmt.Sprint(ret)
}

// zobject is an object of the group; rest is more of its fields.
func zobject(kind, name, rest string) string {
	return `{"apiVersion":"` + zgroup + `/v1alpha1","kind":"` + kind + `","metadata":{"name":"` + name + `"}` + rest + `}`
}

var _ = json.Marshal
'''
AH = '''package auth_test

import (
	"context"
	"net/http"
	"testing"
	"time"

	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apiserver/pkg/authentication/user"
	"k8s.io/apiserver/pkg/authorization/authorizer"

	"github.com/l7mp/dcontroller/pkg/auth"
)

func zkeys(t *testing.T) (*auth.TokenGenerator, *auth.JWTAuthenticator) {
	cert, key, err := auth.GenerateSelfSignedCert("localhost")
	if err != nil {
		t.Fatal(err)
	}
	priv, err := auth.ParsePrivateKey(key)
	if err != nil {
		t.Fatal(err)
	}
	pub, err := auth.ParsePublicKey(cert)
	if err != nil {
		t.Fatal(err)
	}
	return auth.NewTokenGenerator(priv), auth.NewJWTAuthenticator(pub)
}

func zuser(t *testing.T, a *auth.JWTAuthenticator, token string) user.Info {
	req, _ := http.NewRequest("GET", "http://localhost/", nil)
	req.Header.Set("Authorization", "Bearer "+token)
	resp, ok, err := a.AuthenticateRequest(req)
	if err != nil || !ok {
		return nil
	}
	return resp.User
}

func zallowed(u user.Info, verb, group, resource, ns, name string) bool {
	d, _, err := auth.NewCompositeAuthorizer().Authorize(context.Background(), authorizer.AttributesRecord{
		User: u, Verb: verb, APIGroup: group, Resource: resource, Namespace: ns, Name: name, ResourceRequest: true})
	return err == nil && d == authorizer.DecisionAllow
}

func ztoken(t *testing.T, g *auth.TokenGenerator, name string, nss []string, rules []rbacv1.PolicyRule) string {
	s, err := g.GenerateToken(name, nss, rules, time.Hour)
	if err != nil {
		t.Fatal(err)
	}
	return s
}
'''
SEEDS = [
 dict(id="p18-cache", prop="P18", pkg="pkg/auth",
  edits=[("pkg/auth/authenticator.go", '''	"strings"

	"github''', '''	"strings"
	"sync"

	"github'''), ("pkg/auth/authenticator.go", '''	publicKey *rsa.PublicKey
''', '''	publicKey *rsa.PublicKey
	verified  sync.Map // the responses to the tokens that were found valid
'''), ("pkg/auth/authenticator.go", '''	// Parse and validate JWT
''', '''	if resp, ok := a.verified.Load(token); ok {
		return resp.(*authenticator.Response), true, nil
	}

	// Parse and validate JWT
'''), ("pkg/auth/authenticator.go", '''	return &authenticator.Response{
		User: userInfo,
	}, true, nil
''', '''	resp := &authenticator.Response{
		User: userInfo,
	}
	a.verified.Store(token, resp)

	return resp, true, nil
''')],
  test=AH + '''
func TestZZDemo(t *testing.T) {
	g, a := zkeys(t)
	for i := 0; ; i++ {
		s, err := g.GenerateToken("joe", nil, nil, 2*time.Second)
		if err != nil {
			t.Fatal(err)
		}
		u := zuser(t, a, s)
		time.Sleep(2100 * time.Millisecond)
		if zuser(t, a, s) != nil {
			t.Fatal("a token is accepted after its end")
		}
		if u != nil {
			return
		}
		if i > 10 {
			t.Fatal("never accepted")
		}
	}
}
''',
  needs="a token that is used before and after its end", breaks="a token that was used once is accepted forever"),
 dict(id="p18-leeway", prop="P18", pkg="pkg/auth",
  edits=[("pkg/auth/authenticator.go", '''		return a.publicKey, nil
	})
''', '''		return a.publicKey, nil
	}, jwt.WithLeeway(clockSkew))
'''), ("pkg/auth/authenticator.go", '''	"strings"

	"github''', '''	"strings"
	"time"

	"github'''), ("pkg/auth/authenticator.go", '''// Claims''', '''// clockSkew is how much the clocks of servers may differ.
const clockSkew = 5 * time.Minute

// Claims''')],
  test=AH + '''
func TestZZDemo(t *testing.T) {
	g, a := zkeys(t)
	s, err := g.GenerateToken("joe", nil, nil, -30*time.Second)
	if err != nil {
		t.Fatal(err)
	}
	if u := zuser(t, a, s); u != nil {
		t.Fatal("a token is accepted after its end")
	}
}
''',
  needs="a token that expired a short while ago", breaks="tokens are accepted for five minutes after their end"),
 dict(id="p18-cross", prop="P18", pkg="pkg/auth",
  edits=[("pkg/auth/rbac.go", '''	"encoding/json"
''', '''	"encoding/json"
	"slices"
'''), ("pkg/auth/rbac.go", '''	// Check if any rule matches
	for _, rule := range rules {
		if ruleMatches(rule, verb, apiGroup, resource, resourceName) {
			return true
		}
	}
''', '''	// Rules on some objects of the same resources add up
	merged := []rbacv1.PolicyRule{}
next:
	for _, rule := range rules {
		for i, m := range merged {
			if len(rule.ResourceNames) > 0 && len(m.ResourceNames) > 0 &&
				slices.Equal(rule.APIGroups, m.APIGroups) && slices.Equal(rule.Resources, m.Resources) {
				merged[i].Verbs = append(merged[i].Verbs, rule.Verbs...)
				merged[i].ResourceNames = append(merged[i].ResourceNames, rule.ResourceNames...)
				continue next
			}
		}
		merged = append(merged, rule)
	}

	// Check if any rule matches
	for _, rule := range merged {
		if ruleMatches(rule, verb, apiGroup, resource, resourceName) {
			return true
		}
	}
''')],
  test=AH + '''
func TestZZDemo(t *testing.T) {
	g, a := zkeys(t)
	rule := func(verb string, names ...string) rbacv1.PolicyRule {
		return rbacv1.PolicyRule{Verbs: []string{verb}, APIGroups: []string{"*"}, Resources: []string{"*"}, ResourceNames: names}
	}
	u := zuser(t, a, ztoken(t, g, "joe", nil, []rbacv1.PolicyRule{rule("get", "x", "y"), rule("delete", "z", "w")}))
	if zallowed(u, "delete", "g", "r", "n", "x") {
		t.Fatal("two rules together allow what neither does")
	}
	if !zallowed(u, "delete", "g", "r", "n", "z") {
		t.Fatal("refused")
	}
}
''',
  needs="two rules on the same resources, each with object names, and different verbs", breaks="the names of one rule may be accessed with the verbs of the other"),

 dict(id="p20-known", prop="P20", pkg="pkg/apiserver",
  edits=[("pkg/apiserver/registry.go", '''	// Ignore native Kubernetes API resources.
	if !viewv1a1.IsViewGroup(group) {
''', '''	// Ignore native Kubernetes API resources and groups whose GVKs are all known already.
	known := len(gvks) > 0
	for _, gvk := range gvks {
		known = known && s.groupGVKs[group][gvk]
	}
	if !viewv1a1.IsViewGroup(group) || known {
''')],
  test=RH + '''
func TestZZDemo(t *testing.T) {
	s := zserver(t)
	zok(t, s.RegisterGVKs(zkinds("V", "W")))
	zok(t, s.RegisterGVKs(zkinds("V")))
	if r := zresources(t, s); r != "[v]" {
		t.Fatalf("served: %s", r)
	}
}
''',
  needs="registering a group with some of the kinds it has already", breaks="the other kinds of the group stay served"),
 dict(id="p20-legacy", prop="P20", pkg="pkg/apiserver",
  edits=[("pkg/apiserver/registry.go", '''	s.server.DiscoveryGroupManager.RemoveGroup(group)
	if s.server.AggregatedDiscoveryGroupManager != nil {
		s.server.AggregatedDiscoveryGroupManager.RemoveGroup(group)
	}
''', '''	if s.server.AggregatedDiscoveryGroupManager != nil {
		s.server.AggregatedDiscoveryGroupManager.RemoveGroup(group)
	} else {
		s.server.DiscoveryGroupManager.RemoveGroup(group)
	}
''')],
  test=RH + '''
func TestZZDemo(t *testing.T) {
	s := zserver(t)
	zok(t, s.RegisterGVKs(zkinds("V")))
	s.UnregisterGVKs(zkinds("V"))
	if l, ok := zlisted(t, s); ok {
		t.Fatalf("still listed: %s", l)
	}
}
''',
  needs="unregistering a group, and a client that reads the plain list of groups", breaks="the plain list of groups keeps groups that were unregistered"),

 dict(id="p19-fields", prop="P19", pkg="pkg/apiserver",
  edits=[("pkg/apiserver/storage.go", '''	// First list all objects to be deleted.
	listObj, err := s.List(ctx, listOptions)
''', '''	// First list all objects to be deleted.
	selected := &metainternalversion.ListOptions{}
	if listOptions != nil && listOptions.LabelSelector != nil && !listOptions.LabelSelector.Empty() {
		selected = listOptions
	}
	listObj, err := s.List(ctx, selected)
''')],
  test=RH + '''
func TestZZDemo(t *testing.T) {
	s := zserver(t)
	zok(t, s.RegisterGVKs(zkinds("V")))
	for _, n := range []string{"x", "y"} {
		if code, b := zdo("POST", zpath("v", "d"), zobject("V", n, "")); code != 201 {
			t.Fatal(code, b)
		}
	}
	if code, b := zdo("DELETE", zpath("v", "d")+"?fieldSelector=metadata.name%3Dx", ""); code != 200 {
		t.Fatal(code, b)
	}
	if code, _ := zdo("GET", zpath("v", "d")+"/y", ""); code != 200 {
		t.Fatal("an object that was not selected is deleted")
	}
	if code, _ := zdo("GET", zpath("v", "d")+"/x", ""); code != 404 {
		t.Fatal("not deleted")
	}
}
''',
  needs="a collective delete with a field selector and no label selector", breaks="it deletes the whole namespace's objects"),
 dict(id="p19-limit", prop="P19", pkg="pkg/apiserver",
  edits=[("pkg/apiserver/storage.go", '''		return nil, apierrors.NewInternalError(fmt.Errorf("failed to list %s: %w", s.gvr.String(), err))
	}

	return list, nil
}

//nolint:misspell
''', '''		return nil, apierrors.NewInternalError(fmt.Errorf("failed to list %s: %w", s.gvr.String(), err))
	}

	// No more than the client wants.
	if options != nil && options.Limit > 0 && int64(len(list.Items)) > options.Limit {
		list.Items = list.Items[:options.Limit]
	}

	return list, nil
}

//nolint:misspell
''')],
  test=RH + '''
func TestZZDemo(t *testing.T) {
	s := zserver(t)
	zok(t, s.RegisterGVKs(zkinds("V")))
	for _, n := range []string{"x", "y", "z"} {
		if code, b := zdo("POST", zpath("v", "d"), zobject("V", n, "")); code != 201 {
			t.Fatal(code, b)
		}
	}
	code, b := zdo("GET", zpath("v", "d")+"?limit=2", "")
	l := map[string]any{}
	if code != 200 || json.Unmarshal([]byte(b), &l) != nil {
		t.Fatal(code, b)
	}
	if m, _ := l["metadata"].(map[string]any); len(l["items"].([]any)) < 3 && (m == nil || m["continue"] == nil) {
		t.Fatal("the list is cut without a way to get the rest", b)
	}
}
''',
  needs="a list with a limit (as kubectl asks for by 500s) of more objects than that", breaks="the objects beyond the first page are never listed"),
 dict(id="p19-conditions", prop="P19", pkg="pkg/apiserver",
  edits=[("pkg/apiserver/storage.go", '''						priorityConditions = append(priorityConditions[:i], append([]string{pair}, priorityConditions[i:]...)...)
''', '''						after := priorityConditions[i:]
						priorityConditions = append(priorityConditions[:i], pair)
						priorityConditions = append(priorityConditions, after...)
''')],
  test=RH + '''
func TestZZDemo(t *testing.T) {
	s := zserver(t)
	zok(t, s.RegisterGVKs(zkinds("V")))
	for n, c := range map[string]string{"x": "Progressing,Available,Ready", "y": "Progressing,Ready", "z": "Degraded,Progressing,Available,Ready"} {
		l := []string{}
		for _, ty := range strings.Split(c, ",") {
			l = append(l, `{"type":"`+ty+`","status":"True"}`)
		}
		if code, b := zdo("POST", zpath("v", "d"), zobject("V", n, `,"status":{"conditions":[`+strings.Join(l, ",")+`]}`)); code != 201 {
			t.Fatal(code, b)
		}
	}
	_, b := zdo("GET", zpath("v", "d"), "", "Accept", "application/json;as=Table;v=v1;g=meta.k8s.io")
	for _, w := range []string{"Ready:True,Available:True,Progressing:True", "Ready:True,Progressing:True", "Ready:True,Available:True,Progressing:True +1 more"} {
		if !strings.Contains(b, `"`+w+`"`) {
			t.Fatalf("no %s in %s", w, b)
		}
	}
}
''',
  needs="a table of an object with a well-known condition that comes before an earlier one, listed after it", breaks="the table repeats one condition and drops another"),
 dict(id="p19-watch", prop="P19", pkg="pkg/apiserver",
  edits=[("pkg/apiserver/storage.go", '''	// Handle label selectors.
	if options != nil && options.LabelSelector != nil {
		listOpts = append(listOpts, client.MatchingLabelsSelector{Selector: options.LabelSelector})
	}

	// Handle field selectors.
	if options != nil && options.FieldSelector != nil {
		listOpts = append(listOpts, client.MatchingFieldsSelector{Selector: options.FieldSelector})
	}

	// Try''', '''	// Handle label and field selectors.
	switch {
	case options != nil && options.LabelSelector != nil && !options.LabelSelector.Empty():
		listOpts = append(listOpts, client.MatchingLabelsSelector{Selector: options.LabelSelector})
	case options != nil && options.FieldSelector != nil:
		listOpts = append(listOpts, client.MatchingFieldsSelector{Selector: options.FieldSelector})
	}

	// Try''')],
  test=RH + '''
func TestZZDemo(t *testing.T) {
	s := zserver(t)
	zok(t, s.RegisterGVKs(zkinds("V")))
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	r, err := http.NewRequestWithContext(ctx, "GET", zbase+zpath("v", "d")+"?watch=true&labelSelector=l%3D1&fieldSelector=metadata.name%3Dx", nil)
	zok(t, err)
	resp, err := http.DefaultClient.Do(r)
	zok(t, err)
	defer resp.Body.Close()
	for _, n := range []string{"y", "x"} {
		o := strings.Replace(zobject("V", n, ""), `"metadata":{`, `"metadata":{"labels":{"l":"1"},`, 1)
		if code, b := zdo("POST", zpath("v", "d"), o); code != 201 {
			t.Fatal(code, b)
		}
	}
	var ev struct {
		Type   string
		Object struct{ Metadata struct{ Name string } }
	}
	zok(t, json.NewDecoder(resp.Body).Decode(&ev))
	if ev.Object.Metadata.Name != "x" {
		t.Fatalf("the watch of x shows %s", ev.Object.Metadata.Name)
	}
}
''',
  needs="a watch with both a label and a field selector", breaks="the watch ignores the field selector"),
]
BUSY = '''
// zbusy runs f again and again while requests are made.
func zbusy(t *testing.T, f func(i int), ask func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 300; i++ {
			f(i)
		}
	}()
	for {
		select {
		case <-done:
			return
		default:
			ask()
		}
	}
}
'''
SEEDS += [
 dict(id="p22-map", prop="P22", pkg="pkg/apiserver", flags="-race",
  edits=[("pkg/apiserver/resource_handler.go", '''	oldMap := h.storage.Load().(storageMap)
	newMap := make(storageMap, len(oldMap))
	for k, v := range oldMap {
		if k != gvr {
			newMap[k] = v
		}
	}
''', '''	newMap := h.storage.Load().(storageMap)
	delete(newMap, gvr)
''')],
  test=RH + BUSY + '''
func TestZZDemo(t *testing.T) {
	s := zserver(t)
	zok(t, s.RegisterGVKs(zkinds("V")))
	zbusy(t, func(i int) {
		zok(t, s.RegisterAPIGroup(zgroup, zkinds("V", "W")))
		zok(t, s.RegisterAPIGroup(zgroup, zkinds("V")))
	}, func() {
		if code, b := zdo("GET", zpath("v", "d"), ""); code != 200 {
			t.Fatal(code, b)
		}
	})
}
''',
  needs="a request at the very moment a kind is unregistered", breaks="the map of the served kinds is read while it is changed: the program crashes"),
 dict(id="p22-window", prop="P22", pkg="pkg/apiserver",
  edits=[("pkg/apiserver/registry.go", '''	for _, gvk := range gvks {
		resource, err := s.findAPIResource(gvk)
		if err != nil {
			s.log.V(4).Info("skipping GVK",''', '''	for i := range gvks {
		gvk := gvks[i]
		s.removeGVKStorage(gvk) // make sure to start afresh
		resource, err := s.findAPIResource(gvk)
		if err != nil {
			s.log.V(4).Info("skipping GVK",''')],
  test=RH + BUSY + '''
func TestZZDemo(t *testing.T) {
	s := zserver(t)
	zok(t, s.RegisterGVKs(zkinds("V")))
	zbusy(t, func(i int) {
		zok(t, s.RegisterAPIGroup(zgroup, zkinds("V", "W")))
		zok(t, s.RegisterAPIGroup(zgroup, zkinds("V")))
	}, func() {
		if code, b := zdo("GET", zpath("v", "d"), ""); code != 200 {
			t.Fatal(code, b)
		}
	})
}
''',
  needs="a request for a kind while its group is registered anew", breaks="the kind is not served for a moment although it is registered before and after"),
 dict(id="p22-rlock", prop="P22", pkg="pkg/apiserver", flags="-race",
  edits=[("pkg/apiserver/dynamic_discovery.go", '''	h.mu.RLock()
	handler, ok := h.handlers[groupVersion]
	h.mu.RUnlock()
''', '''	// reading needs no lock
	handler, ok := h.handlers[groupVersion]
''')],
  test=RH + BUSY + '''
func TestZZDemo(t *testing.T) {
	s := zserver(t)
	zok(t, s.RegisterGVKs(zkinds("V")))
	zbusy(t, func(i int) {
		zok(t, s.RegisterAPIGroup(zgroup, zkinds("V", "W")))
		zok(t, s.RegisterAPIGroup(zgroup, zkinds("V")))
	}, func() {
		if code, b := zdo("GET", "/apis/"+zgroup+"/v1alpha1", ""); code != 200 {
			t.Fatal(code, b)
		}
	})
}
''',
  needs="a discovery request at the very moment a group is registered", breaks="the map of the versions is read while it is changed: the program crashes"),
]
