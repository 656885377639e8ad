package main

import (
	"bytes"
	"context"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sort"
	"sync"
	"time"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/klog/v2"
	"sigs.k8s.io/controller-runtime/pkg/client"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/apiserver"
	"github.com/l7mp/dcontroller/pkg/auth"
	"github.com/l7mp/dcontroller/pkg/cache"

	"verif/core"
)

var quiet sync.Once

// server is a running API server over its own, otherwise unused view storage.
type server struct {
	api    *apiserver.APIServer
	vc     cache.ViewCacheInterface
	base   string
	client *http.Client
	cancel context.CancelFunc
	done   chan struct{}
	kinds  []schema.GroupVersionKind
	gate   *gate
}

// newServer starts a server; key is the public key of its authentication, or nil.
func newServer(key *rsa.PublicKey, kinds ...schema.GroupVersionKind) *server {
	return newServerWith(func(c *apiserver.Config) {
		if key != nil {
			c.Authenticator = auth.NewJWTAuthenticator(key)
			c.Authorizer = auth.NewCompositeAuthorizer()
		}
	}, nil, kinds...)
}

// newServerWith starts a server with a changed configuration and a client that is wrapped.
func newServerWith(change func(*apiserver.Config), wrap func(client.Client) client.Client, kinds ...schema.GroupVersionKind) *server {
	quiet.Do(func() { klog.SetLogger(logr.Discard()) })
	a, err := cache.NewAPI(nil, cache.APIOptions{})
	if err != nil {
		core.Abort("storage: %v", err)
	}
	cl := a.Client
	if wrap != nil {
		cl = wrap(cl)
	}
	s := &server{vc: a.GetCache().GetViewCache(), kinds: kinds, done: make(chan struct{})}
	for i := 0; ; i++ { // the server takes a random port, which may be in use
		cfg, err := apiserver.NewDefaultConfig("127.0.0.1", 0, cl, true, false, logr.Discard())
		if err != nil {
			core.Abort("server configuration: %v", err)
		}
		change(&cfg)
		if s.api, err = apiserver.NewAPIServer(cfg); err == nil {
			break
		}
		if i > 20 {
			core.Abort("server: %v", err)
		}
	}
	if len(kinds) > 0 {
		if err := s.api.RegisterGVKs(kinds); err != nil {
			core.Abort("registration: %v", err)
		}
	}
	var ctx context.Context
	ctx, s.cancel = context.WithCancel(context.Background())
	go func() { defer close(s.done); _ = s.api.Start(ctx) }()
	s.base = "http://" + s.api.GetInsecureServerAddress()
	s.client = &http.Client{
		Transport:     &http.Transport{MaxIdleConnsPerHost: 4},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	}
	return s
}

// settle waits until the server has started up.
func (s *server) settle() {
	for i := 0; i < 5000; i++ {
		if s.do(request{method: "GET", path: "/healthz"}).code == http.StatusOK {
			return
		}
		time.Sleep(time.Millisecond)
	}
	core.Abort("the server does not come up")
}

func (s *server) stop() {
	s.client.CloseIdleConnections()
	s.cancel()
	select {
	case <-s.done:
	case <-time.After(10 * time.Second):
	}
}

// answer is the answer to a request.
type answer struct {
	code int
	head http.Header
	body []byte
}

func (a answer) String() string { return fmt.Sprintf("%d %s", a.code, bytes.TrimSpace(a.body)) }

func (a answer) object() map[string]any {
	m := map[string]any{}
	if json.Unmarshal(a.body, &m) != nil {
		return nil
	}
	return m
}

// request is a request.
type request struct {
	method, path string
	head         map[string]string
	body         string
	stream       bool // do not wait for the end of the answer ...
	peek         bool // ... but for what comes at its start
}

func (q request) String() string {
	s := q.method + " " + q.path
	if t := q.head["Content-Type"]; t != "" && q.method == "PATCH" {
		s += " (" + t + ")"
	}
	if q.body != "" {
		s += " " + q.body
	}
	return s
}

// do sends a request. Of a stream that starts well, only the head is read.
func (s *server) do(q request) answer {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	r, err := http.NewRequestWithContext(ctx, q.method, s.base+q.path, bytes.NewReader([]byte(q.body)))
	if err != nil {
		core.Abort("request %s: %v", q, err)
	}
	r.Header.Set("Content-Type", "application/json")
	for k, v := range q.head {
		r.Header.Set(k, v)
	}
	resp, err := s.client.Do(r)
	if err != nil {
		return answer{code: 0, body: []byte(err.Error())}
	}
	defer resp.Body.Close()
	a := answer{code: resp.StatusCode, head: resp.Header}
	if q.stream && resp.StatusCode == http.StatusOK {
		if q.peek {
			stop := time.AfterFunc(60*time.Millisecond, cancel)
			a.body, _ = io.ReadAll(resp.Body)
			stop.Stop()
		}
		return a
	}
	a.body, _ = io.ReadAll(resp.Body)
	return a
}

// stored is what is stored of the kinds, by kind and name, without the identifiers that reading adds.
func (s *server) stored() map[string]map[string]any {
	ret := map[string]map[string]any{}
	for _, k := range s.kinds {
		l := &unstructured.UnstructuredList{}
		l.SetGroupVersionKind(k)
		if err := s.vc.List(context.Background(), l); err != nil {
			core.Abort("list of %s: %v", k, err)
		}
		for i := range l.Items {
			o := l.Items[i].DeepCopy()
			unstructured.RemoveNestedField(o.Object, "metadata", "uid")
			ret[k.Group+"/"+k.Kind+"/"+o.GetNamespace()+"/"+o.GetName()] = o.Object
		}
	}
	return ret
}

// fill makes exactly the given objects stored.
func (s *server) fill(objs ...map[string]any) {
	for _, k := range s.kinds {
		l := &unstructured.UnstructuredList{}
		l.SetGroupVersionKind(k)
		if err := s.vc.List(context.Background(), l); err != nil {
			core.Abort("list of %s: %v", k, err)
		}
		for i := range l.Items {
			if err := s.vc.Delete(&l.Items[i]); err != nil {
				core.Abort("delete: %v", err)
			}
		}
	}
	for _, o := range objs {
		if err := s.vc.Add(&unstructured.Unstructured{Object: clone(o)}); err != nil {
			core.Abort("add: %v", err)
		}
	}
}

func clone(o map[string]any) map[string]any {
	return (&unstructured.Unstructured{Object: o}).DeepCopy().Object
}

func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func keysOf[V any](m map[string]V) []string {
	ret := make([]string, 0, len(m))
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

func gvk(op, kind string) schema.GroupVersionKind { return viewv1a1.GroupVersionKind(op, kind) }

// servers is a set of servers for parallel use.
type servers struct {
	mu   sync.Mutex
	free []*server
	make func() *server
}

func (p *servers) get() *server {
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		s := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return s
	}
	p.mu.Unlock()
	return p.make()
}

func (p *servers) put(s *server) {
	p.mu.Lock()
	p.free = append(p.free, s)
	p.mu.Unlock()
}

func (p *servers) stop() {
	for _, s := range p.free {
		s.stop()
	}
}
