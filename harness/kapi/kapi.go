// Package kapi is a small Kubernetes API server that keeps its objects in memory: discovery, create,
// read, update, patch, delete, list and watch of the kinds it is given, with resource versions,
// conflicts, generations and status subresources as Kubernetes has them. It listens on pipes, so that
// a great many of them can run in one process.
package kapi

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	jsonpatch "gopkg.in/evanphx/json-patch.v4"
	"k8s.io/client-go/rest"
)

// Kind is a kind the server serves.
type Kind struct {
	Group, Version, Kind, Resource string
	Namespaced                     bool
	// Status says that the kind has a status subresource and counts generations.
	Status bool
}

func (k Kind) gv() string {
	if k.Group == "" {
		return k.Version
	}
	return k.Group + "/" + k.Version
}

// Object is an object as JSON decodes it.
type Object = map[string]any

// Write is one accepted change.
type Write struct {
	Type   string // ADDED, MODIFIED, DELETED
	Object Object
	kind   string
	rv     int64
}

// Server is the server.
type Server struct {
	mu    sync.Mutex
	cond  *sync.Cond
	kinds map[string]Kind // by group/version/resource
	objs  map[string]map[string]Object
	log   []Write
	rv    int64
	uid   int
	down  bool

	ln  *listener
	srv *http.Server
	// Fail, when set, is asked before a request is served; a code other than 0 is the answer.
	Fail func(method, resource, sub, name string) int
}

// New starts a server.
func New(kinds ...Kind) *Server {
	s := &Server{kinds: map[string]Kind{}, objs: map[string]map[string]Object{}, rv: 100,
		ln: &listener{conns: make(chan net.Conn), done: make(chan struct{})}}
	s.cond = sync.NewCond(&s.mu)
	for _, k := range kinds {
		s.kinds[k.gv()+"/"+k.Resource] = k
		s.objs[k.gv()+"/"+k.Resource] = map[string]Object{}
	}
	s.srv = &http.Server{Handler: http.HandlerFunc(s.serve)}
	go func() { _ = s.srv.Serve(s.ln) }()
	return s
}

// Config is a client configuration for the server.
func (s *Server) Config() *rest.Config {
	return &rest.Config{Host: "http://kapi.local", Dial: s.ln.dial, QPS: -1,
		ContentConfig: rest.ContentConfig{ContentType: "application/json", AcceptContentTypes: "application/json"}}
}

// Listen serves the same over TCP, for other processes, and gives the address.
func (s *Server) Listen() (string, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", err
	}
	go func() { _ = s.srv.Serve(l) }()
	return "http://" + l.Addr().String(), nil
}

// Stop ends the server.
func (s *Server) Stop() {
	s.mu.Lock()
	s.down = true
	s.cond.Broadcast()
	s.mu.Unlock()
	_ = s.srv.Close()
}

type listener struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
}

type addr struct{}

func (addr) Network() string { return "pipe" }
func (addr) String() string  { return "kapi.local:80" }

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *listener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *listener) Addr() net.Addr { return addr{} }
func (l *listener) dial(ctx context.Context, _, _ string) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.conns <- b:
		return a, nil
	case <-l.done:
		return nil, errors.New("connection refused")
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

// status is an error answer.
type status struct {
	code   int
	reason string
	msg    string
}

func (e *status) Error() string { return e.msg }

func fail(code int, reason, f string, a ...any) *status {
	return &status{code, reason, fmt.Sprintf(f, a...)}
}

func (s *Server) serve(w http.ResponseWriter, q *http.Request) {
	p := strings.Split(strings.Trim(q.URL.Path, "/"), "/")
	switch {
	case len(p) == 1 && p[0] == "api":
		reply(w, 200, Object{"kind": "APIVersions", "apiVersion": "v1", "versions": []any{"v1"}})
		return
	case len(p) == 1 && p[0] == "apis":
		reply(w, 200, s.groups())
		return
	case len(p) == 1 && p[0] == "version":
		reply(w, 200, Object{"major": "1", "minor": "34", "gitVersion": "v1.34.0"})
		return
	}
	gv := ""
	switch {
	case p[0] == "api" && len(p) >= 2:
		gv, p = p[1], p[2:]
	case p[0] == "apis" && len(p) >= 3:
		gv, p = p[1]+"/"+p[2], p[3:]
	default:
		replyErr(w, fail(404, "NotFound", "no path %s", q.URL.Path))
		return
	}
	if len(p) == 0 {
		s.resources(w, gv)
		return
	}
	ns := ""
	if p[0] == "namespaces" && len(p) >= 3 {
		ns, p = p[1], p[2:]
	}
	kind, ok := s.kinds[gv+"/"+p[0]]
	if !ok || len(p) > 3 {
		replyErr(w, fail(404, "NotFound", "no resource %s", q.URL.Path))
		return
	}
	name, sub := "", ""
	if len(p) > 1 {
		name = p[1]
	}
	if len(p) > 2 {
		sub = p[2]
	}
	if sub != "" && !(sub == "status" && kind.Status) {
		replyErr(w, fail(404, "NotFound", "no subresource %s", sub))
		return
	}
	if f := s.Fail; f != nil {
		if code := f(q.Method, p[0], sub, name); code != 0 {
			reason := map[int]string{404: "NotFound", 409: "Conflict", 500: "InternalError", 503: "ServiceUnavailable"}[code]
			replyErr(w, fail(code, reason, "injected fault"))
			return
		}
	}
	var o Object
	var err *status
	code := 200
	switch {
	case q.Method == "GET" && name == "" && isTrue(q, "watch"):
		s.watch(w, q, kind, ns)
		return
	case q.Method == "GET" && name == "":
		o, err = s.list(kind, ns, q)
	case q.Method == "GET":
		o, err = s.get(kind, ns, name)
	case q.Method == "DELETE" && name != "":
		o, err = s.delete(kind, ns, name)
	default:
		body, e := io.ReadAll(q.Body)
		if e != nil {
			replyErr(w, fail(400, "BadRequest", "body: %v", e))
			return
		}
		switch {
		case q.Method == "POST" && name == "":
			code = 201
			var in Object
			if in, err = parse(body); err == nil {
				o, err = s.create(kind, ns, in)
			}
		case q.Method == "PUT" && name != "":
			var in Object
			if in, err = parse(body); err == nil {
				o, err = s.update(kind, ns, name, sub, in)
			}
		case q.Method == "PATCH" && name != "":
			o, err = s.patch(kind, ns, name, sub, q.Header.Get("Content-Type"), body)
		default:
			err = fail(405, "MethodNotAllowed", "%s %s", q.Method, q.URL.Path)
		}
	}
	if err != nil {
		replyErr(w, err)
		return
	}
	reply(w, code, o)
}

func isTrue(q *http.Request, k string) bool {
	v := q.URL.Query().Get(k)
	return v == "1" || v == "true"
}

func parse(b []byte) (Object, *status) {
	var o Object
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, fail(400, "BadRequest", "body: %v", err)
	}
	return o, nil
}

func reply(w http.ResponseWriter, code int, o any) {
	b, err := json.Marshal(o)
	if err != nil {
		code, b = 500, []byte(err.Error())
	}
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	_, _ = w.Write(b)
}

func (e *status) object() Object {
	return Object{"kind": "Status", "apiVersion": "v1", "metadata": Object{}, "status": "Failure",
		"message": e.msg, "reason": e.reason, "code": e.code}
}

func replyErr(w http.ResponseWriter, e *status) { reply(w, e.code, e.object()) }

func (s *Server) groups() Object {
	vs := map[string][]string{}
	for _, k := range s.kinds {
		if k.Group != "" && !contains(vs[k.Group], k.Version) {
			vs[k.Group] = append(vs[k.Group], k.Version)
		}
	}
	var gs []string
	for g := range vs {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	var list []any
	for _, g := range gs {
		var l []any
		for _, v := range vs[g] {
			l = append(l, Object{"groupVersion": g + "/" + v, "version": v})
		}
		list = append(list, Object{"name": g, "versions": l, "preferredVersion": l[0]})
	}
	return Object{"kind": "APIGroupList", "apiVersion": "v1", "groups": list}
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (s *Server) resources(w http.ResponseWriter, gv string) {
	var list []any
	for _, k := range s.kinds {
		if k.gv() != gv {
			continue
		}
		verbs := []any{"create", "delete", "get", "list", "patch", "update", "watch"}
		list = append(list, Object{"name": k.Resource, "singularName": strings.ToLower(k.Kind), "namespaced": k.Namespaced, "kind": k.Kind, "verbs": verbs})
		if k.Status {
			list = append(list, Object{"name": k.Resource + "/status", "singularName": "", "namespaced": k.Namespaced, "kind": k.Kind, "verbs": []any{"get", "patch", "update"}})
		}
	}
	if len(list) == 0 {
		replyErr(w, fail(404, "NotFound", "no group version %s", gv))
		return
	}
	reply(w, 200, Object{"kind": "APIResourceList", "apiVersion": "v1", "groupVersion": gv, "resources": list})
}

func clone(o Object) Object {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	var c Object
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return c
}

func meta(o Object) Object {
	m, ok := o["metadata"].(Object)
	if !ok {
		m = Object{}
		o["metadata"] = m
	}
	return m
}

func str(m Object, k string) string { v, _ := m[k].(string); return v }

func key(ns, name string) string { return ns + "/" + name }

func (k Kind) id() string { return k.gv() + "/" + k.Resource }

func (s *Server) commit(k Kind, typ string, o Object) Object {
	s.rv++
	meta(o)["resourceVersion"] = strconv.FormatInt(s.rv, 10)
	id := key(str(meta(o), "namespace"), str(meta(o), "name"))
	if typ == "DELETED" {
		delete(s.objs[k.id()], id)
	} else {
		s.objs[k.id()][id] = o
	}
	s.log = append(s.log, Write{Type: typ, Object: clone(o), kind: k.id(), rv: s.rv})
	s.cond.Broadcast()
	return clone(o)
}

func (s *Server) find(k Kind, ns, name string) (Object, *status) {
	if o, ok := s.objs[k.id()][key(ns, name)]; ok {
		return o, nil
	}
	return nil, fail(404, "NotFound", "%s %q not found", k.Resource, key(ns, name))
}

func (s *Server) get(k Kind, ns, name string) (Object, *status) {
	s.mu.Lock()
	defer s.mu.Unlock()
	o, err := s.find(k, ns, name)
	if err != nil {
		return nil, err
	}
	return clone(o), nil
}

func (s *Server) list(k Kind, ns string, q *http.Request) (Object, *status) {
	match, err := selector(q)
	if err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return Object{"kind": k.Kind + "List", "apiVersion": k.gv(),
		"metadata": Object{"resourceVersion": strconv.FormatInt(s.rv, 10)}, "items": s.items(k, ns, match)}, nil
}

func (s *Server) items(k Kind, ns string, match func(Object) bool) []any {
	var ids []string
	for id := range s.objs[k.id()] {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	items := []any{}
	for _, id := range ids {
		o := s.objs[k.id()][id]
		if (ns == "" || str(meta(o), "namespace") == ns) && match(o) {
			items = append(items, clone(o))
		}
	}
	return items
}

// selector understands equality in label selectors and metadata.name/namespace in field selectors.
func selector(q *http.Request) (func(Object) bool, *status) {
	type term struct{ k, v string }
	parse := func(s string) (ts []term, ok bool) {
		if s == "" {
			return nil, true
		}
		for _, t := range strings.Split(s, ",") {
			kv := strings.SplitN(strings.Replace(t, "==", "=", 1), "=", 2)
			if len(kv) != 2 || strings.ContainsAny(t, "!() ") {
				return nil, false
			}
			ts = append(ts, term{kv[0], kv[1]})
		}
		return ts, true
	}
	ls, ok1 := parse(q.URL.Query().Get("labelSelector"))
	fs, ok2 := parse(q.URL.Query().Get("fieldSelector"))
	if !ok1 || !ok2 {
		return nil, fail(400, "BadRequest", "selector not understood: %s", q.URL.RawQuery)
	}
	return func(o Object) bool {
		labels, _ := meta(o)["labels"].(Object)
		for _, t := range ls {
			if labels[t.k] != t.v {
				return false
			}
		}
		for _, t := range fs {
			if v, ok := meta(o)[strings.TrimPrefix(t.k, "metadata.")]; !ok && t.v != "" || ok && v != t.v {
				return false
			}
		}
		return true
	}, nil
}

func (s *Server) create(k Kind, ns string, in Object) (Object, *status) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.down {
		return nil, fail(503, "ServiceUnavailable", "down")
	}
	m := meta(in)
	if k.Namespaced {
		if n := str(m, "namespace"); n != "" && n != ns {
			return nil, fail(400, "BadRequest", "the namespace of the object does not match the request")
		}
		if ns == "" {
			return nil, fail(400, "BadRequest", "no namespace")
		}
		m["namespace"] = ns
	} else {
		delete(m, "namespace")
	}
	if str(m, "name") == "" {
		if str(m, "generateName") == "" {
			return nil, fail(422, "Invalid", "no name")
		}
		s.uid++
		m["name"] = str(m, "generateName") + strconv.Itoa(s.uid)
	}
	if str(m, "resourceVersion") != "" {
		return nil, fail(400, "BadRequest", "resourceVersion should not be set on objects to be created")
	}
	if err := s.kindOf(k, in); err != nil {
		return nil, err
	}
	if _, ok := s.objs[k.id()][key(str(m, "namespace"), str(m, "name"))]; ok {
		return nil, fail(409, "AlreadyExists", "%s %q already exists", k.Resource, str(m, "name"))
	}
	s.uid++
	m["uid"] = fmt.Sprintf("uid-%d", s.uid)
	m["creationTimestamp"] = time.Now().UTC().Format(time.RFC3339)
	if k.Status {
		m["generation"] = 1
		delete(in, "status")
	}
	return s.commit(k, "ADDED", clone(in)), nil
}

func (s *Server) kindOf(k Kind, in Object) *status {
	if in["kind"] == nil && in["apiVersion"] == nil {
		in["kind"], in["apiVersion"] = k.Kind, k.gv()
	}
	if in["kind"] != k.Kind || in["apiVersion"] != k.gv() {
		return fail(400, "BadRequest", "kind %v of %v where %s is served", in["kind"], in["apiVersion"], k.Kind)
	}
	return nil
}

func (s *Server) update(k Kind, ns, name, sub string, in Object) (Object, *status) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.replace(k, ns, name, sub, in)
}

func (s *Server) replace(k Kind, ns, name, sub string, in Object) (Object, *status) {
	if s.down {
		return nil, fail(503, "ServiceUnavailable", "down")
	}
	old, err := s.find(k, ns, name)
	if err != nil {
		return nil, err
	}
	if err := s.kindOf(k, in); err != nil {
		return nil, err
	}
	m, om := meta(in), meta(old)
	if n := str(m, "name"); n != name {
		return nil, fail(400, "BadRequest", "the name of the object (%s) does not match the request (%s)", n, name)
	}
	if rv := str(m, "resourceVersion"); rv != "" && rv != str(om, "resourceVersion") {
		return nil, fail(409, "Conflict", "the object has been modified")
	}
	if u := str(m, "uid"); u != "" && u != str(om, "uid") {
		return nil, fail(409, "Conflict", "the object has been replaced")
	}
	var next Object
	if sub == "status" {
		next = clone(old)
		delete(next, "status")
		if st, ok := in["status"]; ok {
			next["status"] = st
		}
	} else {
		next = clone(in)
		nm := meta(next)
		for _, f := range []string{"uid", "creationTimestamp", "namespace", "generation"} {
			delete(nm, f)
			if v, ok := om[f]; ok {
				nm[f] = v
			}
		}
		if k.Status {
			delete(next, "status")
			if st, ok := old["status"]; ok {
				next["status"] = st
			}
			if !equal(next, old) {
				nm["generation"] = generation(om) + 1
			}
		}
	}
	meta(next)["resourceVersion"] = meta(old)["resourceVersion"]
	next, same := clone(next), clone(old)
	if reflect.DeepEqual(next, same) {
		return same, nil // nothing changes
	}
	return s.commit(k, "MODIFIED", next), nil
}

func generation(m Object) int64 {
	switch g := m["generation"].(type) {
	case float64:
		return int64(g)
	case int:
		return int64(g)
	case int64:
		return g
	}
	return 0
}

// equal compares all but the metadata.
func equal(a, b Object) bool {
	a, b = clone(a), clone(b)
	delete(a, "metadata")
	delete(b, "metadata")
	return reflect.DeepEqual(a, b)
}

func (s *Server) patch(k Kind, ns, name, sub, typ string, body []byte) (Object, *status) {
	s.mu.Lock()
	defer s.mu.Unlock()
	old, err := s.find(k, ns, name)
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(old)
	var out []byte
	var e error
	switch strings.SplitN(typ, ";", 2)[0] {
	case "application/merge-patch+json":
		out, e = jsonpatch.MergePatch(b, body)
	case "application/json-patch+json":
		var p jsonpatch.Patch
		if p, e = jsonpatch.DecodePatch(body); e == nil {
			out, e = p.Apply(b)
		}
	default:
		return nil, fail(415, "UnsupportedMediaType", "%s", typ)
	}
	if e != nil {
		return nil, fail(422, "Invalid", "patch: %v", e)
	}
	in, err := parse(out)
	if err != nil {
		return nil, err
	}
	return s.replace(k, ns, name, sub, in)
}

func (s *Server) delete(k Kind, ns, name string) (Object, *status) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.down {
		return nil, fail(503, "ServiceUnavailable", "down")
	}
	o, err := s.find(k, ns, name)
	if err != nil {
		return nil, err
	}
	return s.commit(k, "DELETED", clone(o)), nil
}

func (s *Server) watch(w http.ResponseWriter, q *http.Request, k Kind, ns string) {
	if isTrue(q, "sendInitialEvents") {
		replyErr(w, fail(422, "Invalid", "sendInitialEvents is not supported"))
		return
	}
	match, err := selector(q)
	if err != nil {
		replyErr(w, err)
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	rv := q.URL.Query().Get("resourceVersion")
	var from int64
	var first []any
	if rv == "" || rv == "0" {
		from = s.rv
		for _, o := range s.items(k, ns, match) {
			first = append(first, Object{"type": "ADDED", "object": o})
		}
	} else {
		n, e := strconv.ParseInt(rv, 10, 64)
		if e != nil {
			replyErr(w, fail(400, "BadRequest", "resource version %q", rv))
			return
		}
		from = n
	}
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(200)
	fl := w.(http.Flusher)
	send := func(os []any) bool {
		s.mu.Unlock()
		defer s.mu.Lock()
		for _, o := range os {
			b, _ := json.Marshal(o)
			if _, err := w.Write(append(b, '\n')); err != nil {
				return false
			}
		}
		fl.Flush()
		return true
	}
	if !send(first) {
		return
	}
	gone := context.AfterFunc(q.Context(), func() {
		s.mu.Lock()
		s.cond.Broadcast()
		s.mu.Unlock()
	})
	defer gone()
	pos := sort.Search(len(s.log), func(i int) bool { return s.log[i].rv > from })
	for {
		for pos == len(s.log) && !s.down && q.Context().Err() == nil {
			s.cond.Wait()
		}
		if s.down || q.Context().Err() != nil {
			return
		}
		var evs []any
		for ; pos < len(s.log); pos++ {
			e := s.log[pos]
			if e.kind == k.id() && (ns == "" || str(meta(e.Object), "namespace") == ns) && match(e.Object) {
				evs = append(evs, Object{"type": e.Type, "object": e.Object})
			}
		}
		if len(evs) > 0 && !send(evs) {
			return
		}
	}
}

func (s *Server) kind(resource string) Kind {
	for _, k := range s.kinds {
		if k.Resource == resource {
			return k
		}
	}
	panic("no resource " + resource)
}

// Put creates an object or replaces what is there but its status and metadata, as a user would do.
func (s *Server) Put(resource string, o Object) Object {
	k := s.kind(resource)
	o = clone(o)
	m := meta(o)
	s.mu.Lock()
	_, err := s.find(k, str(m, "namespace"), str(m, "name"))
	s.mu.Unlock()
	var out Object
	if err != nil {
		out, err = s.create(k, str(m, "namespace"), o)
	} else {
		out, err = s.update(k, str(m, "namespace"), str(m, "name"), "", o)
	}
	if err != nil {
		panic(err)
	}
	return out
}

// Delete deletes an object, if it is there.
func (s *Server) Delete(resource, ns, name string) { _, _ = s.delete(s.kind(resource), ns, name) }

// Get gives an object or nil.
func (s *Server) Get(resource, ns, name string) Object {
	o, err := s.get(s.kind(resource), ns, name)
	if err != nil {
		return nil
	}
	return o
}

// List gives all objects of a kind.
func (s *Server) List(resource string) []Object {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []Object
	for _, o := range s.items(s.kind(resource), "", func(Object) bool { return true }) {
		out = append(out, o.(Object))
	}
	return out
}

// Writes gives the changes of a kind's objects from position from on, and the next position.
func (s *Server) Writes(resource string, from int) ([]Write, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	id := s.kind(resource).id()
	var out []Write
	for _, w := range s.log[from:] {
		if w.kind == id {
			out = append(out, w)
		}
	}
	return out, len(s.log)
}
