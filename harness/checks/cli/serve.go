package main

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	rbacv1 "k8s.io/api/rbac/v1"

	"github.com/l7mp/dcontroller/pkg/auth"

	"verif/core"
	"verif/kapi"
)

// patience is how long something that must come about eventually is waited for.
var patience = 30 * time.Second

var kubeKinds = []kapi.Kind{
	{Version: "v1", Kind: "ConfigMap", Resource: "configmaps", Namespaced: true},
	{Group: "test.io", Version: "v1", Kind: "Widget", Resource: "widgets", Namespaced: true},
	{Group: "dcontroller.io", Version: "v1alpha1", Kind: "Operator", Resource: "operators", Status: true},
}

type m = map[string]any

// startCase is one way to start the server.
type startCase struct {
	http, insecure, noAuth, noServer bool
	addr                             string // "": not given
	port                             bool   // a port is given
	cert                             string // "": the files of the server by flags; "default": in the working directory; "missing", "mismatch", "swapped"
	late                             bool   // the operator is made while the server runs
	crowded                          bool   // many other ports of the loopback interface are in use
}

func (c startCase) String() string {
	var s []string
	for _, x := range []struct {
		n string
		v bool
	}{{"http", c.http}, {"insecure", c.insecure}, {"disable-authentication", c.noAuth}, {"disable-api-server", c.noServer}, {"addr=" + c.addr, c.addr != ""}, {"port", c.port}, {"cert=" + c.cert, c.cert != ""}, {"operator later", c.late}, {"many ports in use", c.crowded}} {
		if x.v {
			s = append(s, x.n)
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

var (
	portMu   sync.Mutex
	portNext = 10000
)

// freePort gives a port that nobody listens on, each only once (but all are used again after some time).
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < 6000; i++ {
		portNext++
		if portNext >= 16000 {
			portNext = 10000
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", portNext))
		if err != nil {
			continue
		}
		l.Close()
		return portNext
	}
	core.Abort("no free port")
	return 0
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 1<<20 {
		l.b.Reset()
	}
	return l.b.Write(p)
}
func (l *lockedBuffer) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

func operator(dst m) m {
	return m{"apiVersion": "dcontroller.io/v1alpha1", "kind": "Operator", "metadata": m{"name": "op1"}, "spec": m{"controllers": []any{
		m{"name": "c1", "sources": []any{m{"apiGroup": "", "kind": "ConfigMap"}}, "target": dst,
			"pipeline": []any{m{"@project": m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "data": "$.data"}}}},
		m{"name": "c2", "sources": []any{m{"apiGroup": "", "kind": "ConfigMap"}}, "target": m{"apiGroup": "test.io", "kind": "Widget", "type": "Updater"},
			"pipeline": []any{m{"@project": m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "data": "$.data"}}}},
	}}}
}

func configMap(ns, val string) m {
	return m{"apiVersion": "v1", "kind": "ConfigMap", "metadata": m{"name": "p", "namespace": ns}, "data": m{"val": val}}
}

// server is the program at work.
type server struct {
	cmd    *exec.Cmd
	log    lockedBuffer
	done   chan struct{}
	code   int
	health string
	meter  string
}

func (s *server) ended() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

// eventually waits until f gives no complaint, or returns the last complaint.
func (s *server) eventually(f func() string) string {
	deadline := time.Now().Add(patience)
	for {
		msg := f()
		if msg == "" || time.Now().After(deadline) {
			return msg
		}
		if s.ended() {
			return fmt.Sprintf("the program has ended (code %d): %s", s.code, lastLines(s.log.String()))
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func lastLines(s string) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > 4 {
		ls = ls[len(ls)-4:]
	}
	return short(strings.Join(ls, " | "))
}

func launch(dir, kube string, args ...string) *server {
	hp, mp := freePort(), freePort()
	s := &server{done: make(chan struct{}), health: fmt.Sprintf("127.0.0.1:%d", hp), meter: fmt.Sprintf("127.0.0.1:%d", mp)}
	cfg := m{"apiVersion": "v1", "kind": "Config", "current-context": "c", "clusters": []any{m{"name": "k", "cluster": m{"server": kube}}},
		"users": []any{m{"name": "u", "user": m{}}}, "contexts": []any{m{"name": "c", "context": m{"cluster": "k", "user": "u"}}}}
	b, _ := json.Marshal(cfg)
	write(filepath.Join(dir, "kube.config"), string(b))
	s.cmd = exec.Command(tool(), append([]string{"start", "--health-probe-bind-address=" + s.health, "--metrics-bind-address=" + s.meter}, args...)...)
	s.cmd.Dir = dir
	s.cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "KUBECONFIG=" + filepath.Join(dir, "kube.config"), "GOMAXPROCS=4"}
	s.cmd.Stdout, s.cmd.Stderr = &s.log, &s.log
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	started := make(chan error)
	go func() {
		// The signal of the parent's death is that of the thread that started the program.
		lockThread()
		err := s.cmd.Start()
		started <- err
		if err != nil {
			return
		}
		_ = s.cmd.Wait()
		s.code = s.cmd.ProcessState.ExitCode()
		close(s.done)
	}()
	if err := <-started; err != nil {
		core.Abort("start: %v", err)
	}
	return s
}

func (s *server) kill() {
	_ = s.cmd.Process.Kill()
	<-s.done
}

// client is one that accepts the certificate of the files, for the name it is made for, and no other.
func client(cert string, host string) *http.Client {
	tr := &http.Transport{DisableKeepAlives: true}
	if cert != "" {
		pool := x509.NewCertPool()
		pool.AppendCertsFromPEM(must(os.ReadFile(cert)))
		tr.TLSClientConfig = &tls.Config{RootCAs: pool, ServerName: host, MinVersion: tls.VersionTLS12}
	}
	return &http.Client{Transport: tr, Timeout: 20 * time.Second}
}

func get(c *http.Client, url, token string) (int, string) {
	q, _ := http.NewRequest("GET", url, nil)
	if token != "" {
		q.Header.Set("Authorization", "Bearer "+token)
	}
	r, err := c.Do(q)
	if err != nil {
		return 0, err.Error()
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, string(b)
}

func values(body string) string {
	var l struct {
		Items []struct {
			Metadata struct{ Name, Namespace string }
			Data     m
		}
	}
	if err := json.Unmarshal([]byte(body), &l); err != nil {
		return short(body)
	}
	out := map[string]any{}
	for _, i := range l.Items {
		out[i.Metadata.Namespace+"/"+i.Metadata.Name] = i.Data["val"]
	}
	return fmt.Sprint(out)
}

func start(t *core.T, c startCase) error {
	makeKeys()
	d := place()
	defer os.RemoveAll(d)
	k := kapi.New(kubeKinds...)
	defer k.Stop()
	kube, err := k.Listen()
	if err != nil {
		core.Abort("%v", err)
	}
	k.Put("configmaps", configMap("d", "1"))
	k.Put("configmaps", configMap("e", "2"))
	out := m{"kind": "V", "type": "Updater"}
	if !c.late {
		k.Put("operators", operator(out))
	}
	copyTo := func(from, to string) { write(filepath.Join(d, to), string(must(os.ReadFile(from)))) }
	var args []string
	files := func(key, cert string) {
		args = append(args, "--tls-key-file="+key, "--tls-cert-file="+cert)
	}
	switch c.cert {
	case "":
		files(ours.key, ours.cert)
	case "default":
		copyTo(ours.key, "apiserver.key")
		copyTo(ours.cert, "apiserver.crt")
	case "missing":
	case "mismatch":
		files(theirs.key, ours.cert)
	case "swapped":
		files(ours.cert, ours.key)
	}
	for _, f := range []struct {
		n string
		v bool
	}{{"http", c.http}, {"insecure", c.insecure}, {"disable-authentication", c.noAuth}, {"disable-api-server", c.noServer}} {
		if f.v {
			args = append(args, "--"+f.n)
		}
	}
	port := 8443
	if c.port {
		port = freePort()
		args = append(args, fmt.Sprintf("--port=%d", port))
	}
	if c.addr != "" {
		args = append(args, "--addr="+c.addr)
	}
	if c.crowded {
		defer crowd()()
	}
	s := launch(d, kube, args...)
	defer s.kill()
	bad := c.cert != "" && c.cert != "default" && !c.http && !c.noServer
	if bad {
		t.Out("refused")
		t.Step("refused")
		select {
		case <-s.done:
		case <-time.After(patience):
			return core.V("without a usable certificate the program does not end")
		}
		if s.code == 0 {
			return core.V("without a usable certificate the program ends with code 0: %s", lastLines(s.log.String()))
		}
		return nil
	}
	plain := client("", "")
	if msg := s.eventually(func() string {
		for _, u := range []string{"http://" + s.health + "/healthz", "http://" + s.health + "/readyz", "http://" + s.meter + "/metrics"} {
			if code, b := get(plain, u, ""); code != 200 {
				return fmt.Sprintf("%s gives %d: %s", u, code, short(b))
			}
		}
		return ""
	}); msg != "" {
		return core.V("%s", msg)
	}
	if c.late {
		k.Put("operators", operator(out))
	}
	// The controllers do their work.
	works := func(val string) string {
		return s.eventually(func() string {
			for ns, v := range map[string]string{"d": val, "e": "2"} {
				o := k.Get("widgets", ns, "p")
				if data, _ := o["data"].(m); fmt.Sprint(data["val"]) != v {
					return fmt.Sprintf("the target %s/p is %v, should have %s", ns, o, v)
				}
			}
			return ""
		})
	}
	if msg := works("1"); msg != "" {
		return core.V("%s", msg)
	}
	host := c.addr
	if host == "" {
		host = "127.0.0.1"
	}
	base := fmt.Sprintf("http://%s:%d", host, port)
	hc := plain
	if !c.http {
		base = "https" + base[4:]
		hc = client(ours.cert, "localhost")
	}
	if c.noServer {
		if conn, err := net.Dial("tcp", fmt.Sprintf("%s:%d", host, port)); err == nil {
			conn.Close()
			return core.V("although the API server is disabled, somebody listens on %s:%d", host, port)
		}
	} else if err := c.serves(s, hc, plain, base, host, port); err != nil {
		return err
	}
	if l := s.log.String(); l != "" {
		for _, w := range []string{"foreign", "old", "d", "e", "all", "writer"} {
			if strings.Contains(l, token(w)) {
				return core.V("the log shows the token of a user")
			}
		}
	}
	// What changes later arrives everywhere.
	k.Put("configmaps", configMap("d", "3"))
	if msg := works("3"); msg != "" {
		return core.V("after a change of the source: %s", msg)
	}
	if !c.noServer {
		if msg := s.eventually(func() string {
			if code, b := get(hc, base+path("d"), token("d")); code != 200 || values(b) != "map[d/p:3]" {
				return fmt.Sprintf("%d %s", code, values(b))
			}
			return ""
		}); msg != "" {
			return core.V("after a change of the source, %s%s gives %s", base, path("d"), msg)
		}
	}
	t.Out("%v %v %v", c.http, c.noAuth, c.noServer)
	t.Step(c.String())
	_ = s.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-s.done:
	case <-time.After(patience):
		return core.V("the program does not end when it is told to")
	}
	if s.code != 0 {
		return core.V("told to end, the program ends with code %d: %s", s.code, lastLines(s.log.String()))
	}
	return nil
}

// crowd takes as many ports as it can, save those that the cases use, and those that the system gives out.
func crowd() func() {
	var ls []net.Listener
	for p := 16000; p < 32768 && len(ls) < 17000; p++ {
		if l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p)); err == nil {
			ls = append(ls, l)
		}
	}
	return func() {
		for _, l := range ls {
			l.Close()
		}
	}
}

func path(ns string) string {
	if ns == "" {
		return "/apis/" + opGroup + "/v1alpha1/v"
	}
	return "/apis/" + opGroup + "/v1alpha1/namespaces/" + ns + "/v"
}

var tokens sync.Map

// token is one for a namespace, or of another kind.
func token(what string) string {
	if v, ok := tokens.Load(what); ok {
		return v.(string)
	}
	k, life, ns, rules := ours, time.Hour, []string{what}, []rbacv1.PolicyRule(nil)
	switch what {
	case "foreign":
		k, ns = theirs, nil
	case "old":
		life, ns = -time.Hour, nil
	case "all":
		ns = nil
	case "writer":
		ns, rules = nil, []rbacv1.PolicyRule{{Verbs: []string{"create", "update", "delete"}, APIGroups: []string{"*"}, Resources: []string{"*"}}}
	}
	priv, err := auth.LoadPrivateKey(k.key)
	if err != nil {
		core.Abort("%v", err)
	}
	s, err := auth.NewTokenGenerator(priv).GenerateToken("u", ns, rules, life)
	if err != nil {
		core.Abort("%v", err)
	}
	tokens.Store(what, s)
	return s
}

// serves checks that the API server is where it should be, and for whom.
func (c startCase) serves(s *server, hc, plain *http.Client, base, host string, port int) error {
	open := c.http || c.noAuth
	for _, x := range []struct {
		tok, ns string
		code    int
	}{{"", "d", 401}, {"garbage", "d", 401}, {"foreign", "d", 401}, {"old", "d", 401}, {"d", "d", 200}, {"d", "e", 403}, {"d", "", 403}, {"e", "e", 200}, {"all", "", 200}, {"all", "e", 200}, {"writer", "d", 403}} {
		tok := x.tok
		if tok != "" && tok != "garbage" {
			tok = token(x.tok)
		}
		want := x.code
		if open {
			want = 200
		}
		all := map[string]string{"d": "map[d/p:1]", "e": "map[e/p:2]", "": "map[d/p:1 e/p:2]"}[x.ns]
		if msg := s.eventually(func() string {
			code, b := get(hc, base+path(x.ns), tok)
			if code != want {
				return fmt.Sprintf("%d (%s), should be %d", code, short(b), want)
			}
			if code == 200 && values(b) != all {
				return fmt.Sprintf("%s, should be %s", values(b), all)
			}
			return ""
		}); msg != "" {
			return core.V("%s%s with token %q gives %s", base, path(x.ns), x.tok, msg)
		}
	}
	if !c.http {
		if code, b := get(plain, "http"+base[5:]+path("d"), token("d")); code == 200 {
			return core.V("without TLS the server answers, too: %s", short(b))
		}
		if code, _ := get(client(theirs.cert, "localhost"), base+path("d"), token("d")); code != 0 {
			return core.V("the server shows another certificate than the one it was given")
		}
	}
	for _, other := range []string{"127.0.0.1", "127.0.0.2"} {
		if c.addr == "" || c.addr == "0.0.0.0" || c.addr == other || c.addr == "localhost" && other == "127.0.0.1" {
			continue
		}
		if conn, err := net.Dial("tcp", fmt.Sprintf("%s:%d", other, port)); err == nil {
			conn.Close()
			return core.V("told to listen on %s, the server listens on %s", c.addr, other)
		}
	}
	return nil
}

var checkP26 = &core.Check{
	Property: "P26", Level: "model_checking",
	Rule: "a case is one way to start the program, next to an in-memory Kubernetes API server, with what it then does for every kind of client, after a change, and when told to end; outcomes differ when the mode differs",
	Assumptions: []string{
		"the loopback interface has the addresses 127.0.0.1 and 127.0.0.2, and port 8443 is free",
	},
	Run: func(r *core.Run) {
		makeKeys()
		var cs []startCase
		for _, mode := range []startCase{{}, {insecure: true}, {noAuth: true}, {insecure: true, noAuth: true}, {http: true}, {http: true, noAuth: true}, {http: true, insecure: true}, {noServer: true}, {noServer: true, noAuth: true}} {
			for _, a := range []string{"", "127.0.0.1", "127.0.0.2", "localhost", "0.0.0.0"} {
				for _, late := range []bool{false, true} {
					for _, cert := range []string{"", "default", "missing", "mismatch", "swapped"} {
						c := mode
						c.addr, c.port, c.late, c.cert = a, true, late, cert
						if !r.Thorough() && (late != (a == "127.0.0.1" || a == "localhost") || cert != "" && a != "" && a != "127.0.0.1") {
							continue
						}
						if cert != "" && cert != "default" && late {
							continue
						}
						cs = append(cs, c)
					}
				}
			}
		}
		r.Space("ways to start", "cases", len(cs))
		run := func(c startCase) {
			if !r.Exec(c.String(), map[string]any{"flags": c.String()}, func(t *core.T) error {
				if err := start(t, c); err != nil {
					return core.V("started with %v: %v", c, err)
				}
				return nil
			}) {
				r.Enough() // the others may wait in vain, too
			}
		}
		var next atomic.Int64
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1) - 1)
					if i >= len(cs) || r.Expired() {
						return
					}
					run(cs[i])
				}
			}()
		}
		wg.Wait()
		// With the default port, one after the other.
		ds := []startCase{{}, {addr: "127.0.0.1"}, {http: true, noAuth: true},
			{http: true, port: true, crowded: true}, {port: true, crowded: true}}
		r.Space("with the default port or many ports in use", "cases", len(ds))
		for _, c := range ds {
			if !r.Expired() {
				run(c)
			}
		}
	},
}
