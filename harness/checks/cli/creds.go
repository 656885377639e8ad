package main

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/golang-jwt/jwt/v5"
	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apiserver/pkg/authorization/authorizer"
	"k8s.io/client-go/tools/clientcmd"

	"github.com/l7mp/dcontroller/pkg/auth"

	"verif/core"
)

// keys is a pair of files as the program makes it, shared by the cases.
type keys struct{ dir, key, cert string }

var (
	keysOnce sync.Once
	ours     keys // for localhost
	theirs   keys // of another server
)

func makeKeys() {
	keysOnce.Do(func() {
		for _, k := range []*keys{&ours, &theirs} {
			d := place()
			// Not made by the program, so that what fails there shows once.
			cert, key, err := auth.GenerateSelfSignedCert("localhost")
			if err != nil {
				core.Abort("keys: %v", err)
			}
			*k = keys{d, filepath.Join(d, "apiserver.key"), filepath.Join(d, "apiserver.crt")}
			write(k.key, string(key))
			write(k.cert, string(cert))
		}
	})
}

// ---- generate-keys

type keyCase struct {
	name      string
	args      []string
	hosts     []string
	key, cert string // where they should be
	before    bool   // files of earlier runs are there
	fails     bool
}

var keyCases = []keyCase{
	{name: "defaults", hosts: []string{"localhost"}, key: "apiserver.key", cert: "apiserver.crt"},
	{name: "name", args: []string{"--hostname=a.example.com"}, hosts: []string{"a.example.com"}, key: "apiserver.key", cert: "apiserver.crt"},
	{name: "address", args: []string{"--hostname=10.0.0.1"}, hosts: []string{"10.0.0.1"}, key: "apiserver.key", cert: "apiserver.crt"},
	{name: "address 6", args: []string{"--hostname=::1"}, hosts: []string{"::1"}, key: "apiserver.key", cert: "apiserver.crt"},
	{name: "several", args: []string{"--hostname=a.example.com", "--hostname=10.0.0.1", "--hostname=localhost"}, hosts: []string{"a.example.com", "10.0.0.1", "localhost"}, key: "apiserver.key", cert: "apiserver.crt"},
	{name: "several in another order", args: []string{"--hostname=10.0.0.1", "--hostname=b.example.com", "--hostname=::1", "--hostname=a.example.com"}, hosts: []string{"10.0.0.1", "b.example.com", "::1", "a.example.com"}, key: "apiserver.key", cert: "apiserver.crt"},
	{name: "list", args: []string{"--hostname=a.example.com,10.0.0.1"}, hosts: []string{"a.example.com", "10.0.0.1"}, key: "apiserver.key", cert: "apiserver.crt"},
	{name: "wildcard", args: []string{"--hostname=*.example.com"}, hosts: []string{"a.example.com", "b.example.com"}, key: "apiserver.key", cert: "apiserver.crt"},
	{name: "files", args: []string{"--tls-key-file=k.pem", "--tls-cert-file=c.pem"}, hosts: []string{"localhost"}, key: "k.pem", cert: "c.pem"},
	{name: "key file", args: []string{"--tls-key-file=sub/k.pem"}, hosts: []string{"localhost"}, key: "sub/k.pem", cert: "apiserver.crt"},
	{name: "cert file", args: []string{"--tls-cert-file=sub/c.pem", "--hostname=a.example.com"}, hosts: []string{"a.example.com"}, key: "apiserver.key", cert: "sub/c.pem"},
	{name: "again", before: true, hosts: []string{"localhost"}, key: "apiserver.key", cert: "apiserver.crt"},
	{name: "no place for the key", args: []string{"--tls-key-file=none/k.pem"}, fails: true},
	{name: "no place for the certificate", args: []string{"--tls-cert-file=none/c.pem"}, fails: true},
	{name: "unknown flag", args: []string{"--host=x"}, fails: true},
}

var hostAlphabet = []string{"localhost", "a.example.com", "b.example.com", "example.com", "10.0.0.1", "10.0.0.2", "::1", "127.0.0.1"}

func genKeys(t *core.T, c keyCase) error {
	makeKeys()
	d := place()
	defer os.RemoveAll(d)
	if err := os.Mkdir(filepath.Join(d, "sub"), 0o755); err != nil {
		core.Abort("%v", err)
	}
	if c.before {
		for _, f := range []string{c.key, c.cert} {
			if err := os.WriteFile(filepath.Join(d, f), []byte("old"), 0o600); err != nil {
				core.Abort("%v", err)
			}
		}
	}
	r := dctl(d, nil, append([]string{"generate-keys"}, c.args...)...)
	t.Out("%d", r.code)
	t.Step("keys " + c.name)
	if (r.code != 0) != c.fails {
		return core.V("generate-keys %v ends with code %d: %s", c.args, r.code, short(r.err))
	}
	if c.fails {
		return nil
	}
	kf, cf := filepath.Join(d, c.key), filepath.Join(d, c.cert)
	st, err := os.Stat(kf)
	if err != nil {
		return core.V("generate-keys %v: no key: %v", c.args, err)
	}
	if st.Mode().Perm()&0o077 != 0 {
		return core.V("generate-keys %v: the private key can be read by others: %v", c.args, st.Mode())
	}
	kb, _ := os.ReadFile(kf)
	cb, err := os.ReadFile(cf)
	if err != nil {
		return core.V("generate-keys %v: no certificate: %v", c.args, err)
	}
	if strings.Contains(string(cb), "PRIVATE") || strings.Contains(r.out+r.err, "PRIVATE") {
		return core.V("generate-keys %v: the private key is not only in the key file", c.args)
	}
	pair, err := tls.X509KeyPair(cb, kb)
	if err != nil {
		return core.V("generate-keys %v: key and certificate do not belong together: %v", c.args, err)
	}
	blk, _ := pem.Decode(cb)
	crt, err := x509.ParseCertificate(blk.Bytes)
	if err != nil {
		return core.V("generate-keys %v: %v", c.args, err)
	}
	if now := time.Now(); now.Before(crt.NotBefore) || now.Add(24*time.Hour).After(crt.NotAfter) {
		return core.V("generate-keys %v: the certificate is valid from %v to %v", c.args, crt.NotBefore, crt.NotAfter)
	}
	for _, h := range hostAlphabet {
		roots := x509.NewCertPool()
		roots.AddCert(crt)
		err := shake(pair, roots, h)
		if want := slices.Contains(c.hosts, h); (err == nil) != want {
			return core.V("generate-keys %v: whether the certificate is good for %s: %v, should be %v", c.args, h, err, want)
		}
	}
	if blk, _ := pem.Decode(kb); blk == nil {
		return core.V("generate-keys %v: the key file holds no key", c.args)
	} else if old, _ := pem.Decode(must(os.ReadFile(ours.key))); string(old.Bytes) == string(blk.Bytes) {
		return core.V("generate-keys %v: the same key again", c.args)
	}
	// The pair is good for users.
	if _, err := auth.LoadPublicKey(cf); err != nil {
		return core.V("generate-keys %v: %v", c.args, err)
	}
	rc := dctl(d, nil, "generate-config", "--user=u", "--output=u.config", "--tls-key-file="+c.key)
	if rc.code != 0 {
		return core.V("generate-keys %v: no configuration with that key: %s", c.args, short(rc.err))
	}
	if rc := dctl(d, nil, "get-config", "--kubeconfig=u.config", "--tls-cert-file="+c.cert); rc.code != 0 || !strings.Contains(rc.out, "VALID") {
		return core.V("generate-keys %v: a token made with the key is not valid for the certificate: %s %s", c.args, short(rc.out), short(rc.err))
	}
	return nil
}

func must[T any](v T, err error) T {
	if err != nil {
		core.Abort("%v", err)
	}
	return v
}

func shake(pair tls.Certificate, roots *x509.CertPool, host string) error {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	s := tls.Server(a, &tls.Config{Certificates: []tls.Certificate{pair}, MinVersion: tls.VersionTLS12})
	go func() { _ = s.Handshake(); a.Close() }()
	c := tls.Client(b, &tls.Config{RootCAs: roots, ServerName: host, MinVersion: tls.VersionTLS12})
	return c.Handshake()
}

// ---- generate-config and get-config

type confCase struct {
	user     string
	ns       *string
	rules    *string
	inFile   bool // the rules come in a file
	names    *string
	expiry   string
	key      string // "", "missing", "cert", "theirs"
	addr     string
	defns    string
	insecure bool
	http     bool
	toFile   bool
	viaEnv   bool // get-config finds the file by the environment
}

func (c confCase) String() string {
	s := "user=" + c.user
	for _, x := range []struct {
		n string
		v *string
	}{{"namespaces", c.ns}, {"rules", c.rules}, {"resource-names", c.names}} {
		if x.v != nil {
			s += fmt.Sprintf(" %s=%q", x.n, *x.v)
		}
	}
	for _, x := range []struct{ n, v string }{{"expiry", c.expiry}, {"key", c.key}, {"server-address", c.addr}, {"namespace", c.defns}} {
		if x.v != "" {
			s += " " + x.n + "=" + x.v
		}
	}
	for _, x := range []struct {
		n string
		v bool
	}{{"rules-file", c.inFile}, {"insecure", c.insecure}, {"http", c.http}, {"to a file", c.toFile}, {"via KUBECONFIG", c.viaEnv}} {
		if x.v {
			s += " " + x.n
		}
	}
	return s
}

func items(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

// grant is what a case asks for; refused says that it cannot be had.
type grant struct {
	ns      []string
	rules   []rbacv1.PolicyRule
	refused string
}

func (c confCase) wants() grant {
	var g grant
	if c.ns != nil && *c.ns != "" {
		if g.ns = items(*c.ns); len(g.ns) == 0 {
			g.refused = "the namespaces name none"
		}
	}
	if c.rules != nil && *c.rules != "" {
		if err := json.Unmarshal([]byte(*c.rules), &g.rules); err != nil {
			g.refused = "the rules are malformed"
		}
	}
	if c.names != nil && *c.names != "" && g.refused == "" {
		n := items(*c.names)
		switch {
		case len(n) == 0:
			g.refused = "the resource names name none"
		case len(g.rules) == 0:
			g.refused = "there is no rule that the resource names could restrict"
		default:
			g.rules[len(g.rules)-1].ResourceNames = n
		}
	}
	if c.key == "missing" || c.key == "cert" {
		g.refused = "there is no key"
	}
	return g
}

func matches(ps []string, s string) bool { return slices.Contains(ps, "*") || slices.Contains(ps, s) }

// allows is whether a request is within what was asked for.
func (g grant) allows(verb, group, res, ns, name string) bool {
	if len(g.ns) > 0 && !slices.Contains(g.ns, "*") && (ns == "" || !slices.Contains(g.ns, ns)) {
		return false
	}
	if len(g.rules) == 0 {
		return true
	}
	for _, r := range g.rules {
		if matches(r.Verbs, verb) && matches(r.APIGroups, group) && matches(r.Resources, res) &&
			(len(r.ResourceNames) == 0 || slices.Contains([]string{"list", "create"}, verb) || matches(r.ResourceNames, name)) {
			return true
		}
	}
	return false
}

const opGroup = "op1.view.dcontroller.io"

var (
	reqVerbs  = []string{"get", "list", "create", "update", "delete"}
	reqGroups = []string{opGroup, "op2.view.dcontroller.io"}
	reqRes    = []string{"v", "w"}
	reqNs     = []string{"", "d", "e", "f"}
	reqNames  = []string{"x", "y"}
)

func genConfig(t *core.T, c confCase) error {
	makeKeys()
	d := place()
	defer os.RemoveAll(d)
	args := []string{"generate-config", "--user=" + c.user}
	if c.ns != nil {
		args = append(args, "--namespaces="+*c.ns)
	}
	if c.rules != nil {
		if c.inFile {
			write(filepath.Join(d, "rules.json"), *c.rules)
			args = append(args, "--rules-file=rules.json")
		} else {
			args = append(args, "--rules="+*c.rules)
		}
	}
	if c.names != nil {
		args = append(args, "--resource-names="+*c.names)
	}
	if c.expiry != "" {
		args = append(args, "--expiry="+c.expiry)
	}
	if c.addr != "" {
		args = append(args, "--server-address="+c.addr)
	}
	if c.defns != "" {
		args = append(args, "--namespace="+c.defns)
	}
	if c.insecure {
		args = append(args, "--insecure")
	}
	if c.http {
		args = append(args, "--http")
	}
	key := map[string]string{"": ours.key, "missing": filepath.Join(d, "nothing.key"), "cert": ours.cert, "theirs": theirs.key}[c.key]
	args = append(args, "--tls-key-file="+key)
	file := filepath.Join(d, "made.config")
	if c.toFile {
		args = append(args, "--output=made.config")
	}
	g := c.wants()
	before := time.Now()
	r := dctl(d, nil, args...)
	after := time.Now()
	_, statErr := os.Stat(file)
	if g.refused != "" {
		t.Out("refused")
		t.Step("refused: " + g.refused)
		if r.code == 0 || statErr == nil || strings.Contains(r.out, "token") {
			return core.V("although %s, a configuration is made (code %d): %s", g.refused, r.code, short(r.err))
		}
		return nil
	}
	if r.code != 0 {
		return core.V("no configuration is made (code %d): %s", r.code, short(r.err))
	}
	if c.toFile {
		if r.out != "" {
			return core.V("written to a file, but also shown: %s", short(r.out))
		}
		st, err := os.Stat(file)
		if err != nil {
			return core.V("no file is written: %v", err)
		}
		if st.Mode().Perm()&0o077 != 0 {
			return core.V("the configuration, which holds a token, can be read by others: %v", st.Mode())
		}
	} else {
		write(file, r.out)
	}
	cfg, err := clientcmd.LoadFromFile(file)
	if err != nil {
		return core.V("the configuration cannot be read: %v: %s", err, short(r.out))
	}
	// What a client makes of it.
	cc := clientcmd.NewDefaultClientConfig(*cfg, nil)
	rc, err := cc.ClientConfig()
	if err != nil {
		return core.V("a client cannot use the configuration: %v", err)
	}
	addr := c.addr
	if addr == "" {
		addr = "localhost:8443"
	}
	server := "https://" + addr
	if c.http {
		server = "http://" + addr
	}
	// Clients send no token without TLS, and have nothing to verify.
	token := rc.BearerToken
	if c.http {
		if x := cfg.Contexts[cfg.CurrentContext]; x != nil && cfg.AuthInfos[x.AuthInfo] != nil {
			token = cfg.AuthInfos[x.AuthInfo].Token
		}
	}
	if rc.Host != server || rc.Insecure != c.insecure && !c.http {
		return core.V("the configuration is for %s (insecure %v), should be %s (%v)", rc.Host, rc.Insecure, server, c.insecure)
	}
	ns, _, err := cc.Namespace()
	if want := c.defns; err != nil || ns != want && !(want == "" && ns == "default") {
		return core.V("the namespace of the configuration is %q (%v), should be %q", ns, err, want)
	}
	// What the server makes of the token.
	pub := func(k keys) *auth.JWTAuthenticator {
		p, err := auth.LoadPublicKey(k.cert)
		if err != nil {
			core.Abort("%v", err)
		}
		return auth.NewJWTAuthenticator(p)
	}
	mine, other := ours, theirs
	if c.key == "theirs" {
		mine, other = theirs, ours
	}
	q, _ := http.NewRequest("GET", server, nil)
	q.Header.Set("Authorization", "Bearer "+token)
	if u, ok, _ := pub(other).AuthenticateRequest(q); ok {
		return core.V("the token is accepted as %v by the server of another key", u)
	}
	var claims jwt.MapClaims
	if _, _, err := jwt.NewParser().ParseUnverified(token, &claims); err != nil {
		return core.V("the token is malformed: %v", err)
	}
	life := 365 * 24 * time.Hour
	if c.expiry != "" {
		life, _ = time.ParseDuration(c.expiry)
	}
	exp, err1 := claims.GetExpirationTime()
	nbf, err2 := claims.GetNotBefore()
	if err1 != nil || exp == nil || err2 != nil || exp.Before(before.Add(life-2*time.Second)) || exp.After(after.Add(life+2*time.Second)) || nbf != nil && nbf.After(after) {
		return core.V("made between %v and %v for %v, the token is valid from %v to %v (%v, %v)", before, after, life, nbf, exp, err1, err2)
	}
	u, ok, err := pub(mine).AuthenticateRequest(q)
	expired := life <= 0
	if ok == expired {
		return core.V("whether the token is accepted: %v (%v), should be %v", ok, err, !expired)
	}
	bits := ""
	if !expired {
		if u.User.GetName() != c.user {
			return core.V("the token is for user %q", u.User.GetName())
		}
		z := auth.NewCompositeAuthorizer()
		for _, verb := range reqVerbs {
			for _, group := range reqGroups {
				for _, res := range reqRes {
					for _, ns := range reqNs {
						names := reqNames
						if verb == "list" || verb == "create" {
							names = []string{""}
						}
						for _, name := range names {
							dec, _, _ := z.Authorize(context.Background(), authorizer.AttributesRecord{User: u.User, Verb: verb, APIGroup: group,
								APIVersion: "v1alpha1", Resource: res, Namespace: ns, Name: name, ResourceRequest: true})
							want := g.allows(verb, group, res, ns, name)
							if (dec == authorizer.DecisionAllow) != want {
								return core.V("%s %s/%s %s/%s is allowed: %v, should be %v", verb, group, res, ns, name, dec == authorizer.DecisionAllow, want)
							}
							if want {
								bits += "1"
							} else {
								bits += "0"
							}
						}
					}
				}
			}
		}
	}
	t.Out("%s %v", bits, expired)
	t.Step(fmt.Sprint(bits, expired, server, c.insecure))
	return c.shown(d, file, g, mine, other, expired)
}

// shown checks what the program says about a configuration.
func (c confCase) shown(d, file string, g grant, mine, other keys, expired bool) error {
	show := func(cert string) ran {
		args, env := []string{"get-config", "--tls-cert-file=" + cert}, []string(nil)
		if c.viaEnv {
			env = []string{"KUBECONFIG=" + file}
		} else {
			args = append(args, "--kubeconfig="+file)
		}
		return dctl(d, env, args...)
	}
	s := show(mine.cert)
	valid := s.code == 0 && strings.Contains(s.out, "Token is VALID")
	if valid == expired || strings.Contains(s.out, "Token is VALID") != valid {
		return core.V("whether the configuration is shown to be valid: %v, should be %v: %s %s", valid, !expired, short(s.out), short(s.err))
	}
	if !expired {
		var lines []string
		lines = append(lines, c.user)
		if len(g.ns) > 0 {
			lines = append(lines, fmt.Sprint(g.ns))
		} else {
			lines = append(lines, "no restrictions")
		}
		if len(g.rules) == 0 {
			lines = append(lines, "full access")
		}
		for _, r := range g.rules {
			lines = append(lines, fmt.Sprintf("verbs=%v apiGroups=%v resources=%v", r.Verbs, r.APIGroups, r.Resources))
			if len(r.ResourceNames) > 0 {
				lines = append(lines, fmt.Sprintf("resourceNames=%v", r.ResourceNames))
			}
		}
		rest := s.out
		for _, l := range lines {
			i := strings.Index(rest, l)
			if i < 0 {
				return core.V("what is shown of the configuration lacks %q (in this place): %s", l, s.out)
			}
			rest = rest[i+len(l):]
		}
		if n := strings.Count(s.out, "resourceNames="); n != strings.Count(strings.Join(lines, "\n"), "resourceNames=") {
			return core.V("what is shown of the configuration has resource names that it does not: %s", s.out)
		}
	}
	if s := show(other.cert); s.code == 0 || strings.Contains(s.out, "Token is VALID") {
		return core.V("the configuration is shown to be valid for another server's certificate: %s", short(s.out))
	}
	return nil
}

// ---- configurations with several users

type several struct {
	current string
	link    map[string]string // contexts to users
	tokens  map[string]string // users to the user their token is for
	want    string
}

func (s several) String() string {
	return fmt.Sprintf("current=%s contexts=%v users=%v", s.current, s.link, s.tokens)
}

func shownOf(t *core.T, s several) error {
	makeKeys()
	d := place()
	defer os.RemoveAll(d)
	priv, err := auth.LoadPrivateKey(ours.key)
	if err != nil {
		core.Abort("%v", err)
	}
	cfg := clientcmd.GetConfigFromFileOrDie(os.DevNull)
	var us []string
	for u := range s.tokens {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		tok := ""
		if s.tokens[u] != "" {
			if tok, err = auth.NewTokenGenerator(priv).GenerateToken(s.tokens[u], nil, nil, time.Hour); err != nil {
				core.Abort("%v", err)
			}
		}
		k := auth.GenerateKubeconfig("h:1", u, tok, nil)
		cfg.AuthInfos[u] = k.AuthInfos[u]
		cfg.Clusters = k.Clusters
	}
	for c, u := range s.link {
		cfg.Contexts[c] = auth.GenerateKubeconfig("h:1", u, "", nil).Contexts["dcontroller"]
	}
	cfg.CurrentContext = s.current
	f := filepath.Join(d, "k")
	if err := clientcmd.WriteToFile(*cfg, f); err != nil {
		core.Abort("%v", err)
	}
	r := dctl(d, nil, "get-config", "--kubeconfig="+f, "--tls-cert-file="+ours.cert)
	t.Out("%d %s", r.code, s.want)
	t.Step("several " + s.want)
	if s.want == "" {
		if r.code == 0 || strings.Contains(r.out, "VALID") {
			return core.V("something is shown: %s", short(r.out))
		}
		return nil
	}
	if r.code != 0 || !strings.Contains(r.out, "Username:   "+s.want+"\n") {
		return core.V("should show %s (code %d): %s %s", s.want, r.code, short(r.out), short(r.err))
	}
	return nil
}

func ptr(s string) *string { return &s }

var (
	oneRule  = `[{"verbs":["get"],"apiGroups":["` + opGroup + `"],"resources":["v"]}]`
	twoRules = `[{"verbs":["get","list"],"apiGroups":["*"],"resources":["v"],"resourceNames":["x"]},{"verbs":["*"],"apiGroups":["` + opGroup + `"],"resources":["w"],"resourceNames":["y"]}]`
	wide     = `[{"verbs":["*"],"apiGroups":["*"],"resources":["*"]}]`
	several2 = `[{"verbs":["update","delete"],"apiGroups":["op2.view.dcontroller.io"],"resources":["v","w"]},{"verbs":["get","list","create"],"apiGroups":["*"],"resources":["w"]},{"verbs":["list"],"apiGroups":["*"],"resources":["v"]}]`
)

var checkP25 = &core.Check{
	Property: "P25", Level: "model_checking",
	Rule: "a case is one run of the program with one combination of flags, followed by the use of what it made: by a client, by the server's own authentication and authorization on every request of an alphabet, and by the program itself; outcomes differ when the decisions or results differ",
	Assumptions: []string{
		"what the server makes of a token is the subject of P18 and taken as it is here",
		"an empty list of rules is no list",
	},
	Run: func(r *core.Run) {
		makeKeys()
		r.Space("keys", "cases", len(keyCases))
		r.Parallel(len(keyCases), func(i int) {
			c := keyCases[i]
			r.Exec("generate-keys/"+c.name, map[string]any{"args": c.args}, func(t *core.T) error { return genKeys(t, c) })
		})
		nss := []*string{nil, ptr(""), ptr("*"), ptr("d"), ptr("d,e"), ptr(" d , e "), ptr("d,,f,"), ptr("e,*"), ptr(","), ptr(" "), ptr(" , ")}
		rules := []*string{nil, ptr(""), ptr(oneRule), ptr(twoRules), ptr(wide), ptr(several2), ptr(`[{"verbs":["get"]`), ptr(`{"verbs":["get"]}`), ptr(`"get"`), ptr(`[{"verbs":"get"}]`)}
		names := []*string{nil, ptr(""), ptr("x"), ptr("x, y"), ptr("z"), ptr(","), ptr(" ")}
		var cs []confCase
		for _, n := range nss {
			for _, ru := range rules {
				for k, na := range names {
					for _, f := range []bool{false, true} {
						if f && (ru == nil || *ru == "") {
							continue
						}
						if !r.Thorough() && f && k > 2 && n != nil && *n != "d" {
							continue
						}
						cs = append(cs, confCase{user: "alice", ns: n, rules: ru, names: na, inFile: f, toFile: (len(cs)/2)%2 == 0, viaEnv: len(cs)%3 == 0})
					}
				}
			}
		}
		// Many, of which one matters.
		for _, n := range []int{6, 20} {
			for _, at := range []int{0, n / 2, n - 1, n} {
				fill := func(pre, x, sep string) *string {
					var l []string
					for i := range n {
						if i == at {
							l = append(l, x)
						} else {
							l = append(l, fmt.Sprintf(pre, i))
						}
					}
					return ptr(strings.Join(l, sep))
				}
				many := ptr("[" + *fill(`{"verbs":["get"],"apiGroups":["*"],"resources":["no%d"]}`, oneRule[1:len(oneRule)-1], ",") + "]")
				for _, f := range []bool{false, true} {
					cs = append(cs, confCase{user: "alice", ns: fill("n%d", "d", ","), inFile: f}, confCase{user: "alice", rules: many, inFile: f},
						confCase{user: "alice", ns: fill("n%d", "e", " , "), rules: many, inFile: f, toFile: true},
						confCase{user: "alice", rules: ptr(oneRule), names: fill("n%d", "x", ","), inFile: f}, confCase{user: "alice", rules: many, names: fill("n%d", "x", ","), inFile: f})
				}
			}
		}
		n1 := len(cs)
		var mixed []confCase
		for _, user := range []string{"alice", "a b", "system:admin", "ünï/x@y"} {
			for _, e := range []string{"", "1h", "90s", "-1h", "0s", "8760h30m"} {
				for _, key := range []string{"", "theirs", "missing", "cert"} {
					if key != "" && (e != "" || user != "alice" && !r.Thorough()) {
						continue
					}
					for _, addr := range []string{"", "h.example.com:1234", "10.0.0.1:80", "[::1]:443"} {
						for _, dn := range []string{"", "d"} {
							for m := 0; m < 8; m++ {
								if !r.Thorough() && (m%2 == 1) != (dn == "d") {
									continue
								}
								if !r.Thorough() && e != "" && addr != "" {
									continue
								}
								mixed = append(mixed, confCase{user: user, ns: ptr("d"), expiry: e, key: key, addr: addr, defns: dn, insecure: m&1 != 0, http: m&2 != 0, toFile: m&4 != 0, viaEnv: m&4 != 0})
							}
						}
					}
				}
			}
		}
		cs = append(cs, mixed...)
		r.Space("configurations", "restrictions", n1, "other flags", len(cs)-n1, "requests", len(reqVerbs)*len(reqGroups)*len(reqRes)*len(reqNs)*len(reqNames))
		r.Parallel(len(cs), func(i int) {
			c := cs[i]
			r.Exec("generate-config/"+c.String(), map[string]any{"flags": c.String()}, func(t *core.T) error {
				if err := genConfig(t, c); err != nil {
					return core.V("generate-config %v: %v", c, err)
				}
				return nil
			})
		})
		var ss []several
		for _, cur := range []string{"", "c1", "c2", "c3"} {
			for _, l1 := range []string{"u1", "u2", "u3"} {
				for _, l2 := range []string{"u1", "u2"} {
					for _, t2 := range []string{"", "bob", "alice"} {
						s := several{current: cur, link: map[string]string{"c1": l1, "c2": l2}, tokens: map[string]string{"u1": "alice", "u2": t2}}
						s.want = s.tokens[s.link[cur]]
						ss = append(ss, s)
					}
				}
			}
		}
		r.Space("configurations with several users", "cases", len(ss))
		r.Parallel(len(ss), func(i int) {
			s := ss[i]
			r.Exec("get-config/"+s.String(), map[string]any{"config": s.String()}, func(t *core.T) error {
				if err := shownOf(t, s); err != nil {
					return core.V("get-config of %v: %v", s, err)
				}
				return nil
			})
		})
	},
}
