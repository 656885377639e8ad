PRE = '''package auth_test

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/l7mp/dcontroller/pkg/auth"
)

var (
	_ = fmt.Sprint
	_ = json.Marshal
	_ net.Addr
	_ http.Handler
	_ *httptest.Server
	_ io.Reader
	_ = strings.Contains
	_ time.Duration
)

func zok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

// ztool builds the program, and makes keys for it in a directory.
func ztool(t *testing.T) (string, string) {
	d := t.TempDir()
	bin := filepath.Join(d, "dctl")
	out, err := exec.Command("go", "build", "-buildvcs=false", "-o", bin, "github.com/l7mp/dcontroller").CombinedOutput()
	if err != nil {
		t.Fatalf("%v: %s", err, out)
	}
	cert, key, err := auth.GenerateSelfSignedCert("localhost")
	zok(t, err)
	zok(t, os.WriteFile(filepath.Join(d, "apiserver.crt"), cert, 0o600))
	zok(t, os.WriteFile(filepath.Join(d, "apiserver.key"), key, 0o600))
	return bin, d
}

func zrun(d, bin string, args ...string) (string, error) {
	c := exec.Command(bin, args...)
	c.Dir = d
	out, err := c.CombinedOutput()
	return string(out), err
}

// zclaims are those of the token that the program makes.
func zclaims(t *testing.T, args ...string) *auth.UserInfoClaims {
	return nil
}
'''.replace('''
// zclaims are those of the token that the program makes.
func zclaims(t *testing.T, args ...string) *auth.UserInfoClaims {
	return nil
}
''', '''
// zuser is what the server makes of the configuration that the program makes.
func zuser(t *testing.T, args ...string) (name string, extra map[string][]string, err error) {
	bin, d := ztool(t)
	f := filepath.Join(d, "k.config")
	out, err := zrun(d, bin, append([]string{"generate-config", "--user=u", "--output=" + f}, args...)...)
	if err != nil {
		t.Fatalf("%v: %s", err, out)
	}
	tok, err := auth.ExtractTokenFromKubeconfig(f)
	zok(t, err)
	pub, err := auth.LoadPublicKey(filepath.Join(d, "apiserver.crt"))
	zok(t, err)
	q, _ := http.NewRequest("GET", "https://h/", nil)
	q.Header.Set("Authorization", "Bearer "+tok)
	r, ok, err := auth.NewJWTAuthenticator(pub).AuthenticateRequest(q)
	if err != nil || !ok {
		return "", nil, fmt.Errorf("not accepted: %v", err)
	}
	return r.User.GetName(), r.User.GetExtra(), nil
}
''')
VIS = '''package visualize_test

import (
	"strings"
	"testing"

	"sigs.k8s.io/yaml"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/visualize"
)

func zdraw(t *testing.T, spec string) string {
	var op opv1a1.Operator
	if err := yaml.Unmarshal([]byte(spec), &op.Spec); err != nil {
		t.Fatal(err)
	}
	return (&visualize.DotGenerator{}).Generate(visualize.BuildGraph(&op))
}

func zcount(t *testing.T, out, what string, n int) {
	t.Helper()
	if c := strings.Count(out, what); c != n {
		t.Fatalf("%q is there %d times, should be %d: %s", what, c, n, out)
	}
}
'''
SEEDS = [
 dict(id="p25-last-rule", prop="P25", pkg="pkg/auth", needs="resource names together with at least two rules",
  breaks="the names given with --resource-names restrict the first rule instead of the last one, which stays unrestricted",
  edits=[("main.go", "		lastIdx := len(rulesList) - 1\n", "		lastIdx := 0\n")],
  test=PRE+'''
func TestZZDemo(t *testing.T) {
	_, extra, err := zuser(t, `--rules=[{"verbs":["get"],"apiGroups":["*"],"resources":["v"]},{"verbs":["update"],"apiGroups":["*"],"resources":["w"]}]`, "--resource-names=x")
	zok(t, err)
	s := fmt.Sprint(extra)
	i, j := strings.Index(s, `"resourceNames"`), strings.Index(s, `"update"`)
	if i < 0 || j < 0 || i < j {
		t.Fatal(s)
	}
}
'''),
 dict(id="p25-current-user", prop="P25", pkg="pkg/auth", needs="a configuration with several users, the current one of which has no token",
  breaks="get-config shows the token of another user than the current one",
  edits=[("pkg/auth/kubeconfig.go", '''	if authInfo.Token == "" {
		return''', '''	for _, other := range config.AuthInfos {
		if authInfo.Token != "" {
			break
		}
		authInfo = other
	}

	if authInfo.Token == "" {
		return''')],
  test=PRE+'''
func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "k")
	zok(t, os.WriteFile(f, []byte(`{"apiVersion":"v1","kind":"Config","current-context":"c","clusters":[{"name":"k","cluster":{"server":"https://h"}}],
"contexts":[{"name":"c","context":{"cluster":"k","user":"u1"}}],"users":[{"name":"u1","user":{"username":"x"}},{"name":"u2","user":{"token":"t"}}]}`), 0o600))
	if tok, err := auth.ExtractTokenFromKubeconfig(f); err == nil {
		t.Fatal(tok)
	}
}
'''),
 dict(id="p25-blanks", prop="P25", pkg="pkg/auth", needs="a list of namespaces with blanks",
  breaks="blanks become part of the names of namespaces, so the token allows none of those asked for",
  edits=[("main.go", "			result = append(result, trimmed)\n", "			result = append(result, item)\n")],
  test=PRE+'''
func TestZZDemo(t *testing.T) {
	_, extra, err := zuser(t, "--namespaces=d, e")
	zok(t, err)
	for _, v := range extra {
		for _, n := range v {
			if n != strings.TrimSpace(n) {
				t.Fatalf("%q", n)
			}
		}
	}
}
'''),
 dict(id="p25-minutes", prop="P25", pkg="pkg/auth", needs="an expiry that is not a whole number of minutes",
  breaks="tokens live shorter than they should, those of less than a minute not at all",
  edits=[("pkg/auth/token.go", "			ExpiresAt: jwt.NewNumericDate(now.Add(expiry)),\n", "			ExpiresAt: jwt.NewNumericDate(now.Add(expiry.Truncate(time.Minute))),\n")],
  test=PRE+'''
func TestZZDemo(t *testing.T) {
	_, _, err := zuser(t, "--expiry=50s")
	zok(t, err)
}
'''),
 dict(id="p25-ip6", prop="P25", pkg="pkg/auth", needs="a certificate for an IPv6 address",
  breaks="certificates are not good for IPv6 addresses they are made for",
  edits=[("pkg/auth/token.go", "		if ip := net.ParseIP(hostname); ip != nil {\n", "		if ip := net.ParseIP(hostname).To4(); ip != nil {\n")],
  test=PRE+'''
func TestZZDemo(t *testing.T) {
	cert, key, err := auth.GenerateSelfSignedCertWithSANs([]string{"localhost", "::1"})
	zok(t, err)
	d := t.TempDir()
	c, k := filepath.Join(d, "c"), filepath.Join(d, "k")
	zok(t, auth.WriteCertAndKey(c, k, cert, key))
	out, err := exec.Command("openssl", "version").CombinedOutput()
	_, _ = out, err
	crt := zparse(t, cert)
	zok(t, crt.VerifyHostname("localhost"))
	zok(t, crt.VerifyHostname("::1"))
}
'''.replace('''	d := t.TempDir()
	c, k := filepath.Join(d, "c"), filepath.Join(d, "k")
	zok(t, auth.WriteCertAndKey(c, k, cert, key))
	out, err := exec.Command("openssl", "version").CombinedOutput()
	_, _ = out, err
	crt := zparse(t, cert)
''', '''	_ = key
	blk, _ := pem.Decode(cert)
	crt, err := x509.ParseCertificate(blk.Bytes)
	zok(t, err)
''').replace("package auth_test", "package auth_test")),
 dict(id="p26-insecure-authz", prop="P26", pkg="pkg/auth", needs="--insecure, and a token that does not allow everything",
  breaks="with --insecure, which is about certificates, every user may do everything",
  edits=[("main.go", "			apiServerCfg.Authorizer = auth.NewCompositeAuthorizer()\n", "			if !cfg.insecure {\n				apiServerCfg.Authorizer = auth.NewCompositeAuthorizer()\n			}\n")],
  test=PRE+'''
func TestZZDemo(t *testing.T) {
	bin, d := ztool(t)
	kube := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		switch r.URL.Path {
		case "/api":
			_, _ = io.WriteString(w, `{"kind":"APIVersions","versions":["v1"]}`)
		case "/api/v1":
			_, _ = io.WriteString(w, `{"kind":"APIResourceList","groupVersion":"v1","resources":[]}`)
		case "/apis":
			_, _ = io.WriteString(w, `{"kind":"APIGroupList","apiVersion":"v1","groups":[{"name":"dcontroller.io","versions":[{"groupVersion":"dcontroller.io/v1alpha1","version":"v1alpha1"}],"preferredVersion":{"groupVersion":"dcontroller.io/v1alpha1","version":"v1alpha1"}}]}`)
		case "/apis/dcontroller.io/v1alpha1":
			_, _ = io.WriteString(w, `{"kind":"APIResourceList","groupVersion":"dcontroller.io/v1alpha1","resources":[{"name":"operators","singularName":"operator","namespaced":false,"kind":"Operator","verbs":["get","list","watch"]}]}`)
		case "/apis/dcontroller.io/v1alpha1/operators":
			if r.URL.Query().Get("watch") != "" {
				<-r.Context().Done()
				return
			}
			_, _ = io.WriteString(w, `{"kind":"OperatorList","apiVersion":"dcontroller.io/v1alpha1","metadata":{"resourceVersion":"1"},"items":[]}`)
		default:
			w.WriteHeader(404)
			_, _ = io.WriteString(w, `{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"NotFound","code":404}`)
		}
	}))
	defer kube.CloseClientConnections()
	cfg := filepath.Join(d, "kube")
	zok(t, os.WriteFile(cfg, []byte(`{"apiVersion":"v1","kind":"Config","current-context":"c","clusters":[{"name":"k","cluster":{"server":"`+kube.URL+`"}}],
"contexts":[{"name":"c","context":{"cluster":"k","user":"u"}}],"users":[{"name":"u","user":{}}]}`), 0o600))
	c := exec.Command(bin, "start", "--insecure", "--health-probe-bind-address=0", "--metrics-bind-address=0")
	c.Dir = d
	c.Env = []string{"HOME=" + d, "KUBECONFIG=" + cfg, "PATH=/usr/bin:/bin"}
	zok(t, c.Start())
	defer func() { _ = c.Process.Kill(); _ = c.Wait() }()
	out, err := zrun(d, bin, "generate-config", "--user=u", "--namespaces=d")
	zok(t, err)
	_ = out
	f := filepath.Join(d, "u.config")
	_, err = zrun(d, bin, "generate-config", "--user=u", "--namespaces=d", "--output="+f)
	zok(t, err)
	tok, err := auth.ExtractTokenFromKubeconfig(f)
	zok(t, err)
	hc := &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}}
	for i := 0; ; i++ {
		q, _ := http.NewRequest("GET", "https://localhost:8443/apis/op.view.dcontroller.io/v1alpha1/namespaces/e/v", nil)
		q.Header.Set("Authorization", "Bearer "+tok)
		r, err := hc.Do(q)
		if err != nil {
			if i > 600 {
				t.Fatal(err)
			}
			time.Sleep(100 * time.Millisecond)
			continue
		}
		if r.StatusCode != 403 {
			t.Fatal(r.Status)
		}
		return
	}
}
'''),
 dict(id="p26-http-everywhere", prop="P26", pkg="pkg/apiserver", needs="--http together with an address",
  breaks="with --http the server can be reached on all addresses, without authentication",
  edits=[("pkg/apiserver/builder.go", '''			IP:   config.Addr.IP,
			Port: config.Addr.Port,
''', '''			Port: config.Addr.Port,
''')],
  test='''package apiserver_test

import (
	"fmt"
	"net"
	"testing"

	"github.com/go-logr/logr"

	"github.com/l7mp/dcontroller/pkg/apiserver"
)

func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	cfg, err := apiserver.NewDefaultConfig("127.0.0.2", port, nil, true, false, logr.Discard())
	if err != nil {
		t.Fatal(err)
	}
	if _, err := apiserver.NewAPIServer(cfg); err != nil {
		t.Fatal(err)
	}
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.2:%d", port))
	if err != nil {
		t.Fatal(err)
	}
	c.Close()
	if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
		c.Close()
		t.Fatal("the server listens on another address")
	}
}
'''),
 dict(id="p27-own-view", prop="P27", pkg="pkg/visualize", needs="a controller that reads the view it writes, and nobody else does",
  breaks="the arrow of such a controller's target is drawn twice",
  edits=[("pkg/visualize/visualize.go", '''	for _, c := range g.Controllers {
		for _, src := range c.Sources {
			if isView(src) &&''', '''	for _, c := range g.Controllers {
		if c.Name == ctrl.Name {
			continue
		}
		for _, src := range c.Sources {
			if isView(src) &&''')],
  test=VIS+'''
func TestZZDemo(t *testing.T) {
	zcount(t, zdraw(t, `{"controllers":[{"name":"c1","sources":[{"kind":"V"}],"pipeline":[{"@project":{"metadata":"$.metadata"}}],"target":{"kind":"V","type":"Patcher"}}]}`), `"Patcher"`, 1)
}
'''),
 dict(id="p27-source-type", prop="P27", pkg="pkg/visualize", needs="a view that is read as the second source, with another type than the first",
  breaks="the arrow from a view shows the type of another source",
  edits=[("pkg/visualize/visualize.go", "						SourceType:     src.Type,\n", "						SourceType:     ctrl.Sources[0].Type,\n")],
  test=VIS+'''
func TestZZDemo(t *testing.T) {
	out := zdraw(t, `{"controllers":[
{"name":"c1","sources":[{"apiGroup":"","kind":"Pod"}],"pipeline":[{"@project":{"metadata":"$.metadata"}}],"target":{"kind":"V"}},
{"name":"c2","sources":[{"apiGroup":"","kind":"Service","type":"OneShot"},{"kind":"V","type":"Periodic"}],"pipeline":["@join",{"@project":{"metadata":"$.metadata"}}],"target":{"apiGroup":"","kind":"ConfigMap"}}]}`)
	zcount(t, out, `"Periodic"`, 1)
	zcount(t, out, `"OneShot"`, 1)
}
'''.replace('"@join",', '{"@join":true},')),
 dict(id="p27-foreign-label", prop="P27", pkg="pkg/visualize", needs="views of the same kind of another operator, next to own ones",
  breaks="views of other operators look like those of the operator",
  edits=[("pkg/visualize/visualize.go", '''	if ref.Group != "" {
		parts''', '''	if ref.Group != "" && !isView(ref) {
		parts''')],
  test=VIS+'''
func TestZZDemo(t *testing.T) {
	out := zdraw(t, `{"controllers":[{"name":"c1","sources":[{"apiGroup":"op2.view.dcontroller.io","kind":"V"}],"pipeline":[{"@project":{"metadata":"$.metadata"}}],"target":{"kind":"V"}}]}`)
	zcount(t, out, `label="op2.view.dcontroller.io/V"`, 1)
}
'''),
]
for s in SEEDS:
    if s["pkg"] == "pkg/auth":
        if "tls.Config" in s["test"]: s["test"] = s["test"].replace('import (\n', 'import (\n	"crypto/tls"\n', 1)
        if "x509." in s["test"]: s["test"] = s["test"].replace('import (\n', 'import (\n	"crypto/x509"\n	"encoding/pem"\n', 1)
