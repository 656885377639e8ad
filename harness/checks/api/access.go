package main

import (
	"context"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/golang-jwt/jwt/v5"
	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apiserver/pkg/authentication/user"
	"k8s.io/apiserver/pkg/authorization/authorizer"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/auth"

	"verif/core"
	"verif/vrt"
)

var checkP18 = &core.Check{
	Property: "P18", Level: "model_checking",
	Rule: "a case is a user with the claims of a token (its decision on every request of the alphabet is compared with the reference), a credential, or a request sent over HTTP to a server that holds known objects; outcomes differ when the decisions, answers or effects differ",
	Assumptions: []string{
		"the signature algorithms of crypto/rsa and the token library are sound: only the use the code makes of them is checked",
		"Kubernetes' own handler chain derives the request attributes that the authorizer is asked about",
	},
	Run: runP18,
}

// verdict is yes, no, or either.
type verdict int

const (
	no verdict = iota
	yes
	either
)

func (v verdict) or(w verdict) verdict {
	switch {
	case v == yes || w == yes:
		return yes
	case v == either || w == either:
		return either
	}
	return no
}

func (v verdict) and(w verdict) verdict {
	switch {
	case v == no || w == no:
		return no
	case v == either || w == either:
		return either
	}
	return yes
}

// glob matches a pattern in which a star stands for any text.
func glob(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if glob(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == p[0] && glob(p[1:], s[1:])
}

func matchOne(p, s string) verdict {
	if !glob(p, s) {
		return no
	}
	if p == s || strings.Count(p, "*") <= 1 {
		return yes
	}
	return either // what several stars mean is not specified, except that they grant no more than that
}

func matchAny(ps []string, s string) verdict {
	v := no
	for _, p := range ps {
		v = v.or(matchOne(p, s))
	}
	return v
}

// attrs are the attributes of a request.
type attrs struct{ verb, group, resource, ns, name string }

func collective(verb string) bool {
	return verb == "list" || verb == "watch" || verb == "create" || verb == "deletecollection"
}

func ruleAllows(r rbacv1.PolicyRule, a attrs) verdict {
	v := matchAny(r.Verbs, a.verb).and(matchAny(r.APIGroups, a.group)).and(matchAny(r.Resources, a.resource))
	if len(r.ResourceNames) > 0 && !collective(a.verb) {
		if a.name == "" {
			return v.and(either) // no such request is served
		}
		v = v.and(matchAny(r.ResourceNames, a.name))
	}
	return v
}

// allowed is the reference decision.
func allowed(nss []string, rules []rbacv1.PolicyRule, a attrs) verdict {
	if len(nss) > 0 {
		ok := false
		for _, n := range nss {
			ok = ok || n == "*" || (n == a.ns && a.ns != "")
		}
		if !ok {
			return no
		}
	}
	if len(rules) == 0 {
		return yes
	}
	v := no
	for _, r := range rules {
		v = v.or(ruleAllows(r, a))
	}
	return v
}

// keypair is the key of a server and one of somebody else.
type keypair struct {
	private, other *rsa.PrivateKey
	public         *rsa.PublicKey
	certPEM        []byte
	shared         *auth.JWTAuthenticator // has seen the requests of many users
}

func newKeys() *keypair {
	k := &keypair{}
	for i := 0; i < 2; i++ {
		cert, key, err := auth.GenerateSelfSignedCert("localhost")
		if err != nil {
			core.Abort("keys: %v", err)
		}
		p, err := auth.ParsePrivateKey(key)
		if err != nil {
			core.Abort("keys: %v", err)
		}
		if i == 1 {
			k.other = p
			break
		}
		k.private, k.certPEM = p, cert
		if k.public, err = auth.ParsePublicKey(cert); err != nil {
			core.Abort("keys: %v", err)
		}
	}
	k.shared = auth.NewJWTAuthenticator(k.public)
	return k
}

func (k *keypair) token(name string, nss []string, rules []rbacv1.PolicyRule) string {
	t, err := auth.NewTokenGenerator(k.private).GenerateToken(name, nss, rules, 24*time.Hour)
	if err != nil {
		core.Abort("token: %v", err)
	}
	return t
}

func (k *keypair) authenticate(header ...string) (user.Info, bool, error) {
	return authenticate(k.shared, header...)
}

func authenticate(a *auth.JWTAuthenticator, header ...string) (user.Info, bool, error) {
	req, _ := http.NewRequest("GET", "http://localhost/", nil)
	for _, h := range header {
		req.Header.Add("Authorization", h)
	}
	resp, ok, err := a.AuthenticateRequest(req)
	if resp == nil {
		return nil, ok, err
	}
	return resp.User, ok, err
}

const (
	group1 = "op1.view.dcontroller.io"
	group2 = "op2.view.dcontroller.io"
)

func runP18(r *core.Run) {
	keys := newKeys()
	for _, o := range []int{vrt.Asc, vrt.Desc} {
		vrt.SetOrder(o)
		patterns(r, o)
		if o == vrt.Asc || r.Thorough() {
			decisions(r, keys, o)
		}
	}
	vrt.SetOrder(vrt.Asc)
	credentials(r, keys)
	for _, o := range []int{vrt.Asc, vrt.Desc} {
		vrt.SetOrder(o)
		overHTTP(r, keys, o)
	}
	vrt.SetOrder(vrt.Asc)
	detours(r, keys)
}

// words are all words over an alphabet of at most n letters.
func words(alphabet string, n int) []string {
	ret := []string{""}
	for from, i := 0, 0; i < n; i++ {
		to := len(ret)
		for ; from < to; from++ {
			for _, c := range alphabet {
				ret = append(ret, ret[from]+string(c))
			}
		}
	}
	return ret
}

// shared decides on the requests of all users.
var shared = auth.NewCompositeAuthorizer()

func decide(u user.Info, a attrs, resourceRequest bool) (authorizer.Decision, error) {
	d, _, err := shared.Authorize(context.Background(), authorizer.AttributesRecord{
		User: u, Verb: a.verb, APIGroup: a.group, Resource: a.resource, Namespace: a.ns, Name: a.name,
		APIVersion: viewv1a1.Version, ResourceRequest: resourceRequest,
	})
	return d, err
}

func compare(u user.Info, nss []string, rules []rbacv1.PolicyRule, a attrs) (bool, error) {
	d, err := decide(u, a, true)
	want := allowed(nss, rules, a)
	got := d == authorizer.DecisionAllow
	if err == nil && (want == either || got == (want == yes)) {
		return got, nil
	}
	return got, core.V("a user with namespaces %q and rules %s asks to %s %s %q in group %q, namespace %q: allowed is %v (error %v), it should be %v",
		nss, canon(rules), a.verb, a.resource, a.name, a.group, a.ns, got, err, want == yes)
}

// patterns compares the matching of patterns of all four fields of a rule with the reference.
func patterns(r *core.Run, order int) {
	ps := words("ab*", r.Pick(5, 6))
	vs := words("ab", r.Pick(6, 7))
	r.Space("patterns", "patterns", len(ps), "values", len(vs), "fields", 4)
	any := []string{"*"}
	for field := 0; field < 4; field++ {
		r.Parallel(len(ps), func(i int) {
			p := ps[i]
			rule := rbacv1.PolicyRule{Verbs: any, APIGroups: any, Resources: any}
			a := attrs{verb: "get", group: "g", resource: "r", ns: "n", name: "m"}
			var at *string
			switch field {
			case 0:
				rule.Verbs, at = []string{p}, &a.verb
			case 1:
				rule.APIGroups, at = []string{p}, &a.group
			case 2:
				rule.Resources, at = []string{p}, &a.resource
			case 3:
				rule.ResourceNames, at = []string{p}, &a.name
			}
			r.Exec(fmt.Sprintf("pattern %q of field %d (order %d)", p, field, order), nil, func(t *core.T) error {
				u := &user.DefaultInfo{Name: "u", Extra: map[string][]string{"rules": {canon([]rbacv1.PolicyRule{rule})}}}
				h := fnv.New64()
				a := a
				at := at
				switch field {
				case 0:
					at = &a.verb
				case 1:
					at = &a.group
				case 2:
					at = &a.resource
				case 3:
					at = &a.name
				}
				for _, v := range vs {
					*at = v
					got, err := compare(u, nil, []rbacv1.PolicyRule{rule}, a)
					if err != nil {
						return err
					}
					fmt.Fprint(h, got)
				}
				t.Step(fmt.Sprint(field, p, h.Sum64()))
				t.Out("%d %x", field, h.Sum64())
				return nil
			})
		})
	}
}

type claims struct {
	nss   []string
	rules []rbacv1.PolicyRule
}

func (c claims) String() string { return fmt.Sprintf("namespaces %q rules %s", c.nss, canon(c.rules)) }

func rulesOf(vs, gs, rs, ns [][]string) []rbacv1.PolicyRule {
	var ret []rbacv1.PolicyRule
	for _, v := range vs {
		for _, g := range gs {
			for _, x := range rs {
				for _, n := range ns {
					ret = append(ret, rbacv1.PolicyRule{Verbs: v, APIGroups: g, Resources: x, ResourceNames: n})
				}
			}
		}
	}
	return ret
}

type lists = [][]string

// decisions compares the decision on all requests of an alphabet, for users with all combinations of
// claims, that got them from a token.
func decisions(r *core.Run, keys *keypair, order int) {
	var reqs []attrs
	for _, verb := range []string{"get", "list", "watch", "create", "update", "patch", "delete", "deletecollection", "proxy", ""} {
		for _, g := range []string{group1, group2, "apps", ""} {
			for _, res := range []string{"v", "w", "vv"} {
				for _, ns := range []string{"", "d", "e", "dd"} {
					for _, name := range []string{"", "x", "y", "xx"} {
						reqs = append(reqs, attrs{verb, g, res, ns, name})
					}
				}
			}
		}
	}
	one := rulesOf(
		lists{{}, {"get"}, {"list", "watch"}, {"*"}, {"get", "delete"}, {"create"}, {"GET"}, {"g*"}, {"*t"}, {"deletecollection", "patch"}, {"update", "proxy"}},
		lists{{}, {""}, {group1}, {"*"}, {"*.view.dcontroller.io"}, {"op*"}, {"op1*io"}, {"apps", group2}, {"view.dcontroller.io"}},
		lists{{}, {"v"}, {"*"}, {"v", "w"}, {"v*"}, {"*w"}, {"v/status"}},
		lists{nil, {"x"}, {"x", "y"}, {"*"}, {"x*"}, {"*x"}, {"xy"}})
	small := rulesOf(
		lists{{"get"}, {"list"}, {"*"}, {"update", "delete"}},
		lists{{group1}, {"*"}, {"*.view.dcontroller.io"}},
		lists{{"v"}, {"*"}},
		lists{nil, {"x"}, {"y", "x"}})
	if !r.Thorough() {
		small = rulesOf(lists{{"get"}, {"list"}, {"*"}}, lists{{group1}, {"*.view.dcontroller.io"}}, lists{{"v"}, {"*"}}, lists{nil, {"x"}, {"y", "x"}})
	}
	nss := lists{nil, {}, {"d"}, {"e"}, {"d", "e"}, {"*"}, {"d", "*"}, {"*", "e"}, {""}, {"d*"}, {"dd"}}
	var cs []claims
	for _, rule := range one {
		cs = append(cs, claims{nil, []rbacv1.PolicyRule{rule}})
	}
	n1 := len(cs)
	for _, n := range nss {
		cs = append(cs, claims{n, nil}, claims{n, []rbacv1.PolicyRule{}})
		for _, rule := range small {
			cs = append(cs, claims{n, []rbacv1.PolicyRule{rule}})
		}
	}
	n2 := len(cs)
	for _, a := range small {
		for _, b := range small {
			cs = append(cs, claims{nil, []rbacv1.PolicyRule{a, b}}, claims{[]string{"e", "d"}, []rbacv1.PolicyRule{a, b}})
		}
	}
	// Many rules, namespaces and values, of which one matters.
	n3 := len(cs)
	for _, n := range []int{5, 12, 40} {
		for _, at := range []int{0, n / 2, n - 1, n} { // n: none does
			fill := func(pre, x string) (ret []string) {
				for i := range n {
					if i == at {
						ret = append(ret, x)
					} else {
						ret = append(ret, fmt.Sprintf("%s%d", pre, i))
					}
				}
				return ret
			}
			var rules []rbacv1.PolicyRule
			for i := range n {
				res := fmt.Sprintf("z%d", i)
				if i == at {
					res = "v"
				}
				rules = append(rules, rbacv1.PolicyRule{Verbs: []string{"get", "list"}, APIGroups: []string{group1}, Resources: []string{res}})
			}
			cs = append(cs, claims{nil, rules}, claims{fill("n", "d"), nil}, claims{fill("n", "*"), nil}, claims{fill("n", "e"), rules})
			for _, l := range []rbacv1.PolicyRule{
				{Verbs: fill("verb", "get"), APIGroups: []string{"*"}, Resources: []string{"*"}},
				{Verbs: []string{"*"}, APIGroups: fill("g", group1), Resources: []string{"*"}},
				{Verbs: []string{"*"}, APIGroups: []string{"*"}, Resources: fill("r", "v")},
				{Verbs: []string{"*"}, APIGroups: []string{"*"}, Resources: []string{"*"}, ResourceNames: fill("n", "x")},
			} {
				cs = append(cs, claims{nil, []rbacv1.PolicyRule{l}})
			}
		}
	}
	r.Space("decisions", "users_with_many", len(cs)-n3, "requests", len(reqs), "users_one_rule", n1, "users_namespaces", n2-n1, "users_two_rules", n3-n2, "map_order", order)
	r.Parallel(len(cs), func(i int) {
		c := cs[i]
		r.Exec(fmt.Sprintf("decisions: %s (order %d)", c, order), c.rules, func(t *core.T) error {
			u, ok, err := keys.authenticate("Bearer " + keys.token("u", c.nss, c.rules))
			if err != nil || !ok || u == nil {
				return core.V("the token of a user with %s is not accepted: %v", c, err)
			}
			if u.GetName() != "u" {
				return core.V("the token of user u makes user %q", u.GetName())
			}
			h := fnv.New64()
			n := 0
			for _, a := range reqs {
				got, err := compare(u, c.nss, c.rules, a)
				if err != nil {
					return err
				}
				if got {
					n++
				}
				fmt.Fprint(h, got)
			}
			if d, err := decide(u, attrs{verb: "get"}, false); err != nil || d != authorizer.DecisionAllow {
				return core.V("a user with %s may not ask for what is no resource", c)
			}
			t.Step(fmt.Sprintf("%x", h.Sum64()))
			t.Out("%d allowed %x", n, h.Sum64())
			return nil
		})
	})
	r.Exec(fmt.Sprintf("decisions: broken users (order %d)", order), nil, func(t *core.T) error {
		for _, a := range reqs {
			if d, err := decide(nil, a, true); err == nil && d == authorizer.DecisionAllow {
				return core.V("a request without a user is allowed: %+v", a)
			}
			for _, s := range []string{"", "x", "{", "[", `"`, `{"verbs":["*"]}`, `[{"verbs":"*"}]`, `[]`, `null`} {
				u := &user.DefaultInfo{Name: "u", Extra: map[string][]string{"rules": {s}}}
				if d, err := decide(u, a, true); err == nil && d == authorizer.DecisionAllow {
					return core.V("a user with the rules %q is allowed: %+v", s, a)
				}
			}
		}
		t.Step("broken users")
		return nil
	})
}

// sign makes a token with the given method, key and claims.
func sign(m jwt.SigningMethod, key any, c map[string]any) string {
	s, err := jwt.NewWithClaims(m, jwt.MapClaims(c)).SignedString(key)
	if err != nil {
		core.Abort("sign: %v", err)
	}
	return s
}

// histories are users, some of which have the same name and other rights.
var histories = []struct {
	name  string
	nss   []string
	rules []rbacv1.PolicyRule
}{
	{"u", []string{"d"}, nil},
	{"u", []string{"e"}, nil},
	{"u", []string{"d"}, []rbacv1.PolicyRule{{Verbs: []string{"get"}, APIGroups: []string{group1}, Resources: []string{"*"}}}},
	{"u", nil, []rbacv1.PolicyRule{{Verbs: []string{"*"}, APIGroups: []string{group2}, Resources: []string{"*"}}}},
	{"w", nil, []rbacv1.PolicyRule{{Verbs: []string{"get"}, APIGroups: []string{"*"}, Resources: []string{"*"}, ResourceNames: []string{"a"}}}},
	{"w", nil, nil},
}

type credential struct {
	name    string
	headers []string
	bad     bool // must not be accepted
}

func (k *keypair) credentials() []credential {
	now := time.Now()
	good := k.token("u", nil, nil)
	full := func(from, to time.Duration) map[string]any {
		return map[string]any{"username": "u", "iss": "dcontroller", "iat": now.Unix(), "nbf": now.Add(from).Unix(), "exp": now.Add(to).Unix()}
	}
	expired, _ := auth.NewTokenGenerator(k.private).GenerateToken("u", nil, nil, -time.Hour)
	parts := strings.Split(good, ".")
	none, _ := jwt.NewWithClaims(jwt.SigningMethodNone, jwt.MapClaims(full(-time.Hour, time.Hour))).SignedString(jwt.UnsafeAllowNoneSignatureType)
	pub := string(k.certPEM)
	hdr := func(h string) string { return base64.RawURLEncoding.EncodeToString([]byte(h)) }
	cs := []credential{
		{"none", nil, true},
		{"empty", []string{""}, true},
		{"only the scheme", []string{"Bearer "}, true},
		{"the scheme without a space", []string{"Bearer"}, true},
		{"no scheme", []string{good}, true},
		{"another scheme", []string{"Basic " + good}, true},
		{"glued scheme", []string{"Bearer" + good}, true},
		{"not a token", []string{"Bearer abc"}, true},
		{"two parts", []string{"Bearer " + parts[0] + "." + parts[1]}, true},
		{"no signature", []string{"Bearer " + parts[0] + "." + parts[1] + "."}, true},
		{"four parts", []string{"Bearer " + good + ".x"}, true},
		{"signed by another", []string{"Bearer " + sign(jwt.SigningMethodRS256, k.other, full(-time.Hour, time.Hour))}, true},
		{"expired", []string{"Bearer " + sign(jwt.SigningMethodRS256, k.private, full(-2*time.Hour, -time.Hour))}, true},
		{"just expired", []string{"Bearer " + sign(jwt.SigningMethodRS256, k.private, full(-2*time.Hour, -time.Second))}, true},
		{"expired when made", []string{"Bearer " + expired}, true},
		{"not valid yet", []string{"Bearer " + sign(jwt.SigningMethodRS256, k.private, full(time.Hour, 2*time.Hour))}, true},
		{"unsigned", []string{"Bearer " + none}, true},
		{"unsigned, with a signature", []string{"Bearer " + hdr(`{"alg":"none","typ":"JWT"}`) + "." + parts[1] + "." + parts[2]}, true},
		{"keyed hash with the certificate", []string{"Bearer " + sign(jwt.SigningMethodHS256, []byte(pub), full(-time.Hour, time.Hour))}, true},
		{"keyed hash with an empty key", []string{"Bearer " + sign(jwt.SigningMethodHS256, []byte{}, full(-time.Hour, time.Hour))}, true},
		{"other claims under the signature", []string{"Bearer " + parts[0] + "." + hdr(canon(full(-time.Hour, time.Hour))) + "." + parts[2]}, true},
		{"good", []string{"Bearer " + good}, false},
	}
	return cs
}

// credentials tries all ways to present a credential, and all changes of a single letter of a token.
func credentials(r *core.Run, keys *keypair) {
	cs := keys.credentials()
	for _, c := range cs {
		r.Exec("credential: "+c.name, c.headers, func(t *core.T) error {
			u, ok, err := keys.authenticate(c.headers...)
			acc := ok && err == nil && u != nil
			if acc == c.bad {
				return core.V("a request with the credential %q (%s): accepted is %v (%v)", c.headers, c.name, acc, err)
			}
			if !acc && u != nil && ok {
				return core.V("a refused credential (%s) makes user %q", c.name, u.GetName())
			}
			t.Step(fmt.Sprint(c.name, acc))
			t.Out("%v %v", acc, u)
			return nil
		})
	}
	// What came before does not matter.
	type tok struct {
		name    string
		headers []string
	}
	var toks []tok
	for _, c := range cs {
		toks = append(toks, tok{c.name, c.headers})
	}
	for _, c := range histories {
		toks = append(toks, tok{canon(c), []string{"Bearer " + keys.token(c.name, c.nss, c.rules)}})
	}
	show := func(a *auth.JWTAuthenticator, t tok) string {
		u, ok, err := authenticate(a, t.headers...)
		if !ok || err != nil {
			return "refused"
		}
		return canon(map[string]any{"name": u.GetName(), "extra": u.GetExtra()})
	}
	r.Space("pairs of credentials", "credentials", len(toks))
	r.Parallel(len(toks), func(i int) {
		for _, b := range toks {
			a := toks[i]
			r.Exec(fmt.Sprintf("credential %s after %s", b.name, a.name), nil, func(t *core.T) error {
				au := auth.NewJWTAuthenticator(keys.public)
				first := show(au, a)
				got := show(au, b)
				t.Step(first + got)
				if alone := show(auth.NewJWTAuthenticator(keys.public), b); got != alone {
					return core.V("a request with %s is %s, but %s after a request with %s", b.headers, alone, got, a.headers)
				}
				if again := show(au, a); again != first {
					return core.V("a request with %s is %s, but %s the second time, after a request with %s", a.headers, first, again, b.headers)
				}
				t.Out("%s", got)
				return nil
			})
		}
	})
	r.Exec("a token expires", nil, func(t *core.T) error {
		s, err := auth.NewTokenGenerator(keys.private).GenerateToken("u", nil, nil, time.Second)
		if err != nil {
			return core.V("no token: %v", err)
		}
		end := time.Now().Add(time.Second)
		_, _, _ = keys.authenticate("Bearer " + s) // with a slow clock it may have ended already
		time.Sleep(time.Until(end) + 10*time.Millisecond)
		if _, ok, err := keys.authenticate("Bearer " + s); ok && err == nil {
			return core.V("a token that was accepted before is still accepted after its end")
		}
		t.Step("expired")
		t.Out("expired")
		return nil
	})
	// A changed letter.
	rules := []rbacv1.PolicyRule{{Verbs: []string{"get"}, APIGroups: []string{group1}, Resources: []string{"v"}}}
	good := keys.token("user", []string{"d"}, rules)
	letters := "A1_"
	if r.Thorough() {
		letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.="
	}
	sig := strings.LastIndex(good, ".") + 1
	raw := func(s string) string { b, _ := base64.RawURLEncoding.DecodeString(s); return string(b) }
	r.Space("changed tokens", "letters_of_the_token", len(good), "replacements", len(letters))
	r.Parallel(len(good), func(i int) {
		r.Exec(fmt.Sprintf("token changed at %d", i), nil, func(t *core.T) error {
			n := 0
			for _, c := range letters {
				x := good[:i] + string(c) + good[i+1:]
				if x == good || (i >= sig && raw(x[sig:]) == raw(good[sig:])) {
					continue // the same token
				}
				n++
				if u, ok, err := keys.authenticate("Bearer " + x); ok && err == nil {
					return core.V("a token with letter %d changed to %q is accepted, as of user %v", i, c, u)
				}
			}
			if i > 0 {
				if _, ok, err := keys.authenticate("Bearer " + good[:i]); ok && err == nil {
					return core.V("a token cut after %d letters is accepted", i)
				}
			}
			t.Step(fmt.Sprint("changed", i, n))
			t.Out("%d", n)
			return nil
		})
	})
	// What the token says is what the user is.
	names := []string{"u", "", "ü \"x\"\\", "system:admin", "a,b", "<&>"}
	nss := lists{nil, {"d"}, {"d", "e"}, {"ü", "\"", "*"}, {"e", "d", "e"}}
	rss := [][]rbacv1.PolicyRule{nil, rules, {{}}, {{Verbs: []string{"<&>", "\"", "ü"}, APIGroups: []string{""}, Resources: []string{"a/b"}, ResourceNames: []string{"x", "x"}, NonResourceURLs: []string{"/"}}, rules[0]}}
	for _, name := range names {
		for _, ns := range nss {
			for _, rs := range rss {
				r.Exec(fmt.Sprintf("claims: %q %q %s", name, ns, canon(rs)), nil, func(t *core.T) error {
					u, ok, err := keys.authenticate("Bearer " + keys.token(name, ns, rs))
					if !ok || err != nil {
						return core.V("a good token is refused: %v", err)
					}
					if u.GetName() != name {
						return core.V("user %q becomes %q", name, u.GetName())
					}
					if got := u.GetExtra()["namespaces"]; canon(got) != canon(ns) {
						return core.V("namespaces %q become %q", ns, got)
					}
					var got []rbacv1.PolicyRule
					if x := u.GetExtra()["rules"]; len(x) > 0 {
						if err := json.Unmarshal([]byte(x[0]), &got); err != nil {
							return core.V("rules %s become %q: %v", canon(rs), x, err)
						}
					}
					if canon(got) != canon(rs) {
						return core.V("rules %s become %s", canon(rs), canon(got))
					}
					t.Step(canon(u.GetExtra()))
					t.Out("%v", u)
					return nil
				})
			}
		}
	}
}

const restAPI = "/apis/"

func secret(group, res, ns, name string) string {
	return fmt.Sprintf("secret-%s-%s-%s-%s", group[:3], res, ns, name)
}

func object(group, kind, ns, name, data string) map[string]any {
	m := map[string]any{"name": name}
	if ns != "" {
		m["namespace"] = ns
	}
	return map[string]any{"apiVersion": group + "/" + viewv1a1.Version, "kind": kind, "metadata": m, "data": data}
}

type served struct{ group, res, kind string }

var resources = []served{{group1, "v", "V"}, {group1, "w", "W"}, {group2, "v", "V"}}

func treasure() (objs []map[string]any) {
	for _, k := range resources {
		for _, ns := range []string{"d", "e"} {
			for _, n := range []string{"x", "y"} {
				objs = append(objs, object(k.group, k.kind, ns, n, secret(k.group, k.res, ns, n)))
			}
		}
	}
	return objs
}

type call struct {
	request
	attrs
	want func(st map[string]map[string]any) // effect on what is stored, when allowed
	none bool                               // no such object: 404 when allowed
}

func calls() (ret []call) {
	for _, k := range resources {
		root := restAPI + k.group + "/" + viewv1a1.Version
		id := func(ns, n string) string { return k.group + "/" + k.kind + "/" + ns + "/" + n }
		for _, ns := range []string{"d", "e"} {
			coll := root + "/namespaces/" + ns + "/" + k.res
			add := func(verb, name string, q request, want func(map[string]map[string]any)) {
				ret = append(ret, call{request: q, attrs: attrs{verb, k.group, k.res, ns, name}, want: want})
			}
			for _, n := range []string{"x", "y"} {
				one := coll + "/" + n
				add("get", n, request{method: "GET", path: one}, nil)
				add("get", n, request{method: "HEAD", path: one}, nil)
				set := func(data string) func(map[string]map[string]any) {
					return func(st map[string]map[string]any) { st[id(ns, n)] = object(k.group, k.kind, ns, n, data) }
				}
				add("update", n, request{method: "PUT", path: one, body: canon(object(k.group, k.kind, ns, n, "new"))}, set("new"))
				add("patch", n, request{method: "PATCH", path: one, head: map[string]string{"Content-Type": "application/merge-patch+json"}, body: `{"data":"new"}`}, set("new"))
				add("patch", n, request{method: "PATCH", path: one, head: map[string]string{"Content-Type": "application/json-patch+json"}, body: `[{"op":"replace","path":"/data","value":"new"}]`}, set("new"))
				add("delete", n, request{method: "DELETE", path: one}, func(st map[string]map[string]any) { delete(st, id(ns, n)) })
			}
			add("create", "", request{method: "POST", path: coll, body: canon(object(k.group, k.kind, ns, "n", "new"))}, func(st map[string]map[string]any) {
				st[id(ns, "n")] = object(k.group, k.kind, ns, "n", "new")
			})
			add("list", "", request{method: "GET", path: coll}, nil)
			add("list", "x", request{method: "GET", path: coll + "?fieldSelector=metadata.name%3Dx"}, nil)
			add("watch", "", request{method: "GET", path: coll + "?watch=true", stream: true}, nil)
			add("watch", "", request{method: "GET", path: coll + "?watch=1", stream: true}, nil)
			add("watch", "", request{method: "GET", path: root + "/watch/namespaces/" + ns + "/" + k.res, stream: true}, nil)
			add("deletecollection", "", request{method: "DELETE", path: coll}, func(st map[string]map[string]any) {
				delete(st, id(ns, "x"))
				delete(st, id(ns, "y"))
			})
		}
		coll := root + "/" + k.res
		add := func(verb, name string, q request, want func(map[string]map[string]any), none bool) {
			ret = append(ret, call{request: q, attrs: attrs{verb, k.group, k.res, "", name}, want: want, none: none})
		}
		add("get", "x", request{method: "GET", path: coll + "/x"}, nil, true)
		add("delete", "x", request{method: "DELETE", path: coll + "/x"}, nil, true)
		add("list", "", request{method: "GET", path: coll}, nil, false)
		add("watch", "", request{method: "GET", path: coll + "?watch=true", stream: true}, nil, false)
		add("watch", "", request{method: "GET", path: root + "/watch/" + k.res, stream: true}, nil, false)
		add("deletecollection", "", request{method: "DELETE", path: coll}, func(st map[string]map[string]any) {
			for _, ns := range []string{"d", "e"} {
				delete(st, id(ns, "x"))
				delete(st, id(ns, "y"))
			}
		}, false)
	}
	return ret
}

func withKinds(public *rsa.PublicKey) *server {
	return newServer(public, gvk("op1", "V"), gvk("op1", "W"), gvk("op2", "V"))
}

func clone2(st map[string]map[string]any) map[string]map[string]any {
	ret := map[string]map[string]any{}
	for k, v := range st {
		ret[k] = v
	}
	return ret
}

// visible are the secrets that the answer to an allowed request shows.
func visible(a attrs, streamed bool) []string {
	var ret []string
	for _, ns := range []string{"d", "e"} {
		for _, n := range []string{"x", "y"} {
			if (a.ns == "" || a.ns == ns) && (a.name == "" || a.name == n) {
				ret = append(ret, secret(a.group, a.resource, ns, n))
			}
		}
	}
	return ret
}

// overHTTP sends every request with every kind of credential, and compares answer and effect.
func overHTTP(r *core.Run, keys *keypair, order int) {
	rules := rulesOf(
		lists{{"get"}, {"list", "watch"}, {"*"}, {"create", "update"}, {"patch", "delete", "deletecollection"}},
		lists{{group1}, {"*.view.dcontroller.io"}},
		lists{{"v"}, {"*"}},
		lists{nil, {"x"}})
	nss := lists{nil, {"d"}, {"*"}}
	if r.Thorough() {
		nss = lists{nil, {"d"}, {"e"}, {"e", "d"}, {"*"}, {"d", "*"}}
	}
	var cs []claims
	for _, n := range nss {
		cs = append(cs, claims{n, nil})
		for _, rule := range rules {
			cs = append(cs, claims{n, []rbacv1.PolicyRule{rule}})
		}
	}
	reqs := calls()
	pool := &servers{make: func() *server { return withKinds(keys.public) }}
	defer pool.stop()
	objs := treasure()
	start := map[string]map[string]any{}
	for _, o := range objs {
		m := o["metadata"].(map[string]any)
		start[fmt.Sprintf("%s/%s/%s/%s", strings.TrimSuffix(o["apiVersion"].(string), "/"+viewv1a1.Version), o["kind"], m["namespace"], m["name"])] = o
	}
	startText := canon(start)
	r.Space("requests over HTTP", "users", len(cs), "requests", len(reqs), "refused_credentials", len(keys.credentials())-1, "map_order", order)
	one := func(t *core.T, s *server, q call, headers []string, who string, want verdict, denied int) error {
		q.head = merge(q.head, headers)
		s.fill(objs...)
		a := s.do(q.request)
		got := s.stored()
		if a.code == 0 {
			return core.V("%s by %s breaks the connection: %s", q.request, who, a.body)
		}
		t.Step(fmt.Sprint(q.request, a.code, canon(got)))
		if want == no {
			if a.code != denied {
				return core.V("%s by %s is answered with %s, it should be refused with %d", q.request, who, a, denied)
			}
			if strings.Contains(string(a.body), "secret-") {
				return core.V("%s by %s is refused, but the answer shows objects: %s", q.request, who, a)
			}
			if g := canon(got); g != startText {
				return core.V("%s by %s is refused, but has changed what is stored: %s", q.request, who, diff(start, got))
			}
			return nil
		}
		if q.none {
			if a.code != 404 {
				return core.V("%s by %s is answered with %s, it should be 404 (no such object)", q.request, who, a)
			}
			return nil
		}
		if a.code/100 != 2 {
			return core.V("%s by %s is allowed, but answered with %s", q.request, who, a)
		}
		exp := clone2(start)
		if q.want != nil {
			q.want(exp)
		}
		if canon(got) != canon(exp) {
			return core.V("%s by %s is allowed, but leaves this stored: %s", q.request, who, diff(exp, got))
		}
		if q.method == "GET" && !q.stream {
			var shown []string
			for _, o := range objs {
				if strings.Contains(string(a.body), o["data"].(string)) {
					shown = append(shown, o["data"].(string))
				}
			}
			w := visible(q.attrs, q.stream)
			sort.Strings(shown)
			sort.Strings(w)
			if canon(shown) != canon(w) {
				return core.V("%s by %s shows %q, it should show %q", q.request, who, shown, w)
			}
		}
		return nil
	}
	r.Parallel(len(cs), func(i int) {
		c := cs[i]
		s := pool.get()
		defer pool.put(s)
		tok := "Bearer " + keys.token("u", c.nss, c.rules)
		r.Exec(fmt.Sprintf("HTTP: user with %s (order %d)", c, order), nil, func(t *core.T) error {
			var out []string
			for _, q := range reqs {
				want := allowed(c.nss, c.rules, q.attrs)
				if want == either {
					core.Abort("unspecified request %s for %s", q.request, c)
				}
				if err := one(t, s, q, []string{tok}, "a user with "+c.String(), want, 403); err != nil {
					return err
				}
				out = append(out, fmt.Sprint(want))
			}
			for _, p := range []string{"/apis", "/apis/" + group1, "/apis/" + group1 + "/" + viewv1a1.Version} {
				if a := s.do(request{method: "GET", path: p, head: map[string]string{"Authorization": tok}}); a.code != 200 {
					return core.V("GET %s by a user with %s is answered with %s", p, c, a)
				}
			}
			t.Out("%s", strings.Join(out, ""))
			return nil
		})
	})
	cred := keys.credentials()
	r.Parallel(len(cred), func(i int) {
		c := cred[i]
		s := pool.get()
		defer pool.put(s)
		r.Exec(fmt.Sprintf("HTTP: credential %s (order %d)", c.name, order), c.headers, func(t *core.T) error {
			for _, q := range reqs {
				want := yes
				if c.bad {
					want = no
				}
				if err := one(t, s, q, c.headers, "someone with the credential "+c.name, want, 401); err != nil {
					return err
				}
			}
			for _, p := range []string{"/apis", "/apis/" + group1, "/apis/" + group1 + "/" + viewv1a1.Version, "/openapi/v2", "/version", "/healthz", "/", "/api", "/metrics"} {
				a := s.do(request{method: "GET", path: p, head: merge(nil, c.headers)})
				if c.bad && a.code != 401 {
					return core.V("GET %s by someone with the credential %s is answered with %d", p, c.name, a.code)
				}
				if !c.bad && (a.code == 401 || a.code == 403) {
					return core.V("GET %s by a user is refused: %s", p, a)
				}
			}
			t.Out("%v", c.bad)
			return nil
		})
	})
}

func merge(h map[string]string, auth []string) map[string]string {
	ret := map[string]string{}
	for k, v := range h {
		ret[k] = v
	}
	for _, a := range auth {
		ret["Authorization"] = a
	}
	return ret
}

func diff(want, got map[string]map[string]any) string {
	var ret []string
	for _, k := range keysOf(want) {
		if g, ok := got[k]; !ok {
			ret = append(ret, k+" is missing")
		} else if canon(g) != canon(want[k]) {
			ret = append(ret, fmt.Sprintf("%s is %s instead of %s", k, canon(g), canon(want[k])))
		}
	}
	for _, k := range keysOf(got) {
		if _, ok := want[k]; !ok {
			ret = append(ret, fmt.Sprintf("%s should not be there (%s)", k, canon(got[k])))
		}
	}
	return strings.Join(ret, "; ")
}

// detours sends requests with all paths over an alphabet of segments, and all bodies that name another
// object than the path, as a user who may do little: the rest is neither shown nor changed.
func detours(r *core.Run, keys *keypair) {
	pool := &servers{make: func() *server { return withKinds(keys.public) }}
	defer pool.stop()
	objs := treasure()
	first := resources[0]
	users := []struct {
		name string
		claims
		sees, changes func(k served, ns, n, method string) bool
	}{
		{"all in namespace d", claims{[]string{"d"}, nil},
			func(_ served, ns, _, _ string) bool { return ns == "d" },
			func(_ served, ns, _, _ string) bool { return ns == "d" }},
		{"only v/x of group 1", claims{nil, []rbacv1.PolicyRule{{Verbs: []string{"get", "update", "patch", "delete"}, APIGroups: []string{group1}, Resources: []string{"v"}, ResourceNames: []string{"x"}}}},
			func(k served, _, n, _ string) bool { return k == first && n == "x" },
			func(k served, _, n, _ string) bool { return k == first && n == "x" }},
		{"read v of group 1", claims{nil, []rbacv1.PolicyRule{{Verbs: []string{"get", "list", "watch"}, APIGroups: []string{group1}, Resources: []string{"v"}}}},
			func(k served, _, _, _ string) bool { return k == first },
			func(served, string, string, string) bool { return false }},
		{"create and update v of group 1 in d", claims{[]string{"d"}, []rbacv1.PolicyRule{{Verbs: []string{"create", "update", "patch"}, APIGroups: []string{group1}, Resources: []string{"v"}}}},
			func(k served, ns, _, m string) bool { return k == first && ns == "d" && m[0] == 'P' },
			func(k served, ns, _, m string) bool { return k == first && ns == "d" && m[0] == 'P' }},
	}
	check := func(t *core.T, s *server, u int, tok string, q request) error {
		q.head = merge(q.head, []string{tok})
		s.fill(objs...)
		a := s.do(q)
		if a.code == 0 {
			return core.V("%s by a user who may do %s breaks the connection: %s", q, users[u].name, a.body)
		}
		got := s.stored()
		t.Step(fmt.Sprint(q, a.code, canon(got)))
		seen := map[string]bool{}
		for _, k := range resources {
			for _, ns := range []string{"d", "e"} {
				for _, n := range []string{"x", "y"} {
					id := k.group + "/" + k.kind + "/" + ns + "/" + n
					seen[id] = true
					if users[u].changes(k, ns, n, q.method) {
						continue
					}
					want := object(k.group, k.kind, ns, n, secret(k.group, k.res, ns, n))
					if canon(got[id]) != canon(want) {
						return core.V("%s by a user who may do %s has changed %s to %s", q, users[u].name, id, canon(got[id]))
					}
					if !users[u].sees(k, ns, n, q.method) && strings.Contains(string(a.body), secret(k.group, k.res, ns, n)) {
						return core.V("%s by a user who may do %s shows %s: %s", q, users[u].name, id, a)
					}
				}
			}
		}
		for _, id := range keysOf(got) {
			if seen[id] {
				continue
			}
			ps := strings.Split(id, "/")
			k := served{ps[0], strings.ToLower(ps[1]), ps[1]}
			if !users[u].changes(k, ps[2], ps[3], q.method) {
				return core.V("%s by a user who may do %s has created %s", q, users[u].name, id)
			}
		}
		return nil
	}
	segs := []string{"namespaces", "d", "e", "v", "x", "watch", "proxy", "..", "", "%2e%2e", "%2F", "status", "y"}
	depth := r.Pick(4, 5)
	var paths []string // shorter ones first
	var gen func(p string, n int)
	gen = func(p string, n int) {
		paths = append(paths, p)
		if n == 0 {
			return
		}
		for _, s := range segs {
			gen(p+"/"+s, n-1)
		}
	}
	gen(restAPI+group1+"/"+viewv1a1.Version, depth)
	all := len(paths)
	sort.SliceStable(paths, func(i, j int) bool { return strings.Count(paths[i], "/") < strings.Count(paths[j], "/") })
	fewer := 0 // number of the paths that are one segment shorter
	for _, p := range paths {
		if strings.Count(p, "/") < 3+depth {
			fewer++
		}
	}
	for _, q := range []string{"?fieldSelector=metadata.namespace%3De", "?fieldSelector=metadata.name%3Dy", "?namespace=e", "?labelSelector=a", "?pretty=true", "?limit=1"} {
		for _, p := range []string{"/v", "/namespaces/d/v", "/namespaces/e/v", "/namespaces/d/v/x", "/namespaces/d/v/y"} {
			paths = append(paths, restAPI+group1+"/"+viewv1a1.Version+p+q)
		}
	}
	methods := []string{"GET", "DELETE"}
	paths = append(paths[all:], paths[:all]...)
	fewer += len(paths) - all
	const chunk = 200
	for u := range users {
		tok := "Bearer " + keys.token("u", users[u].nss, users[u].rules)
		paths := paths
		if u > 1 && !r.Thorough() {
			paths = paths[:fewer]
		}
		r.Space("paths", "paths", len(paths), "methods", len(methods), "user", users[u].name)
		for _, m := range methods {
			r.Parallel((len(paths)+chunk-1)/chunk, func(i int) {
				s := pool.get()
				defer pool.put(s)
				end := min(len(paths), (i+1)*chunk)
				r.Exec(fmt.Sprintf("%s of paths %d-%d by a user who may do %s", m, i*chunk, end-1, users[u].name), paths[i*chunk:end], func(t *core.T) error {
					for _, p := range paths[i*chunk : end] {
						q := request{method: m, path: p}
						q.stream = strings.Contains(p, "watch")
						q.peek = q.stream
						if err := check(t, s, u, tok, q); err != nil {
							return err
						}
					}
					t.Out("%d", i)
					return nil
				})
			})
		}
		// Bodies.
		var qs []request
		for _, coll := range []string{"/namespaces/d/v", "/namespaces/e/v", "/v", "/namespaces/d/w"} {
			for _, g := range []string{group1, group2} {
				for _, kind := range []string{"V", "W"} {
					for _, ns := range []string{"", "d", "e"} {
						for _, n := range []string{"", "x", "y", "n"} {
							o := object(g, kind, ns, n, "new")
							if n == "" {
								delete(o["metadata"].(map[string]any), "name")
							}
							root := restAPI + group1 + "/" + viewv1a1.Version + coll
							if n != "" {
								qs = append(qs, request{method: "POST", path: root, body: canon(o)})
							}
							for _, p := range []string{"/x", "/y"} {
								qs = append(qs, request{method: "PUT", path: root + p, body: canon(o)},
									request{method: "PATCH", path: root + p, body: canon(o), head: map[string]string{"Content-Type": "application/merge-patch+json"}})
							}
						}
					}
				}
			}
		}
		r.Space("bodies", "requests", len(qs), "user", users[u].name)
		r.Parallel((len(qs)+49)/50, func(i int) {
			s := pool.get()
			defer pool.put(s)
			end := min(len(qs), (i+1)*50)
			r.Exec(fmt.Sprintf("bodies %d-%d by a user who may do %s", i*50, end-1, users[u].name), nil, func(t *core.T) error {
				for _, q := range qs[i*50 : end] {
					if err := check(t, s, u, tok, q); err != nil {
						return err
					}
				}
				t.Out("%d", i)
				return nil
			})
		})
	}
}
