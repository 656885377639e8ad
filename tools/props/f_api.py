API = dict(group="api", maps="pkg/auth,pkg/apiserver", sched="pkg/apiserver")
PROPS = [
 dict(id="P18", title="The API server does for a user what its token allows, and nothing else",
  statement="A request is served only with a token that is signed with the server's key and within its time of validity; otherwise it is refused with 401. The user then has the name, namespaces and rules stated in the token, whatever came before. It is served only if the namespaces allow it (none stated: all; \"*\": all; otherwise only requests within one of the named namespaces, and none across namespaces) and, if any rules are stated, one and the same rule allows its verb, API group, resource and, except for list, watch, create and deletecollection, the name of the object (no names: all); values of rules match literally or with a \"*\" that stands for any text; otherwise it is refused with 403. Whatever the method, path, parameters or body of a request, what its user may not read is not in the answer and what its user may not change stays as it was; and what is allowed is carried out.",
  over=["inputs", "histories"], text="all patterns and values over a small alphabet, all users over lists of namespaces and up to two rules, all requests over alphabets of verbs, groups, resources, namespaces and names; all ways to break a credential and all changed letters of a token; all paths over an alphabet of segments",
  why="A hole in access control is a single combination of claims and request among millions, or a path that means one thing to the authorization and another to the storage; tests sample a few and mostly the allowed ones.",
  files=["pkg/auth/authenticator.go", "pkg/auth/authorizer.go", "pkg/auth/rbac.go", "pkg/auth/token.go", "pkg/apiserver/builder.go", "pkg/apiserver/resource_handler.go", "pkg/apiserver/storage.go"],
  mechanism=[("validation of tokens", "pkg/auth/authenticator.go"), ("namespace check and rules", "pkg/auth/authorizer.go, rbac.go"), ("handler chain: request attributes, authentication, authorization", "pkg/apiserver/builder.go"), ("namespace and name of the request decide on the object, not the body", "pkg/apiserver/storage.go")],
  technique="explicit-state enumeration on the real authenticator, authorizer and HTTP server: every token, rule, request and path within the bounds, each compared with a reference decision and with what is shown and stored",
  note="Exhaustive within the stated alphabets, against an independent reference that leaves unspecified what patterns with several stars match (except that they match no more than the shell pattern). Trusted: crypto/rsa, the token library's signature check, Kubernetes' parsing of requests into attributes (its agreement with the storage is checked by effect).", **API),
 dict(id="P19", title="Requests to the API server read and change the views as a store would",
  statement="Every request for a registered view kind, in every state of the view storage, is answered from and acts on exactly the objects it names: get and list (of one namespace or all, by label selector, field selector on name and namespace, or both; as JSON, YAML, metadata only or table) show exactly the selected objects, unchanged and under their kind; a table shows of each the namespace, name, conditions (well-known types first, at most three), labels and number of annotations, and always the same for the same objects. A post creates the object in the request's namespace, under its own name or a generated one (whether a post under a name that is taken is refused with 409 or replaces the object is left open); a put replaces it; merge and JSON patches change just what they say, or nothing at all when they do not apply; a delete removes it, a collective delete exactly the selected ones; and the answer shows the outcome. What does not exist is answered with 404. Requests that are malformed, that contradict themselves (another namespace, name or group in the body than in the path), that have no name, or ask for a subresource or an unsupported format are refused with 4xx and change nothing; neither do dry runs (asked for in the query or in the options of a delete), which are otherwise answered alike. Objects of other kinds and groups are unaffected. A watch shows, from its start, the selected objects and then every change of what it selects, in order and once. Requests at the same time have the effect of some order of them: no change is lost.",
  over=["inputs", "histories", "schedules"], text="64 states of three objects times about 2,000 requests; all sequences of changes up to a depth, under 23 watches; all orders of the storage accesses of two (thorough: three) requests at the same time",
  why="Clients (kubectl, dctl, operators) rely on the same semantics for views as for any Kubernetes resource; the combinations of verb, state, selector, option and body are thousands, and concurrent changes get lost only in some orders, while tests try the straight ones one at a time.",
  files=["pkg/apiserver/storage.go", "pkg/apiserver/resource_handler.go", "pkg/apiserver/codec.go", "pkg/apiserver/builder.go", "pkg/cache/view_client.go", "pkg/cache/client.go"],
  mechanism=[("verbs on top of a client", "pkg/apiserver/storage.go"), ("routing of verbs, options", "pkg/apiserver/resource_handler.go"), ("encoding and decoding", "pkg/apiserver/codec.go")],
  technique="explicit-state enumeration on the real HTTP server against a reference store: every request in every state, every sequence of changes up to a depth with open watches, and every interleaving of the storage accesses of concurrent requests (controlled at the client the server delegates to; linearizability against the reference)",
  note="Exhaustive within the stated objects, contents, requests and depth. Concurrent requests are interleaved at their accesses to the storage client; a request held up by another's lock is recognized by a timeout, which affects which schedules are explored, not the verdict. Left open: whether creating an object that exists is refused or replaces it (a test of the repository relies on the latter), the name syntax, preconditions and resource versions, server-side apply, limits, the order of lists and tables, which three of more labels a table shows, kinds in the body that differ only in the kind, null values, and writes to the view storage past the API server at the same time.", **API),
 dict(id="P20", title="The API server offers exactly the view kinds that are registered",
  statement="After any sequence of registrations and removals of groups and of sets of kinds, the API server serves exactly the registered kinds of the view groups: registering a group (alone, or as part of a set of kinds) replaces what it had, registering it without kinds or unregistering it (or a set with a kind of it) ends it, and other groups and kinds that are not views are unaffected. All forms of discovery (the list of groups, the aggregated one, the group's and the version's documents) agree on that, name the same verbs, and every discovered kind can be listed, read, created, changed, deleted and watched, while no other can. Registrations at the same time have the effect of some order of them, group by group. No sequence fails or panics.",
  over=["histories", "schedules"], text="all sequences of 19 registrations and removals up to a depth, and all schedules, up to a preemption bound, of pairs of them at the same time",
  why="What is served lives in five places (storage map, two discovery managers, group and version handlers) that every registration must change alike; a test that registers and looks at one of them once cannot tell what is left behind by the next registration.",
  files=["pkg/apiserver/registry.go", "pkg/apiserver/dynamic_discovery.go", "pkg/apiserver/resource_handler.go", "pkg/apiserver/resource.go", "pkg/apiserver/builder.go"],
  mechanism=[("registration of groups and kinds", "pkg/apiserver/registry.go"), ("group and version documents", "pkg/apiserver/dynamic_discovery.go"), ("storage map", "pkg/apiserver/resource_handler.go")],
  technique="explicit-state enumeration on the real HTTP server: every history of registrations up to a depth, and every schedule of concurrent registrations up to a preemption bound under a controlled scheduler, observed through all discovery forms and by use after each step, and compared with a reference",
  note="Exhaustive within the stated operations, depth and preemption bound. The OpenAPI documents are not covered. Schedules have their switching points at the locks of the API server package.", **API),
 dict(id="P22", title="Registrations and requests at the same time do not disturb each other",
  statement="While view kinds are registered and unregistered, the API server keeps serving: each request (of every verb, and for every form of discovery) that happens at the same time as a registration is answered, for what it asks for, as it would have been before or after that registration, group by group, and a kind that is registered both before and after is served throughout. A registration takes effect in full whatever requests happen at the same time. Neither a registration and a request nor two requests access the server's state at the same time without synchronization: there are no data races, so no request or registration can crash the program or see or leave a half-changed state.",
  over=["schedules"], text="all schedules, up to a preemption bound, of a registration from 7 and a request from 12 over 3 initial states; all pairs of 16 requests over 2 states, each under the race detector",
  why="Operators come and go while clients use the API server. Unsynchronized access to what a request is served with brings down the whole program, but only if the two meet within microseconds; a test that registers first and asks later never sees it.",
  files=["pkg/apiserver/registry.go", "pkg/apiserver/dynamic_discovery.go", "pkg/apiserver/resource_handler.go", "pkg/apiserver/storage.go", "pkg/apiserver/codec.go"],
  mechanism=[("registration of groups and kinds", "pkg/apiserver/registry.go"), ("group and version documents", "pkg/apiserver/dynamic_discovery.go"), ("storage map, schemes and codecs of requests", "pkg/apiserver/resource_handler.go")],
  technique="stateless model checking of the real HTTP server: every schedule, up to a preemption bound, of a registration and a request under a controlled scheduler with the race detector on (the scheduler's switches are invisible to it), the answer compared with those from before and after; every pair of requests under the race detector",
  note="Exhaustive within the stated operations, requests and bound. The registration is switched at its locks; the request is carried out by the server's goroutines as a whole between two such points, and what it does unsynchronized with the registration shows as a data race. Answers are compared in full for discovery and lists, and by class of code for the others.", race="-race", **API),
]
