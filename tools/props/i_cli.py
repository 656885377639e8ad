PROPS = [
 dict(id="P25", title="Credentials made on the command line grant exactly what was asked for",
  statement="A configuration made by generate-config lets its user do exactly what the flags say and no more: the requests that the given namespaces, rules and resource names (which restrict the last rule) allow are allowed by the server with that certificate, all others are denied, and the token is for that user, for the given time, and worthless for a server with another key. It names the server, protocol, verification and default namespace given by the flags. What cannot be honoured (lists that name nothing, resource names without a rule, malformed rules, a key that is missing or is none) is refused and yields no token. generate-keys makes a new key and a self-signed certificate that belong together, that are good for all the given host names and addresses and no other, and with which tokens can be made and checked. Neither a private key nor a token written to a file can be read by other users. get-config shows, of the current user of a configuration, the true user, namespaces and rules, and says valid if and only if the server with that certificate would accept the token.",
  over=["inputs"], text="some 1500 combinations of flags, each followed by 144 requests that a server decides on with the resulting token",
  why="Who may do what is fixed by what these commands write into a token; a flag that is dropped, misread or applied to the wrong rule yields a token that works, and grants too much. There are no tests of these commands.",
  files=["main.go", "pkg/auth/token.go", "pkg/auth/kubeconfig.go"],
  mechanism=[("generate-keys, generate-config, get-config", "main.go"), ("tokens", "pkg/auth/token.go"), ("configurations", "pkg/auth/kubeconfig.go")],
  technique="exhaustive enumeration of the combinations of flags on the real program: every result is used by a client, by the server's own authentication and authorization for every request of an alphabet, and by the program itself, and compared with a reference",
  note="Trusted: what the server makes of a token (P18), client-go's reading of configurations, Go's crypto/tls. Left open: an empty user, an empty list of rules (taken as none), rules both in a flag and in a file, tokens without an expiry, key formats other than those that generate-keys makes.",
  group="cli", maps="-", sched="-"),
 dict(id="P26", title="The started program serves where and whom its flags say, and ends in order",
  statement="dctl start with any combination of its flags brings up controllers, health and metrics endpoints and - unless disabled - the API server on the given address and port and on no other (but for a TLS port of the loopback interface that --http comes with): with TLS and the given certificate unless --http is given, with authentication unless it is disabled or --http is given; then requests without a valid token are refused and those with one are answered according to it. Operators present at the start and operators made later are run, their targets and views appear and follow their sources, and are shown by the API server. Without a usable certificate and key, a server that needs them does not start. When told to end, the program ends, with code 0. The log never shows a token, and ports that others use do no harm unless they were asked for.",
  over=["inputs", "histories"], text="95 combinations of flags, certificates and times at which an operator is made, each followed by all kinds of clients, a change, and an end",
  why="The pieces are put together only in main.go, for which there are no tests; a flag that is lost on the way opens the server to everyone, or closes it to all.",
  files=["main.go", "pkg/apiserver/config.go", "pkg/apiserver/builder.go", "pkg/apiserver/apiserver.go", "pkg/operator/operator.go"],
  mechanism=[("start", "main.go"), ("configuration of the API server", "pkg/apiserver/config.go"), ("loading of operators", "pkg/operator/operator.go")],
  technique="exhaustive enumeration of the combinations of flags and of the histories that follow, on the real program next to an in-memory Kubernetes API server",
  note="The schedules within the program are those of the operating system (they are enumerated in P17, P21 and P22); what is enumerated is flags and histories. What must come about eventually is given 40 s, some hundred times what it takes. Left open: leader election, and starting inside of a cluster.",
  group="cli", maps="-", sched="-"),
 dict(id="P27", title="Diagrams show exactly the controllers, resources and links of an operator",
  statement="The diagram of an operator, in either format, has exactly one node for each of its controllers, with its name and the operations of its pipeline in order, exactly one node for each distinct resource that is read or written - views of the operator and resources of the same kind in other groups being different ones - with its group, version and kind, and exactly one arrow for each source and each target, between the right nodes, in the right direction and with its type, defaults included. This holds whatever the names of controllers and kinds, for operators given as a whole or as a list of controllers; unknown formats are refused.",
  over=["inputs"], text="all operators of up to three controllers over eight resources with all types (some 150000)",
  why="Nodes and arrows are merged by name across controllers, so omissions and confusions only show for certain combinations of sources and targets. There are no tests of diagrams.",
  files=["pkg/visualize/visualize.go", "pkg/visualize/dot.go", "pkg/visualize/mermaid.go", "main.go"],
  mechanism=[("graph of an operator", "pkg/visualize/visualize.go"), ("formats", "pkg/visualize/dot.go"), ("visualize", "main.go")],
  technique="exhaustive enumeration of operators up to a size; each diagram is read back, and compared, up to names of nodes, with what the operator's controllers say",
  note="Left open: styles and layout, the own views of an operator written with their group, two controllers with the same name, names of controllers that are written like resources, with slashes.",
  group="cli", maps="-", sched="-"),
]
