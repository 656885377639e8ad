PROPS = [
 dict(id="P23", title="Native kinds and views are served side by side, each by its own part",
  statement="The composite client and cache answer each request - create, update, patch, delete, deletion of all objects that match, requests on subresources, get, list, and what concerns informers and indexes - exactly as the native client or cache does when the object is of a native kind, and exactly as the view store does when it is of a view kind, options included; and a request changes nothing in the other part, even when names and kinds are the same in both. A kind is a view kind if and only if its group is <operator>.view.dcontroller.io (or view.dcontroller.io itself) and its version v1alpha1; other groups, however alike, are native. Views can be watched through the client, and the watch shows exactly the changes of the selected views; watches of native kinds are refused. Views are namespaced. The cache is synchronized only when both parts are, runs until it is told to end, and then ends. Without a native part, views are served all the same. This holds for clients and caches made by NewAPI and for those that share a view store.",
  over=["inputs", "histories"], text="all sequences of two writes of 22 kinds on eight kinds of objects, of three on fewer, for four ways to put a client together, each followed by all reads",
  why="Everything the program does goes through this client and cache; a request that reaches the wrong part, or loses an option on its way, does no harm until kinds, names or selectors coincide. Tests use the client on one kind at a time.",
  files=["pkg/cache/client.go", "pkg/cache/composite.go", "pkg/cache/api.go", "pkg/cache/view_client.go", "pkg/api/view/v1alpha1/group_version.go"],
  mechanism=[("routing of requests", "pkg/cache/client.go"), ("routing of reads and informers", "pkg/cache/composite.go"), ("what is a view", "pkg/api/view/v1alpha1/group_version.go")],
  technique="explicit-state enumeration: every sequence of requests up to a length is played on the real composite client and, in a second world, on its parts used separately; every answer and everything that can be read afterwards must be equal",
  note="Differential: the parts themselves (the client of controller-runtime, its in-memory fake or a client of an in-memory API server; the view store) are trusted here - the view store is the subject of P15 to P17. The native cache is replaced by one that reads directly and notes the calls it gets, so that there is no delay. Left open: server-side apply, requests for native kinds when there is no native part, deprecated typed lists of views.",
  group="side", maps="-", sched="-"),
 dict(id="P24", title="Discovery and mappings name every kind once, and correctly",
  statement="After any sequence of registrations of view kinds, the composite discovery names each registered view kind exactly once, in its group and version and with each group and version once, as a namespaced resource whose name is the kind in lower case and that can be read, written and watched; it names no other view kind; and it says of the native API exactly what the native discovery says, also for lists of preferred and of namespaced resources and for the legacy format. When some native groups cannot be discovered, everything else is still named, together with that error. The composite REST mapper maps native kinds and resources as the mapper of the native API does, and view kinds to their resources and, when they were registered, back; its answers for views do not depend on a native API. Kinds and lists of kinds, and native kinds and their counterparts in views, translate to each other without loss, whatever the group.",
  over=["inputs", "histories"], text="all sequences of registrations up to length four of eight kinds, with a native API, one that fails in part, and none; and translations of some 1500 kinds",
  why="Discovery and mapping are lists put together from two sources; duplicates, omissions and ambiguous names only show for certain sets of registered kinds. Tests register one kind.",
  files=["pkg/cache/discovery.go", "pkg/cache/view_discovery.go", "pkg/cache/restmapper.go", "pkg/cache/view_restmapper.go", "pkg/api/view/v1alpha1/group_version.go"],
  mechanism=[("composite discovery", "pkg/cache/discovery.go"), ("discovery of views", "pkg/cache/view_discovery.go"), ("mappings", "pkg/cache/restmapper.go"), ("kinds of views", "pkg/api/view/v1alpha1/group_version.go")],
  technique="explicit-state enumeration: every sequence of registrations up to a length on the real discovery, with everything it and a REST mapper made from it say compared with a reference made of the set of registered kinds and the native discovery",
  note="Trusted: the discovery client and REST mapper of client-go and the in-memory API server they ask. Left open: resources without a group that name both a native kind and a view, the kind of an unregistered resource whose kind is not written with one capital, the order of lists, categories, OpenAPI, groups view.dcontroller.io with other versions.",
  group="side", maps="-", sched="-"),
]
