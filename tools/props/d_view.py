VIEW = dict(group="view", maps="pkg/object,pkg/cache")
TRUSTV = "Trusted: client-go's thread-safe store, the reference and the Go toolchain. "
PROPS = [
 dict(id="P15", title="Reads of the view storage return exactly what was written",
  statement="Whatever was written through any of its front ends (the shared view cache, the operators' delegating caches, their clients and the composite client, with or without a native client), every read through every front end (get, list, the status subresource, the stores, dumps) returns exactly the current objects of that kind: create stores (or replaces) the object, update replaces an existing one, patches are JSON merge patches, the status subresource changes only the status, delete and the collective delete remove exactly the selected objects, and reading or changing what is not there is a NotFound error. Lists apply namespace, label selector and field selector (name, namespace, status.phase, status.ready) in whichever form and combination they are given, and replace what the list held before. Objects keep their UID; it is a function of kind, namespace and name, and differs between objects. Kinds and operators do not mix, kinds that are not views are refused, and neither changing an object after writing it nor changing what was read alters the storage. The copying store keeps the same promises.",
  over=["inputs", "histories"], text="all pairs of writes through all pairs of front ends and all sequences of writes up to a length on one object, all fillings of the storage with up to four objects of every content, with every form of list and collective delete, and pairs of kinds",
  why="The tests write one object one way and read it back the same way; selectors in another form, aliasing of what was read, and kinds that look alike are not covered.",
  files=["pkg/cache/view_cache.go", "pkg/cache/delegating_view_cache.go", "pkg/cache/view_client.go", "pkg/cache/client.go", "pkg/cache/composite.go", "pkg/cache/store.go", "pkg/object/uid.go"],
  mechanism=[("stored objects are copied in and out", "pkg/cache/view_cache.go"), ("clients translate updates, patches and subresource writes", "pkg/cache/view_client.go"), ("routing by kind", "pkg/cache/client.go, composite.go")],
  technique="bounded-exhaustive enumeration of operation sequences on the real storage through all its front ends, with all reads compared to a reference map after each sequence",
  note="Exhaustive within the stated bounds on the real code. " + TRUSTV + "View kinds whose name ends in List, patches that rename an object, and the UID of an update without one when the stored one was explicit are not specified.", **VIEW),
 dict(id="P16", title="Every observer of views gets exactly the changes of its views",
  statement="Every event handler registered on an informer of a view kind, through any front end (shared, delegating or composite) and at any time, gets one initial Added event for every object stored then, followed by exactly one event for every effective change made through any front end: Added with the new object, Updated with the old and the new one, or Deleted with the removed one, in the order of the changes of the object, and nothing for writes that change nothing (a create of an existing object may count as an update or as an addition), for other kinds, or once it, its informer or its operator's cache is gone. Its handle reports that it is synced after the initial events. What one handler does to what it gets affects neither the storage nor any other handler. Watches follow what their namespace, labels and fields select: objects that are in or come in are Added or Modified, those that change within are Modified, and those that leave or go are Deleted, exactly once each and in order, no matter how many events there are and how slowly they are read; a watch ends when it is stopped (any number of times) or its context is, and never delays a writer.",
  over=["histories"], text="all sequences up to a length of writes and of registrations and removals of handlers, informers and caches on all front ends, and all sequences of writes seen by watches with all forms of selectors started at every point, read at once or late",
  why="The tests register one handler first, write once and wait; handlers that come late, share events or go away in the middle, objects that leave a selector, and slow readers are not covered.",
  files=["pkg/cache/view_cache.go", "pkg/cache/view_cache_informer.go", "pkg/cache/delegating_view_cache.go", "pkg/cache/composite.go"],
  mechanism=[("events are triggered after each change on the shared and all delegating informers", "pkg/cache/view_cache.go"), ("handlers per informer", "pkg/cache/view_cache_informer.go"), ("watchers with selectors", "pkg/cache/view_cache.go Watch")],
  state=[("handlers and informers", "who is to be told", "pkg/cache/view_cache_informer.go")],
  technique="bounded-exhaustive enumeration of operation sequences on the real storage and its informers, with the events of every observer compared to a reference after every operation",
  note="Exhaustive within the stated bounds on the real code, one operation at a time. " + TRUSTV + "An event missing for 5 s counts as lost.", **VIEW),
]
