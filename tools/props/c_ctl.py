CTL = dict(group="ctl", maps="pkg/dbsp,pkg/pipeline,pkg/object,pkg/reconciler,pkg/controller,pkg/cache")
TRUSTC = "Trusted: the in-memory API server (harness/kfake), the reference and the Go toolchain. "
PROPS = [
 dict(id="P10", title="An Updater target makes the stored object equal the result",
  statement="After an Updater target reports that it wrote a result, the stored object of that name equals the result in every top-level field except metadata (fields the result lacks are gone, but a kind with a status subresource keeps its status if the result has none, and gets the result's status otherwise); labels and annotations are the stored ones merged with the result's, which win; all other metadata stays. A Deleted change removes exactly that object, and it is no error if it is already gone; other kinds of change do nothing. The change handed in is never modified, other objects are never touched, and writing the same result again changes nothing. A write that failed is reported as an error, and retrying it gets there; concurrent changes by others to what the result does not set are never reverted. This holds for native kinds, with or without a status subresource, and for view kinds, of this and of other operators.",
  over=["inputs", "histories", "fault_sequences", "schedules"], text="all sequences of changes up to a length over results and prior objects of many shapes, on five kinds of backend, with every placement of API errors, of concurrent foreign writes between the reads and writes of the target, and of stale reads",
  why="The tests write a few objects to a fake client that never fails; lost updates, swallowed errors and half-written objects need a conflict, a failure or a foreign write between two particular calls.",
  files=["pkg/reconciler/target.go", "pkg/object/util.go", "pkg/cache/view_client.go"],
  mechanism=[("create, then get-merge-update, then status update, with retries on conflict", "pkg/reconciler/target.go update"), ("merging of metadata", "pkg/object")],
  technique="exhaustive exploration of the decision tree of API faults, foreign writes and stale reads on the real target against an in-memory API server and a reference of the stored object",
  note="Exhaustive within the stated bounds on the real code. " + TRUSTC + "View kinds have no resource versions, so concurrent foreign writes are explored on native kinds only.", **CTL),
 dict(id="P11", title="A Patcher target changes exactly the fields of the result",
  statement="After a Patcher target reports that it wrote a result, the stored object is the latest stored object merged with the result: maps are merged recursively, a nil removes the field (also within maps the object did not have), lists are merged position by position, everything else is replaced, and nothing the result does not mention changes. A Deleted change removes exactly the fields (down to the leaves) of the change from the object and leaves everything else; it never deletes the object. Patching an absent object is an error and creates nothing, while a Deleted change for one is fine. The change handed in is never modified, other objects are never touched, repeating a patch changes nothing. Errors are reported, retrying gets there, and changes that others make between the target's read and write are never reverted. The same merge holds for patching plain documents.",
  over=["inputs", "histories", "fault_sequences", "schedules"], text="all pairs of documents up to a size over a small alphabet of nested maps, lists, scalars and nils; all short sequences of patches on each kind of backend, with every placement of API errors and foreign writes",
  why="The tests apply a few patches to one object and nobody else writes to it; a merge has to be right for every pair of shapes, and lost updates need a foreign write between two particular calls.",
  files=["pkg/reconciler/target.go", "pkg/object/patch.go", "pkg/cache/view_client.go"],
  mechanism=[("recursive merge and removal", "pkg/object/patch.go"), ("read, patch, write back, status update", "pkg/reconciler/target.go patch")],
  technique="bounded-exhaustive enumeration of documents and patches, and exhaustive exploration of faults and foreign writes on the real target, against a reference merge",
  note="Exhaustive within the stated bounds on the real code. " + TRUSTC + "Nulls inside lists of a patch and removal of lists are not specified.", **CTL),
 dict(id="P12", title="The target converges to the result of the sources despite failures",
  statement="For every controller, every history of source events, every order in which requests of different sources are reconciled, and whatever writes to the target fail (with or without having taken effect) or source contents turn out unprocessable in between: once every failed request has been retried, in any order and any time later, the target holds exactly the result of evaluating the pipeline from scratch over the sources' latest objects; and it does so whenever no request is outstanding. A retry of an outdated request never brings back outdated results. A request that was not dealt with completely returns an error, and one that can be dealt with does not keep failing. Periodic resyncs keep the target right, one-shot sources trigger exactly one evaluation, Secrets are seen decoded by the pipeline, and the objects in requests (and so what is written back to Secrets) are never altered.",
  over=["histories", "schedules", "fault_sequences"], text="all histories of events up to a length for controllers with one or two sources, Updater and Patcher targets, periodic and one-shot sources, under all interleavings of requests, retries and ticks and all placements of a bounded number of lost calls and replies",
  why="The tests wait for one history to settle on a server that never fails; lost or resurrected results need a failed write, a newer event, and a late retry in one particular order.",
  files=["pkg/controller/reconcilers.go", "pkg/controller/writer.go", "pkg/controller/declarative.go", "pkg/reconciler/source.go", "pkg/object/secret.go"],
  mechanism=[("evaluation and ordered writing of results", "pkg/controller/reconcilers.go, writer.go"), ("requests carry snapshots of the objects", "pkg/reconciler/reconciler.go")],
  state=[("pending writes and failed requests", "what has been evaluated but not written", "pkg/controller/writer.go"), ("pipeline state", "what has been evaluated", "pkg/pipeline/pipeline.go")],
  technique="exhaustive exploration of delivery and retry orders and fault placements on the real controller over an in-memory API server, against an independent from-scratch reference",
  note="Exhaustive within the stated bounds on the real code. " + TRUSTC + "Requests are reconciled one at a time (the controller serializes them with a lock). A deletion of an object that was never processable keeps failing, harmlessly.", **CTL),
 dict(id="P14", title="Sources pass on exactly the selected events and objects",
  statement="A Watcher source watches exactly the kind it names (no group: a view of its own operator, always at the fixed version; a group without a version: as the API discovery tells, views at the fixed version) and turns every event that passes its filters into exactly one request with the event's type, the object's name, namespace and kind and a snapshot of the object that nothing else alters; tombstones count as deletions; other events cause none. All filters select events, and combine by AND: the namespace and the label selector are applied to the object the event carries (for updates the new one; an object that stops to match is thus left alone, which lets controllers pass an object on by changing its labels); of the predicates, the four basic ones pass an update exactly if the generation, the resource version, the labels or the annotations changed, and everything that is not an update; And, Or and Not combine them, at any depth, as in logic (And of nothing passes everything, Or of nothing nothing, Not inverts for all types of events). Unknown or malformed predicates at any depth, invalid selectors and unknown kinds are errors. Copying a specification or writing and reading it back as JSON changes nothing. A one-shot source causes exactly one request, for its labelled trigger object, and reports when that cannot be created; a periodic source causes one request per period (5 minutes unless given) and refuses periods that are not positive.",
  over=["inputs", "histories"], text="all predicate trees up to depth two over the four basic ones, with label selectors of every operator and with namespaces, fed with every event of an alphabet that changes labels, annotations, generation and version independently; all histories of two objects up to a length, with the source started at different points, on native and view informers; all resource specifications over an alphabet",
  why="The tests try each predicate alone on one pair of objects; the combinations, the transitions in and out of a selector, and aliasing between event and request are not covered.",
  files=["pkg/reconciler/source.go", "pkg/reconciler/reconciler.go", "pkg/reconciler/resource.go", "pkg/predicate/predicate.go", "pkg/predicate/deepcopy.go"],
  mechanism=[("filters and request generation", "pkg/reconciler/source.go, reconciler.go"), ("predicate trees", "pkg/predicate")],
  technique="bounded-exhaustive enumeration of source specifications and event histories on the real sources over captured informers, against a reference of the filters",
  note="Exhaustive within the stated bounds on the real code. Trusted: controller-runtime's event plumbing, the reference and the Go toolchain. Periods are checked against the clock in the safe direction only.", **CTL),
]
