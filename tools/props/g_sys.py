PROPS = [
 dict(id="P21", title="Operators follow their custom resources",
  statement="After any history of creations, changes and deletions of Operator custom resources (or the calls for that), changes of native and view source objects, conflicting writes of statuses and restarts of the program, the following comes about. Each operator that exists runs its latest specification, and only that: the target of each of its valid controllers has the right, current result for each source object it can process, whether source and target are native or views, its own or another operator's, and results whose source is gone are removed again; controllers of a specification that was replaced or deleted no longer react to anything. The API server lists the view kinds of the valid controllers of an operator that exists and none of an operator that does not; a replacement leaves none behind. The status of each custom resource has one entry for each controller, in order, with one condition Ready of the current generation: False for a controller that is broken, Unknown for one whose processing failed, True for the others, and at most ten errors. Broken controllers, however many, do not affect other controllers and operators. An operator is not started anew while its specification stays the same. The program never panics or stops by itself, and ends when told to.",
  over=["histories", "schedules"], text="all histories of 18 kinds of changes up to a length from two starting points, each letting the program settle after every change or only at the end, and all sequences of calls around the start of the operator controller up to a length",
  why="The guarantee of the whole: it needs the operator controller, the operators' managers, the shared cache, the API server and the status updates to cooperate over restarts and replacements, where what is left over from before, or arrives late, spoils what comes after. Integration tests walk one path each.",
  files=["pkg/kubernetes/controllers/operator.go", "pkg/operator/operator.go", "pkg/controller/controller.go", "pkg/manager/manager.go", "pkg/cache/composite.go", "pkg/apiserver/registry.go", "main.go"],
  mechanism=[("reconciliation of custom resources, statuses", "pkg/kubernetes/controllers/operator.go"), ("an operator's controllers and kinds", "pkg/operator/operator.go"), ("conditions and errors", "pkg/controller/controller.go")],
  technique="explicit-state enumeration on the real program against an in-memory Kubernetes API server: every history of changes up to a length is played, and after it (or after every change) the results, statuses, served kinds and later writes are compared with a reference model",
  note="The program is put together as main does it (main itself is not run). Exhaustive in the histories, not in the schedules of the goroutines within a history: those are whatever the machine gives, with bursts of changes to provoke overlap. What must come about is waited for up to 40 s, and a case is reported only if it fails again and again. Trusted: the in-memory Kubernetes API server (kapi), which has the semantics of resource versions, watches, generations and status subresources needed here. Left open: results left over from earlier specifications, adding an operator under a name that exists, errors of status writes other than conflicts.",
  group="sys", maps="-", sched="-"),
 dict(id="P28", title="Operators made by Go programs work on the storage they are given, and no other",
  statement="A Go program can make operators from a specification or a file, with or without a Kubernetes config, each with a storage of its own or several with a shared one, add controllers written in Go to them, and start and end them, in any order. While an operator runs, the targets of its controllers have, sooner or later, exactly the right result for each object of their sources that they can process, also for objects that were there before it was made or started, and results whose source is gone are removed again. A controller written in Go is asked for every change of the views it watches: the last request for an object that exists is for an addition or update and carries its current state, the last one for an object that is gone is for a deletion; what it writes with the operator's client is in the storage. Operators that share a storage see each other's views; an operator with a storage of its own sees and changes nobody else's. An operator that has not been started, or that has ended, changes nothing, and its end does not disturb the storage or the others; a new one under its name carries on from what is there. An operator ends without an error when told to, and never by itself. Each operator lists its controllers in order, finds them by name, has a status entry for each, names exactly the view kinds of its own that they use, and passes processing errors to its error channel.",
  over=["histories", "schedules"], text="all histories of making, starting and ending two operators and of writes with their clients up to a length, from three starting points, in four settings (with and without Kubernetes, own and shared storage), each letting all settle after every step or only at the end",
  why="The library is the second way to use the system. What goes wrong depends on the order in which operators come and go on a storage and on which cache and client each manager ends up with; tests make one operator in one way.",
  files=["pkg/operator/operator.go", "pkg/manager/manager.go", "pkg/controller/native.go", "pkg/cache/delegating_view_cache.go", "pkg/cache/client.go", "pkg/reconciler/source.go", "pkg/reconciler/reconciler.go"],
  mechanism=[("operators and their controllers", "pkg/operator/operator.go"), ("managers, caches and clients", "pkg/manager/manager.go"), ("an operator's part of a shared storage", "pkg/cache/delegating_view_cache.go")],
  technique="explicit-state enumeration on the real code: every history of making, starting and ending operators and writing views up to a length is played on real managers, and the views, requests, statuses and errors are compared with a reference model",
  note="Exhaustive in the histories; the schedules within a history are those the machine gives. What must come about is waited for up to 40 s, and a case is reported only if it fails again and again. Left open: results that an earlier life of an operator wrote and whose source went away while none ran, and sharing a bare view storage with an operator that has a Kubernetes config, which the library does not support.",
  group="sys", maps="-", sched="-"),
]
