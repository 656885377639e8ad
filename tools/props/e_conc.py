CONC = dict(group="conc", maps="pkg/object,pkg/cache", sched="pkg/cache", race="-race")
PROPS = [
 dict(id="P17", title="Concurrent users of the view storage see one order of the changes",
  statement="Any number of users may work with the view storage at the same time, through any of its front ends: creates, additions, updates, patches, status updates, deletes, gets, lists, registrations and removals of event handlers, watches, and operators that drop informers or stop their cache. In every schedule the outcome is that of the operations happening one after the other, in an order that respects which of them ended before another began: each operation takes effect at once and on the current object (no update, patch or status write is lost, half applied, or applied to an outdated version), reads return what is stored at that point, and what is stored in the end is the outcome of that order. In the same order every event handler and watch gets the changes, each exactly once and with the right old object, and no two calls of a handler overlap; one that is registered meanwhile gets the objects stored at the point of its registration first and every later change after that; and one whose registration, informer or operator is gone gets nothing of what happens afterwards. This holds from the first use of a kind on. No schedule deadlocks, panics, or contains a data race.",
  over=["schedules", "histories"], text="all schedules with up to a number of preemptions (at every lock, synchronizing call and event handler) of all pairs of operations, of pairs of sequences of two operations, and of triples of operations, on a storage that is empty, filled, or has never been used, with handlers and watches on all front ends",
  why="A test runs one schedule, and mostly one thread; lost updates, events out of order and handlers that miss or repeat an object show only in particular interleavings.",
  files=["pkg/cache/view_cache.go", "pkg/cache/event_queue.go", "pkg/cache/view_cache_informer.go", "pkg/cache/delegating_view_cache.go", "pkg/cache/view_client.go"],
  mechanism=[("changes and notifications are queued in one step", "pkg/cache/event_queue.go"), ("registries of stores, informers and handlers behind locks", "pkg/cache/view_cache.go, delegating_view_cache.go, view_cache_informer.go"), ("read-modify-write of clients in one step", "pkg/cache/view_client.go")],
  state=[("the stores and the queue of notifications", "what is stored and who is still to be told", "pkg/cache/view_cache.go, event_queue.go")],
  technique="stateless exploration of the real code under a controlled scheduler: all schedules up to a preemption bound, each checked for linearizability of results, events and final content, for deadlocks, and by the race detector",
  note="All schedules within the preemption bound at the granularity of synchronizing operations, on the real code whose locks and goroutines are put under control by rewriting at build time; the race detector checks on every schedule that finer interleavings do not matter. Trusted: client-go's thread-safe store, the reference, the race detector and the Go toolchain. The collective delete is several operations. After the end of a watch events may still come.", **CONC),
]
