PIPE = dict(group="pipe", maps="pkg/dbsp,pkg/pipeline,pkg/object,pkg/expression")
TRUST = "Trusted: the reference interpreter (harness/ref), the map-order instrumenter and the Go toolchain. Bounded: the listed pipelines, contents, history lengths and two map orders; not covered: @rnd/@now/@hash and results that share a name."
PROPS = [
 dict(id="P01", title="Incremental evaluation agrees with evaluation from scratch",
  statement="For every pipeline and every history of source events (adds, updates, replacements, upserts and deletes, repeated or not, and whatever content a delete event carries), applying the emitted changes in order leaves the target with exactly the objects that evaluating the whole pipeline from scratch over the sources' current objects gives, as long as every result has its own name. This holds after every single event and whatever order unordered collections are visited in; in a gather, any member of the group may lend the fields that are not aggregated.",
  over=["histories", "inputs", "programs"], text="all event histories up to a length over small alphabets of objects and contents, for pipelines that cover every operator and their combinations, under two map-iteration orders",
  why="The unit tests feed a handful of hand-written events to a handful of pipelines; the guarantee quantifies over all histories, and stale state shows only after particular sequences (a delete that differs from the last update, an update that moves an object between groups, join partners that come and go).",
  files=["pkg/pipeline/pipeline.go", "pkg/pipeline/zset_adaptor.go", "pkg/pipeline/op.go", "pkg/dbsp"],
  mechanism=[("conversion of source events to Z-set deltas against the source cache", "pkg/pipeline/zset_adaptor.go"), ("incremental join and lifted gather", "pkg/dbsp/op_bilinear.go, op_nonlinear.go, op_misc.go"), ("merging of Z-set output into per-object changes", "pkg/pipeline/zset_adaptor.go Reconcile")],
  state=[("source cache", "last known content of every source object", "pkg/pipeline/pipeline.go"), ("operator state", "integrals of the inputs of joins and gathers", "pkg/dbsp")],
  technique="exhaustive enumeration of event histories on the real pipeline, checked against an independent from-scratch reference model after every event",
  note="Exhaustive within the stated bounds on the real code. " + TRUST, **PIPE),
 dict(id="P02", title="Emitted changes form a well-formed, minimal stream",
  statement="Every batch of changes a pipeline emits has at most one change per object, has all deletions before all upserts, deletes only objects that the target has, and names every object with the target's kind. A consumer that applies the batches in order has exactly the objects that the pipeline itself records as its target. An event that does not change the result emits nothing.",
  over=["histories", "inputs", "programs"], text="all event histories up to a length over small alphabets, for pipelines that cover every operator and their combinations, under two map-iteration orders",
  why="Tests look at the changes of a few chosen events; malformed batches (an upsert and a delete of one object, a delete of an object that was only transient, redundant re-emission) depend on what the history left in several caches and on map order.",
  files=["pkg/pipeline/zset_adaptor.go", "pkg/pipeline/pipeline.go"],
  mechanism=[("grouping by key, disambiguation by the target cache, ordering", "pkg/pipeline/zset_adaptor.go Reconcile"), ("suppression of no-op updates", "pkg/pipeline/zset_adaptor.go ConvertDeltaToZSet")],
  state=[("target cache", "the target as the pipeline believes it to be", "pkg/pipeline/pipeline.go")],
  technique="exhaustive enumeration of event histories on the real pipeline with stream invariants checked on every batch",
  note="Exhaustive within the stated bounds on the real code. " + TRUST, **PIPE),
 dict(id="P03", title="A resync repairs the target and leaves incremental evaluation intact",
  statement="At any point of any history, for every pipeline, a state-of-the-world resync succeeds and emits changes that turn the pipeline's recorded target, however it has drifted (objects lost, altered or foreign), into exactly the objects the current sources give from scratch: one change per object, deletions first and only of objects that are there. Events and resyncs that follow behave as if the target had never drifted.",
  over=["histories", "inputs", "programs", "fault_sequences"], text="all histories of source events interleaved with resyncs under five kinds of drift, up to a length, over small alphabets, for pipelines that cover every operator, under two map-iteration orders",
  why="The tests resync a few simple pipelines at one point; whether the snapshot form of a pipeline agrees with its incremental form, and whether running it disturbs the incremental state, has to hold for every operator and history.",
  files=["pkg/pipeline/pipeline.go", "pkg/dbsp/graph_converter.go", "pkg/dbsp/executor.go"],
  mechanism=[("conversion of the incremental graph to a snapshot graph", "pkg/dbsp/graph_converter.go"), ("difference of required and recorded target", "pkg/pipeline/pipeline.go Sync")],
  technique="exhaustive enumeration of histories with resyncs and target drift on the real pipeline, checked against an independent from-scratch reference model",
  note="Exhaustive within the stated bounds on the real code. " + TRUST, **PIPE),
 dict(id="P06", title="Evaluation shares no data with its callers or with other pipelines",
  statement="Evaluating an event never changes the event's object, and objects given to or emitted by a pipeline can be freely overwritten afterwards without any effect on later results. Several pipelines given the same event object produce the results each would produce alone.",
  over=["histories", "inputs", "programs"], text="all event histories up to a length, ended by a resync, for pipelines that cover every operator; after each step every input and output is overwritten in depth",
  why="Aliasing shows only when a consumer modifies an object and a later event makes the engine read it back; tests never overwrite what they passed in or got out.",
  files=["pkg/pipeline/zset_adaptor.go", "pkg/pipeline/op.go", "pkg/dbsp/zset.go", "pkg/dbsp/fused_op.go", "pkg/object"],
  mechanism=[("copies at the boundaries of caches, Z-sets and operators", "pkg/pipeline/zset_adaptor.go, pkg/dbsp/zset.go, pkg/cache/store.go")],
  technique="exhaustive enumeration of event histories, each run undisturbed and with all inputs and outputs overwritten (two-run comparison)",
  note="Exhaustive within the stated bounds on the real code. " + TRUST, **PIPE),
 dict(id="P13", title="An event that cannot be processed is rejected as a whole",
  statement="An event is accepted exactly if evaluating the whole pipeline from scratch over the sources' updated objects has no error (expressions that fail, results without a valid name); deleting an unknown object and objects of kinds that are no source are never accepted. A rejected event is reported as an error, emits nothing, and leaves no trace: whatever it failed on and however far it got, later events and resyncs behave as if it had never been sent.",
  over=["histories", "inputs", "programs"], text="all histories up to a length over alphabets with contents that fail in a selection, a projection, a join predicate, after an unwind, a join or a gather, or when the result is named, followed by a resync, under two map-iteration orders",
  why="The tests check that an error comes back, for one event; what a half-processed event leaves in the source cache and in the state of stateful operators shows only in what later events emit.",
  files=["pkg/pipeline/pipeline.go", "pkg/pipeline/zset_adaptor.go", "pkg/dbsp/executor.go"],
  mechanism=[("restoring the source cache and the operator state after an error", "pkg/pipeline/pipeline.go Evaluate")],
  state=[("source cache and operator state", "what has been accepted", "pkg/pipeline/pipeline.go")],
  technique="exhaustive enumeration of event histories with unprocessable contents on the real pipeline, checked against an independent from-scratch reference model after every event",
  note="Exhaustive within the stated bounds on the real code. " + TRUST, **PIPE),
 dict(id="P04", title="Graph rewriting and mode conversion preserve results",
  statement="For every operator graph and every stream of input changes, the graph as rewritten by the optimizer (or by its rules in any order) emits at every step exactly the change in the result of the original graph on the complete inputs, and does so again after a reset; rewriting always ends. Snapshot graphs, including those obtained from an incremental graph, give the original graph's result on complete inputs.",
  over=["programs", "histories", "inputs"], text="all chains of operators up to a length over an alphabet of every operator, behind no join or a one-, two- or three-way join, rewritten by the engine or by its rules in five orders, on all streams of input batches up to a length, under two map orders",
  why="Tests check the shape of a few rewritten graphs and their result on one or two inputs; equivalence has to hold for every combination of adjacent operators, multiplicities and deletions.",
  files=["pkg/dbsp/rewrite_engine.go", "pkg/dbsp/graph_converter.go", "pkg/dbsp/executor.go", "pkg/dbsp/chain.go", "pkg/dbsp/fused_op.go", "pkg/dbsp/op_bilinear.go", "pkg/dbsp/op_nonlinear.go", "pkg/dbsp/op_linear.go", "pkg/dbsp/op_misc.go"],
  mechanism=[("rewrite rules to a fixpoint", "pkg/dbsp/rewrite_engine.go"), ("incremental joins, lifting of non-linear operators, fusion", "pkg/dbsp")],
  technique="bounded-exhaustive enumeration of operator graphs, rule orders and input streams on the real engine against a reference interpreter of the unrewritten graph",
  note="Exhaustive within the stated bounds on the real code. Trusted: the reference stream semantics (harness/checks/dbsp), the map-order instrumenter. Bounded: chain length, stream length, three documents per input.",
  group="dbsp", maps="pkg/dbsp"),
 dict(id="P05", title="Z-sets obey their algebra and documents have JSON identity",
  statement="Sets with signed multiplicities behave as maps from documents to non-zero integers: sums, differences, negation, distinct, sign-preserving unique, copies, listings, counts, and the integral, derivative and delay of streams give exactly what that model gives and never change their operands; what they hand out by copy can be overwritten freely. Two documents are the same exactly if they are equal as JSON values: key order is irrelevant, list order, types and explicit nulls matter, and integers equal floats of the same value.",
  over=["inputs", "histories"], text="all pairs of documents of a list of JSON corner cases; all Z-sets over three documents with multiplicities -2..2, all pairs, and triples for stream operators",
  why="The tests add a few documents; the algebra that incremental evaluation rests on is a statement about all operands, and cancellation to zero is what goes wrong.",
  files=["pkg/dbsp/zset.go", "pkg/dbsp/document.go", "pkg/dbsp/op_misc.go"],
  mechanism=[("canonical JSON keys", "pkg/dbsp/document.go"), ("multiplicity maps without zero entries", "pkg/dbsp/zset.go")],
  technique="exhaustive enumeration of small Z-sets, pairs and triples on the real implementation against a map model",
  note="Exhaustive within the stated bounds on the real code. Trusted: the map model.",
  group="dbsp", maps="pkg/dbsp"),
]
