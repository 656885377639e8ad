EXPR = dict(group="expr", maps="pkg/expression")
PROPS = [
 dict(id="P07", title="Expressions evaluate as documented and never crash",
  statement="Every expression that parses evaluates, on every subject, to the value the expression reference gives, or to an error exactly where the documented arguments are violated; it never panics, never returns an error together with a value, never changes the subject, and gives the same value when evaluated again. This includes literals of every JSON type (null and the empty string too), short-circuiting, integer versus float arithmetic, conversions, list operators with the global and the local subject (also nested and on null items), label selectors, conditionals, @switch, @range, @hash (a function of the value alone) and @rnd (always within its range).",
  over=["inputs", "programs"], text="all expressions of a grammar: every operator on all single atoms and pairs, reduced triples, list operators with all bodies of a list, nested list operators, all compositions of two operators (three in the thorough tier), conditionals, dictionaries, selectors; each on three subjects",
  why="The tests evaluate a few hundred hand-picked expressions; the language is compositional and users write arbitrary combinations, with wrong arities and types included.",
  files=["pkg/expression/expression.go", "pkg/expression/converter.go", "pkg/expression/jsonpath.go", "pkg/expression/selector.go", "pkg/expression/marshaler.go"],
  mechanism=[("operator dispatch and evaluation", "pkg/expression/expression.go Evaluate"), ("conversions between types", "pkg/expression/converter.go"), ("label selectors", "pkg/expression/selector.go")],
  technique="bounded-exhaustive enumeration of a grammar of expressions on the real interpreter against an independent reference interpreter",
  note="Exhaustive within the stated grammar on the real code. Trusted: the reference interpreter (harness/ref). For @rnd only membership in the range is checked, for @now only the format.", **EXPR),
 dict(id="P08", title="Expressions and pipelines survive serialization and copying",
  statement="An expression or pipeline that is parsed and serialized gives the same JSON value back (one that parses to the same thing; the aliases of pipeline operators may be replaced by their canonical names), and what is re-read, deep-copied, or embedded in a list, a controller or an operator evaluates exactly as the original. Pipelines are accepted as a single operation or a list; an operation that is unknown, or has not exactly one key, is rejected.",
  over=["inputs", "programs"], text="all expressions of the grammar of P07 up to two levels, and all pipelines of up to three operations over a list of expressions",
  why="Kubernetes clients, caches and the API server copy and re-serialize operators all the time; a lossy form of one operator silently changes a controller's meaning, and tests round-trip only a few expressions.",
  files=["pkg/expression/marshaler.go", "pkg/api/operator/v1alpha1/pipeline_types.go", "pkg/api/operator/v1alpha1/zz_generated.deepcopy.go"],
  mechanism=[("JSON form of expressions, on which deep copies rest", "pkg/expression/marshaler.go"), ("JSON form and copies of pipelines", "pkg/api/operator/v1alpha1/pipeline_types.go")],
  technique="bounded-exhaustive enumeration of expressions and pipelines through parse, serialize, re-parse and copy on the real code",
  note="Exhaustive within the stated grammar on the real code. Trusted: the canonical form of JSON values (harness/ref).", **EXPR),
 dict(id="P09", title="JSONPath getters and setters address exactly what they name",
  statement="A getter returns the first value its path selects, from the global subject for $ and from the local one for $$, or null if there is none; strings that do not start with $ are themselves; malformed paths are errors. A setter changes exactly the addressed places (keys, existing list items, keys of items selected by a filter or wildcard), creates missing maps on the way, resolves a value that is itself a path, leaves everything else and the subject as they were, and what was set reads back. A plain key is set as it stands, and $. merges a whole map into the result.",
  over=["inputs"], text="all paths of up to three (thorough: four) steps over 25 kinds of steps, on three objects, with eight values",
  why="Tests read and write a few dozen paths; keys with dots and slashes, filters, negative indices, nulls and missing parents combine freely in user pipelines.",
  files=["pkg/expression/jsonpath.go", "pkg/expression/literal.go"],
  mechanism=[("choice of subject, root references, literal keys", "pkg/expression/jsonpath.go")],
  technique="bounded-exhaustive enumeration of paths, objects and values on the real code against a path model",
  note="Exhaustive within the stated grammar of paths. Trusted: the path model (harness/ref). Setting through a wildcard over a map, or an index that does not exist, is not specified and not covered.", **EXPR),
]
