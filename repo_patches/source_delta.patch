From 4c69d11ab759375ebd3e5710085636162f2f8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 01/65] fix: retract the known content of a deleted source
 object

---
 pkg/pipeline/zset_adaptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index 3beb083..0926777 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -87,6 +87,8 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 					delta.Type, ObjectKey(deltaObj)))
 		}
 
+		// Retract the content known to the pipeline: the content of the delete event may differ.
+		deltaObj = object.DeepCopy(old)
 		if err := zset.AddDocumentMutate(deltaObj.UnstructuredContent(), -1); err != nil {
 			return nil, NewPipelineError(
 				fmt.Errorf("processing event %q: could not add object %s to zset: %w",
-- 
2.43.0


From db2fed77dc4cfcae643472f49b7a1615ce7bb518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 02/65] fix: replace the known content when a known source
 object is added again

---
 pkg/pipeline/zset_adaptor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index 0926777..f2ba281 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -48,6 +48,15 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 	zset := dbsp.NewDocumentZSet()
 	switch delta.Type {
 	case object.Added:
+		// An add for an already known object replaces the known content.
+		if old != nil {
+			if err := zset.AddDocumentMutate(old.UnstructuredContent(), -1); err != nil {
+				return nil, NewPipelineError(
+					fmt.Errorf("processing event %q: could not add object %s to zset: %w",
+						delta.Type, ObjectKey(deltaObj), err))
+			}
+		}
+
 		if err := zset.AddDocumentMutate(deltaObj.UnstructuredContent(), 1); err != nil {
 			return nil, NewPipelineError(
 				fmt.Errorf("processing event %q: could not add object %s to zset: %w",
-- 
2.43.0


From 8d60eb5bac63c85246901f66df94562ee4e8e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 03/65] fix: convert unwind and lifted gather operators to
 snapshot mode

---
 pkg/dbsp/graph_converter.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/dbsp/graph_converter.go b/pkg/dbsp/graph_converter.go
index 2ae690c..5587c3c 100644
--- a/pkg/dbsp/graph_converter.go
+++ b/pkg/dbsp/graph_converter.go
@@ -47,8 +47,11 @@ func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opC
 	}
 
 	// Convert chain operators.
-	for _, nodeID := range sourceGraph.chain {
+	for i, nodeID := range sourceGraph.chain {
 		node := sourceGraph.nodes[nodeID]
+		if sourceType == "incremental" && isLiftingWrapper(sourceGraph, i) {
+			continue
+		}
 		convertedOp, err := opConverter(node.Op)
 		if err != nil {
 			return nil, fmt.Errorf("failed to convert operator %s: %w", node.Op.id(), err)
@@ -59,6 +62,19 @@ func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opC
 	return targetGraph, nil
 }
 
+// isLiftingWrapper checks whether the operator at index i of the chain is the integrator before or the
+// differentiator after a lifted non-linear operator: these are stripped in snapshot mode.
+func isLiftingWrapper(graph *ChainGraph, i int) bool {
+	switch graph.nodes[graph.chain[i]].Op.(type) {
+	case *IntegratorOp:
+		return i+1 < len(graph.chain) && graph.nodes[graph.chain[i+1]].Lifted
+	case *DifferentiatorOp:
+		return i > 0 && graph.nodes[graph.chain[i-1]].Lifted
+	default:
+		return false
+	}
+}
+
 // convertToSnapshotJoin converts an incremental join to snapshot join.
 func convertToSnapshotJoin(op Operator) (Operator, error) {
 	switch o := op.(type) {
@@ -100,6 +116,9 @@ func convertToSnapshotOperator(op Operator) (Operator, error) {
 	case *ProjectionOp, *SelectionOp, *DistinctOp:
 		return op, nil
 
+	case *UnwindOp:
+		return op, nil
+
 	// Fused operators are also the same.
 	case *ProjectThenSelectOp, *SelectThenProjectionsOp:
 		return op, nil
@@ -133,6 +152,9 @@ func convertToIncrementalOperator(op Operator) (Operator, error) {
 	case *ProjectionOp, *SelectionOp, *DistinctOp:
 		return op, nil
 
+	case *UnwindOp:
+		return op, nil
+
 	// Fused operators are also the same.
 	case *ProjectThenSelectOp, *SelectThenProjectionsOp:
 		return op, nil
-- 
2.43.0


From 4e633dbc63d2fb13132c08c88fc4ebe76c77db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 04/65] fix: reset the state of n-ary joins when an executor is
 reset

---
 pkg/dbsp/executor.go    | 2 ++
 pkg/dbsp/op_bilinear.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/pkg/dbsp/executor.go b/pkg/dbsp/executor.go
index 795076e..63e09b3 100644
--- a/pkg/dbsp/executor.go
+++ b/pkg/dbsp/executor.go
@@ -115,6 +115,8 @@ func (e *Executor) resetOperator(op Operator) {
 		o.Reset()
 	case *DelayOp:
 		o.Reset()
+	case *IncrementalJoinOp:
+		o.Reset()
 	case *IncrementalBinaryJoinOp:
 		o.Reset()
 		// Note: Non-linear operators (GatherOp) don't need Reset() - they are lifted with
diff --git a/pkg/dbsp/op_bilinear.go b/pkg/dbsp/op_bilinear.go
index 8dd36d8..8876217 100644
--- a/pkg/dbsp/op_bilinear.go
+++ b/pkg/dbsp/op_bilinear.go
@@ -60,6 +60,11 @@ func (op *IncrementalJoinOp) OpType() OperatorType              { return OpTypeB
 func (op *IncrementalJoinOp) IsTimeInvariant() bool             { return true }
 func (op *IncrementalJoinOp) HasZeroPreservationProperty() bool { return true }
 
+// Reset drops the state of the join.
+func (op *IncrementalJoinOp) Reset() {
+	op.prevStates = make([]*DocumentZSet, op.n)
+}
+
 // Process evaluates the op.
 func (op *IncrementalJoinOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, error) {
 	if err := op.validateInputs(inputs); err != nil {
-- 
2.43.0


From f6123643869a6b71ccd9138aac3a5a4eb8cde769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 05/65] fix: evaluate @none to true when no list item satisfies
 the condition

---
 pkg/expression/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index bea0d5e..fe7ba99 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -561,7 +561,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, errors.New("invalid arguments: expected a list")
 			}
 
-			v := false
+			v := true
 			for _, input := range list {
 				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
 				if err != nil {
-- 
2.43.0


From b788ea47d63d2380b53e74fc5dc734d090aacf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 06/65] fix: return an error instead of panicking on invalid
 @map and @rnd arguments

---
 pkg/expression/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index fe7ba99..042f19b 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -638,6 +638,11 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, NewExpressionError(e, err)
 			}
 
+			if len(args) != 2 {
+				return nil, NewExpressionError(e,
+					errors.New("invalid arguments: expected 2 arguments"))
+			}
+
 			// function
 			exp := args[0]
 
@@ -759,6 +764,9 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			min := args[0]
 			max := args[1]
+			if min >= max {
+				return nil, NewExpressionError(e, errors.New("empty range: expected min < max"))
+			}
 			v := int64(rand.Intn(int(max-min)) + int(min)) //nolint:gosec
 			ctx.Log.V(8).Info("eval ready", "expression", e.String(), "args", args, "result", v)
 			return v, nil
-- 
2.43.0


From fa8d87745c5523c7422992fbdc67cef781671c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 07/65] fix: parse null, the empty string and empty keys in
 expressions

---
 pkg/expression/marshaler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index d3be337..bbe6cc5 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -8,6 +8,12 @@ import (
 
 // UnmarshalJSON de-serializes an expression from JSON.
 func (e *Expression) UnmarshalJSON(b []byte) error {
+	// a null literal evaluates to nil
+	if string(b) == "null" {
+		*e = Expression{Op: "@noop"}
+		return nil
+	}
+
 	// cut raw content
 	// try to unmarshal as a bool terminal expression
 	bv := false
@@ -32,7 +38,7 @@ func (e *Expression) UnmarshalJSON(b []byte) error {
 
 	// try to unmarshal as a string terminal expression
 	sv := ""
-	if err := json.Unmarshal(b, &sv); err == nil && sv != "" {
+	if err := json.Unmarshal(b, &sv); err == nil {
 		*e = Expression{Op: "@string", Literal: sv}
 		return nil
 	}
@@ -54,7 +60,7 @@ func (e *Expression) UnmarshalJSON(b []byte) error {
 				op = k
 				break
 			}
-			if string(op[0]) == "@" {
+			if len(op) > 0 && string(op[0]) == "@" {
 				exp := cv[op]
 				*e = Expression{Op: op, Arg: &exp}
 				return nil
-- 
2.43.0


From f133aa142a60496dae1f3ab2a8fee97249d39693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 08/65] fix: keep @any, @noop, @list, @dict and integral floats
 through a JSON round-trip

---
 pkg/expression/marshaler.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index bbe6cc5..a86ea19 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -1,6 +1,7 @@
 package expression
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"reflect"
@@ -82,8 +83,12 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 	}
 
 	switch e.Op {
-	case "@any":
-		return json.Marshal(e.Literal)
+	case "@noop":
+		if e.Arg != nil {
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
+		}
+		return []byte("null"), nil
 
 	case "@bool":
 		if e.Arg != nil {
@@ -119,7 +124,12 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return []byte(""), err
 		}
-		return json.Marshal(v)
+		b, err := json.Marshal(v)
+		if err == nil && !bytes.ContainsAny(b, ".e") {
+			// make sure the literal is not parsed back as an int
+			b = append(b, ".0"...)
+		}
+		return b, err
 
 	case "@string":
 		if e.Arg != nil {
@@ -135,7 +145,9 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	case "@list":
 		if e.Arg != nil {
-			return json.Marshal(e.Arg)
+			// keep the op for a correct round-trip and possible side-effects (conversion)
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
 		}
 		es, ok := e.Literal.([]Expression)
 		if !ok {
@@ -145,8 +157,9 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	case "@dict":
 		if e.Arg != nil {
-			// can this ever happen?
-			return json.Marshal(e.Arg)
+			// keep the op for a correct round-trip and possible side-effects (conversion)
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
 		}
 
 		es, ok := e.Literal.(map[string]Expression)
-- 
2.43.0


From 47abdeb1e05dcbed595ebf1270d3490bb4955de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 09/65] fix: convert floats to strings and float literals to
 expressions

---
 pkg/expression/converter.go | 4 +++-
 pkg/expression/literal.go   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/converter.go b/pkg/expression/converter.go
index 12185dc..8fc71b9 100644
--- a/pkg/expression/converter.go
+++ b/pkg/expression/converter.go
@@ -81,8 +81,10 @@ func AsString(d any) (string, error) {
 	switch reflect.ValueOf(d).Kind() { //nolint:exhaustive
 	case reflect.String:
 		return reflect.ValueOf(d).String(), nil
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Complex64, reflect.Complex128:
 		return fmt.Sprintf("%d", d), nil
+	case reflect.Float32, reflect.Float64:
+		return strconv.FormatFloat(reflect.ValueOf(d).Float(), 'f', -1, 64), nil
 	}
 
 	return "", fmt.Errorf("argument is not a string: %s", util.Stringify(d))
diff --git a/pkg/expression/literal.go b/pkg/expression/literal.go
index b75b84b..712fd94 100644
--- a/pkg/expression/literal.go
+++ b/pkg/expression/literal.go
@@ -13,7 +13,7 @@ func NewLiteralExpression(value any) (Expression, error) {
 	case string:
 		op = "@string"
 	case float32, float64:
-		op = "float"
+		op = "@float"
 	default:
 		return Expression{}, fmt.Errorf("cannot create a literal expression from an "+
 			"argument %#v", value)
-- 
2.43.0


From f725c2db09fee77995114a22a642b539f166a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 10/65] fix: evaluate $$ to nil on null list items

---
 pkg/expression/expression.go | 18 +++++++++++++-----
 pkg/expression/jsonpath.go   |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index 042f19b..a47a11b 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -47,6 +47,14 @@ import (
 type EvalCtx struct {
 	Object, Subject any
 	Log             logr.Logger
+
+	// nilSubject tells a local subject that is nil from no local subject.
+	nilSubject bool
+}
+
+// withSubject returns the context for evaluating an expression on a list item.
+func (ctx EvalCtx) withSubject(subject any) EvalCtx {
+	return EvalCtx{Object: ctx.Object, Subject: subject, Log: ctx.Log, nilSubject: subject == nil}
 }
 
 // Expression defines a single expression op.
@@ -465,7 +473,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			vs := []any{}
 			for _, input := range list {
-				res, err := cond.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := cond.Evaluate(ctx.withSubject(input))
 				if err != nil {
 					return nil, err
 				}
@@ -514,7 +522,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			v := false
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(ctx.withSubject(input))
 				if err != nil {
 					return nil, err
 				}
@@ -563,7 +571,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			v := true
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(ctx.withSubject(input))
 				if err != nil {
 					return nil, err
 				}
@@ -611,7 +619,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			v := true
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(ctx.withSubject(input))
 				if err != nil {
 					return nil, err
 				}
@@ -659,7 +667,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			vs := []any{}
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(ctx.withSubject(input))
 				if err != nil {
 					return nil, err
 				}
diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 11d94fc..dce9e49 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -25,7 +25,7 @@ func GetJSONPath(ctx EvalCtx, key string) (any, error) {
 	subject := ctx.Object
 
 	// $$... is local subject (@map, @filter, etc.)
-	if len(key) >= 2 && key[0] == '$' && key[1] == '$' && ctx.Subject != nil {
+	if len(key) >= 2 && key[0] == '$' && key[1] == '$' && (ctx.Subject != nil || ctx.nilSubject) {
 		// remove first $
 		key = key[1:]
 		subject = ctx.Subject
-- 
2.43.0


From ee05ccfb54291c7f4652f5810d232a5bf58f3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:47 +0000
Subject: [PATCH 11/65] fix: report failed creates and write the status of
 created objects in updater targets

---
 pkg/reconciler/ctrlutils.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index 27cf729..83e29b2 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -29,7 +29,8 @@ func isViewObject(obj client.Object) bool {
 //
 // Note: this version differs from default controllerutil.CreateOrUpdate in two ways:
 //   - it uses the unstructured API via object.Object
-//   - errors produced by the `Create` branch (after a failed `Get`) will be ignored
+//   - errors produced by the `Create` branch (after a failed `Get`) will be ignored, unless it
+//     turns out that there is nothing to update either
 //
 // Status handling: For resources with status as a subresource (native Kubernetes objects like
 // Pods), client.Update() does NOT update status. This function saves the status before Update(),
@@ -37,6 +38,7 @@ func isViewObject(obj client.Object) bool {
 // (like view objects), this redundantly updates status twice but is harmless.
 func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f controllerutil.MutateFn) (controllerutil.OperationResult, error) {
 	key := client.ObjectKeyFromObject(obj)
+	var createErr error
 	if err := c.Get(ctx, key, obj); err != nil {
 		if !apierrors.IsNotFound(err) {
 			return controllerutil.OperationResultNone, err
@@ -44,14 +46,28 @@ func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f c
 		if err := mutate(f, key, obj); err != nil {
 			return controllerutil.OperationResultNone, err
 		}
-		if err := c.Create(ctx, obj); err != nil {
-			// this is not an error: default to the update branch
-			goto update
+		// Create may rewrite out status
+		newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
+		if createErr = c.Create(ctx, obj); createErr == nil {
+			// Native Kubernetes objects ignore the status on create.
+			if hasStatus && !isViewObject(obj) {
+				if err := unstructured.SetNestedMap(obj.UnstructuredContent(), newStatus, "status"); err == nil {
+					if err := c.Status().Update(ctx, obj); err != nil {
+						return controllerutil.OperationResultCreated, err
+					}
+				}
+			}
+			return controllerutil.OperationResultCreated, nil
+		}
+		// this is not an error yet: default to the update branch, starting from the existing
+		// object if it has been created in the meantime
+		if apierrors.IsAlreadyExists(createErr) {
+			if err := c.Get(ctx, key, obj); err != nil && !apierrors.IsNotFound(err) {
+				return controllerutil.OperationResultNone, err
+			}
 		}
-		return controllerutil.OperationResultCreated, nil
 	}
 
-update:
 	if err := mutate(f, key, obj); err != nil {
 		return controllerutil.OperationResultNone, err
 	}
@@ -60,6 +76,11 @@ update:
 	newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
 
 	if err := c.Update(ctx, obj); err != nil {
+		// There is nothing to update: report why the object could not be created (not as a
+		// NotFound error, which would mean that the object has disappeared).
+		if createErr != nil && apierrors.IsNotFound(err) {
+			return controllerutil.OperationResultNone, fmt.Errorf("cannot create object: %v", createErr)
+		}
 		return controllerutil.OperationResultNone, err
 	}
 
-- 
2.43.0


From 043354f7e773cb518ab9ced0b1ef7cdc975121a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 12/65] fix: re-apply patches on conflict instead of
 overwriting concurrent changes

---
 pkg/reconciler/ctrlutils.go | 38 +++++++++++++++++++++++
 pkg/reconciler/target.go    | 60 ++++++++++++++++++++++---------------
 2 files changed, 74 insertions(+), 24 deletions(-)

diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index 83e29b2..b1cc6a9 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -164,6 +164,44 @@ func Update(ctx context.Context, c client.Client, obj object.Object) error {
 	})
 }
 
+// mutateAndUpdate applies f on the given object and writes the result back, including the status.
+// Unlike with Update, on conflict the object is fetched and f is applied again, so that changes made
+// by others since the object was read are never reverted.
+func mutateAndUpdate(ctx context.Context, c client.Client, obj object.Object, f func(object.Object) error) error {
+	key, gvk := client.ObjectKeyFromObject(obj), obj.GroupVersionKind()
+	return retry.RetryOnConflict(retry.DefaultRetry, func() error {
+		if obj == nil {
+			latest := object.New()
+			latest.SetGroupVersionKind(gvk)
+			object.SetName(latest, key.Namespace, key.Name)
+			if err := c.Get(ctx, key, latest); err != nil {
+				return err
+			}
+			obj = latest
+		}
+		current := obj
+		obj = nil // fetch on retry
+
+		if err := f(current); err != nil {
+			return err
+		}
+
+		savedStatus, hasStatus, _ := unstructured.NestedMap(current.UnstructuredContent(), "status")
+		if err := c.Update(ctx, current); err != nil {
+			return err
+		}
+
+		// Restore and update the status if it is a subresource (see Update).
+		if hasStatus && !isViewObject(current) {
+			if err := unstructured.SetNestedMap(current.UnstructuredContent(), savedStatus, "status"); err == nil {
+				return c.Status().Update(ctx, current)
+			}
+		}
+
+		return nil
+	})
+}
+
 func mutate(f controllerutil.MutateFn, key client.ObjectKey, obj client.Object) error {
 	if err := f(); err != nil {
 		return err
diff --git a/pkg/reconciler/target.go b/pkg/reconciler/target.go
index c63e766..f43f392 100644
--- a/pkg/reconciler/target.go
+++ b/pkg/reconciler/target.go
@@ -187,8 +187,10 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 		t.log.V(4).Info("update-patch", "event-type", delta.Type,
 			"key", client.ObjectKeyFromObject(delta.Object).String())
 
-		// Check if we can use the original object snapshot (same GVK, namespace, name)
+		// Check if we can use the original object snapshot (same GVK, namespace, name): without
+		// a resourceVersion changes made since the snapshot would go unnoticed.
 		useOriginal := originalObject != nil &&
+			originalObject.GetResourceVersion() != "" &&
 			originalObject.GroupVersionKind() == delta.Object.GroupVersionKind() &&
 			originalObject.GetNamespace() == delta.Object.GetNamespace() &&
 			originalObject.GetName() == delta.Object.GetName()
@@ -214,20 +216,24 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 
 		// Apply delta changes to the object in-place using merge-patch semantics (RFC 7386).
 		// This properly merges nested objects and arrays rather than replacing them.
-		if err := object.Patch(obj, delta.Object.UnstructuredContent()); err != nil {
-			return err
-		}
+		applyPatch := func(obj object.Object) error {
+			if err := object.Patch(obj, delta.Object.UnstructuredContent()); err != nil {
+				return err
+			}
 
-		// Restore critical metadata that must not be overwritten
-		obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-		obj.SetName(delta.Object.GetName())
-		obj.SetNamespace(delta.Object.GetNamespace())
+			// Restore critical metadata that must not be overwritten
+			obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
+			obj.SetName(delta.Object.GetName())
+			obj.SetNamespace(delta.Object.GetNamespace())
+
+			return nil
+		}
 
-		// Use our custom Update function which handles both spec and status correctly.
+		// Use our custom update function which handles both spec and status correctly.
 		// This uses optimistic concurrency control via resourceVersion (Kubernetes will reject
-		// if the object has changed). NotFound errors are ignored: the object has disappeared
-		// while we were working on it.
-		if err := Update(ctx, c, obj); err != nil {
+		// if the object has changed, in which case the patch is re-applied). NotFound errors
+		// are ignored: the object has disappeared while we were working on it.
+		if err := mutateAndUpdate(ctx, c, obj, applyPatch); err != nil {
 			if !apierrors.IsNotFound(err) {
 				return fmt.Errorf("update resource %s failed: %w",
 					client.ObjectKeyFromObject(delta.Object).String(), err)
@@ -242,8 +248,10 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 		t.log.V(4).Info("delete-patch", "event-type", delta.Type,
 			"key", client.ObjectKeyFromObject(delta.Object).String())
 
-		// Check if we can use the original object snapshot (same GVK, namespace, name)
+		// Check if we can use the original object snapshot (same GVK, namespace, name): without
+		// a resourceVersion changes made since the snapshot would go unnoticed.
 		useOriginal := originalObject != nil &&
+			originalObject.GetResourceVersion() != "" &&
 			originalObject.GroupVersionKind() == delta.Object.GroupVersionKind() &&
 			originalObject.GetNamespace() == delta.Object.GetNamespace() &&
 			originalObject.GetName() == delta.Object.GetName()
@@ -289,20 +297,24 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 		t.log.V(5).Info("delete-patch content", "patch", util.Stringify(patch))
 
 		// Apply delete patch to the fetched/cached object in-place
-		if err := object.Patch(obj, patch); err != nil {
-			return err
-		}
+		applyPatch := func(obj object.Object) error {
+			if err := object.Patch(obj, patch); err != nil {
+				return err
+			}
 
-		// Restore critical metadata that must not be overwritten
-		obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-		obj.SetName(delta.Object.GetName())
-		obj.SetNamespace(delta.Object.GetNamespace())
+			// Restore critical metadata that must not be overwritten
+			obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
+			obj.SetName(delta.Object.GetName())
+			obj.SetNamespace(delta.Object.GetNamespace())
+
+			return nil
+		}
 
-		// Use our custom Update function which handles both spec and status correctly.
+		// Use our custom update function which handles both spec and status correctly.
 		// This uses optimistic concurrency control via resourceVersion (Kubernetes will reject
-		// if the object has changed). NotFound errors are ignored: the object has disappeared
-		// while we were working on it.
-		if err := Update(ctx, c, obj); err != nil && !apierrors.IsNotFound(err) {
+		// if the object has changed, in which case the patch is re-applied). NotFound errors
+		// are ignored: the object has disappeared while we were working on it.
+		if err := mutateAndUpdate(ctx, c, obj, applyPatch); err != nil && !apierrors.IsNotFound(err) {
 			return fmt.Errorf("update resource %s after delete-patch failed: %w",
 				client.ObjectKeyFromObject(delta.Object).String(), err)
 		}
-- 
2.43.0


From 7fcace6458de3b2a2c676cac0e13b753be246067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 13/65] fix: do not add the nil entries of a patch to the
 patched object

---
 pkg/object/patch.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/pkg/object/patch.go b/pkg/object/patch.go
index 531e69d..5b9b775 100644
--- a/pkg/object/patch.go
+++ b/pkg/object/patch.go
@@ -25,11 +25,11 @@ func Patch(obj Object, m map[string]any) error {
 
 func patch(o, m any) any {
 	if reflect.DeepEqual(o, m) {
-		return DeepCopyAny(m)
+		return prune(m)
 	}
 
 	if o == nil {
-		return DeepCopyAny(m)
+		return prune(m)
 	}
 
 	switch x := m.(type) {
@@ -40,17 +40,17 @@ func patch(o, m any) any {
 		litlm := x
 		litlo, ok2 := o.([]any)
 		if !ok2 {
-			return DeepCopyAny(litlm)
+			return prune(litlm)
 		}
 
 		retl := DeepCopyAny(litlo).([]any)
 		for i := range litlm {
 			if i >= len(litlo) {
-				retl = append(retl, DeepCopyAny(litlm[i]))
+				retl = append(retl, prune(litlm[i]))
 				continue
 			}
 			if reflect.DeepEqual(litlo[i], litlm[i]) {
-				retl[i] = DeepCopyAny(litlm[i])
+				retl[i] = prune(litlm[i])
 				continue
 			}
 			retl[i] = patch(litlo[i], litlm[i])
@@ -61,7 +61,7 @@ func patch(o, m any) any {
 		litmm := x
 		litmo, ok2 := o.(map[string]any)
 		if !ok2 {
-			return DeepCopyAny(litmm)
+			return prune(litmm)
 		}
 
 		retm := DeepCopyAny(litmo).(map[string]any)
@@ -73,12 +73,12 @@ func patch(o, m any) any {
 
 			vo, ok := litmo[k]
 			if !ok {
-				retm[k] = DeepCopyAny(v)
+				retm[k] = prune(v)
 				continue
 			}
 
 			if reflect.DeepEqual(vo, v) {
-				retm[k] = DeepCopyAny(v)
+				retm[k] = prune(v)
 				continue
 			}
 
@@ -92,6 +92,29 @@ func patch(o, m any) any {
 	}
 }
 
+// prune makes a deep copy of a patch, with the map keys that are set to nil (i.e., to be deleted)
+// removed.
+func prune(m any) any {
+	switch x := m.(type) {
+	case []any:
+		retl := make([]any, len(x))
+		for i := range x {
+			retl[i] = prune(x[i])
+		}
+		return retl
+	case map[string]any:
+		retm := make(map[string]any, len(x))
+		for k, v := range x {
+			if v != nil {
+				retm[k] = prune(v)
+			}
+		}
+		return retm
+	default:
+		return DeepCopyAny(m)
+	}
+}
+
 // ApplyStrategicMergePatch is a partial local re-implementation of strategic merge patches.
 func ApplyStrategicMergePatch(original, patch *unstructured.Unstructured) (*unstructured.Unstructured, error) {
 	originalData, err := runtime.Encode(unstructured.UnstructuredJSONScheme, original)
-- 
2.43.0


From d4ab759f125074f6029f114b197a52f89f5d9dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 14/65] fix: do not decode the secret in the reconcile request
 in place

---
 pkg/controller/reconcilers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/controller/reconcilers.go b/pkg/controller/reconcilers.go
index c0351d0..4c81c67 100644
--- a/pkg/controller/reconcilers.go
+++ b/pkg/controller/reconcilers.go
@@ -45,7 +45,8 @@ func (r *IncrementalReconciler) Reconcile(ctx context.Context, req reconciler.Re
 	}
 
 	// Automatically decode Secret data fields for use in pipeline expressions.
-	obj := object.DecodeSecretData(req.Object)
+	// The request keeps the object as stored in the API server.
+	obj := object.DecodeSecretData(object.DeepCopy(req.Object))
 
 	// Create the delta
 	delta := object.Delta{
-- 
2.43.0


From 157c11bb20f7bd4423df5bcffb9942d147aa02d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 15/65] fix: retry failed target writes, in the order of the
 results

---
 pkg/controller/declarative.go |  2 ++
 pkg/controller/reconcilers.go | 60 ++++++++++++++++++++++---------
 pkg/controller/writer.go      | 68 +++++++++++++++++++++++++++++++++++
 3 files changed, 113 insertions(+), 17 deletions(-)
 create mode 100644 pkg/controller/writer.go

diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index 570478f..56e7492 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -27,6 +27,7 @@ type DeclarativeController struct {
 	target      reconciler.Target
 	mgr         manager.Manager
 	pipeline    pipeline.Evaluator
+	writer      *writer
 	logger, log logr.Logger
 }
 
@@ -46,6 +47,7 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		op:      operator,
 		sources: []reconciler.Source{},
 		config:  config,
+		writer:  newWriter(),
 		logger:  logger,
 	}
 	c.errorReporter = NewErrorReporter(c, opts.ErrorChan)
diff --git a/pkg/controller/reconcilers.go b/pkg/controller/reconcilers.go
index 4c81c67..f74a151 100644
--- a/pkg/controller/reconcilers.go
+++ b/pkg/controller/reconcilers.go
@@ -54,29 +54,44 @@ func (r *IncrementalReconciler) Reconcile(ctx context.Context, req reconciler.Re
 		Object: obj,
 	}
 
-	// Process the delta through the pipeline (pipeline has internal locking).
-	deltas, err := r.controller.pipeline.Evaluate(delta)
-	if err != nil {
-		err = fmt.Errorf("error evaluating pipeline for object %s/%s: %w", req.GVK,
-			client.ObjectKeyFromObject(obj), err)
-		r.log.Error(r.controller.Push(err), "error", "request", req)
-		return reconcile.Result{}, err
+	w := r.controller.writer
+	w.Lock()
+	defer w.Unlock()
+
+	// Process the delta through the pipeline.
+	if w.needsEvaluation(req) {
+		deltas, err := r.controller.pipeline.Evaluate(delta)
+		if err != nil {
+			w.retries[req] = false
+			err = fmt.Errorf("error evaluating pipeline for object %s/%s: %w", req.GVK,
+				client.ObjectKeyFromObject(obj), err)
+			r.log.Error(r.controller.Push(err), "error", "request", req)
+			return reconcile.Result{}, err
+		}
+		for _, d := range deltas {
+			w.pending = append(w.pending, pendingWrite{req: req, delta: d})
+		}
 	}
 
 	// Apply the resultant deltas.
-	for _, d := range deltas {
+	if err := w.flush(req, func(req reconciler.Request, d object.Delta) error {
 		r.log.V(4).Info("writing delta to target", "target", r.controller.target.String(),
 			"delta-type", d.Type, "object", object.Dump(d.Object))
 
 		// Pass the original object from the request for optimistic concurrency control.
 		if err := r.controller.target.Write(ctx, d, req.Object); err != nil {
-			err = fmt.Errorf("cannot update target %s for delta %s: %w", req.GVK,
+			return fmt.Errorf("cannot update target %s for delta %s: %w", req.GVK,
 				d.String(), err)
-			r.log.Error(r.controller.Push(err), "error", "request", req)
-			return reconcile.Result{}, err
 		}
+		return nil
+	}); err != nil {
+		w.retries[req] = true
+		r.log.Error(r.controller.Push(err), "error", "request", req)
+		return reconcile.Result{}, err
 	}
 
+	delete(w.retries, req)
+
 	return reconcile.Result{}, nil
 }
 
@@ -104,6 +119,10 @@ func (r *StateOfTheWorldReconciler) Reconcile(ctx context.Context, req reconcile
 	// Automatically decode Secret data fields for use in pipeline expressions.
 	req.Object = object.DecodeSecretData(req.Object)
 
+	w := r.controller.writer
+	w.Lock()
+	defer w.Unlock()
+
 	// Call pipeline.Sync() to compute the delta needed to reconcile target state.
 	deltas, err := r.controller.pipeline.Sync()
 	if err != nil {
@@ -114,18 +133,25 @@ func (r *StateOfTheWorldReconciler) Reconcile(ctx context.Context, req reconcile
 
 	r.log.V(2).Info("state-of-the-world reconciliation computed deltas", "num-deltas", len(deltas))
 
-	// Apply the deltas to the target.
 	for _, d := range deltas {
+		w.pending = append(w.pending, pendingWrite{req: req, delta: d})
+	}
+
+	// Apply the deltas to the target.
+	if err := w.flush(req, func(req reconciler.Request, d object.Delta) error {
 		r.log.V(4).Info("writing delta to target", "target", r.controller.target.String(),
 			"delta-type", d.Type, "object", object.Dump(d.Object))
 
-		// Pass nil for state-of-the-world reconciliation (eventual consistency is acceptable).
-		if err := r.controller.target.Write(ctx, d, nil); err != nil {
-			err = fmt.Errorf("cannot update target %s for delta %s: %w",
+		// No original object for state-of-the-world reconciliation (eventual consistency is
+		// acceptable).
+		if err := r.controller.target.Write(ctx, d, req.Object); err != nil {
+			return fmt.Errorf("cannot update target %s for delta %s: %w",
 				r.controller.target.String(), d.String(), err)
-			r.log.Error(r.controller.Push(err), "error", "request", req)
-			return reconcile.Result{}, err
 		}
+		return nil
+	}); err != nil {
+		r.log.Error(r.controller.Push(err), "error", "request", req)
+		return reconcile.Result{}, err
 	}
 
 	r.log.V(1).Info("reconciliation complete", "num-deltas", len(deltas))
diff --git a/pkg/controller/writer.go b/pkg/controller/writer.go
new file mode 100644
index 0000000..0d5c589
--- /dev/null
+++ b/pkg/controller/writer.go
@@ -0,0 +1,68 @@
+package controller
+
+import (
+	"sync"
+
+	"sigs.k8s.io/controller-runtime/pkg/client"
+
+	"github.com/l7mp/dcontroller/pkg/object"
+	"github.com/l7mp/dcontroller/pkg/reconciler"
+)
+
+// writer makes sure that the results of the pipeline reach the target in the order they were
+// computed: the reconcilers of a controller (one per source) hold it while they evaluate the
+// pipeline and write the results to the target, and the results that could not be written wait
+// here for the request they belong to to be retried.
+type writer struct {
+	sync.Mutex
+	pending []pendingWrite
+	retries map[reconciler.Request]bool // failed requests: true if they need no (re-)evaluation
+}
+
+// pendingWrite is a delta that is yet to be written to the target.
+type pendingWrite struct {
+	req   reconciler.Request
+	delta object.Delta
+}
+
+func newWriter() *writer {
+	return &writer{retries: map[reconciler.Request]bool{}}
+}
+
+// needsEvaluation tells whether the pipeline is to be evaluated for a request, which is not the case
+// if that has already happened or if the object has been changed by a newer request since then.
+func (w *writer) needsEvaluation(req reconciler.Request) bool {
+	if done, ok := w.retries[req]; ok {
+		return !done
+	}
+	for r := range w.retries {
+		if r.GVK == req.GVK && r.Namespace == req.Namespace && r.Name == req.Name {
+			w.retries[r] = true
+		}
+	}
+	return true
+}
+
+// flush writes the pending deltas of a request, after the older pending deltas of the same objects.
+func (w *writer) flush(req reconciler.Request, write func(req reconciler.Request, delta object.Delta) error) error {
+	keys := map[client.ObjectKey]bool{}
+	for _, p := range w.pending {
+		if p.req == req {
+			keys[client.ObjectKeyFromObject(p.delta.Object)] = true
+		}
+	}
+
+	for i := 0; i < len(w.pending); {
+		p := w.pending[i]
+		if !keys[client.ObjectKeyFromObject(p.delta.Object)] {
+			i++
+			continue
+		}
+		if err := write(p.req, p.delta); err != nil {
+			return err
+		}
+		w.pending = append(w.pending[:i], w.pending[i+1:]...)
+	}
+
+	return nil
+}
-- 
2.43.0


From 30beb0a9a60a2a6090f223bc55e290a7cdb08484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 16/65] fix: reject a delta that cannot be processed as a whole

---
 pkg/pipeline/pipeline.go | 50 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index d8d7ff0..345a52a 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -194,6 +194,9 @@ func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
 
 	p.log.V(2).Info("processing event", "event-type", delta.Type, "object", ObjectKey(delta.Object))
 
+	// Keep what is known of the object: a delta that cannot be processed is rejected as a whole
+	rollback := p.prepareRollback(delta.Object)
+
 	// Init
 	zset, err := p.ConvertDeltaToZSet(delta)
 	if err != nil {
@@ -214,11 +217,13 @@ func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
 	// Run the DBSP executor
 	res, err := p.executor.Process(dzset)
 	if err != nil {
+		rollback()
 		return nil, NewPipelineError(fmt.Errorf("failed to evaluate the DBSP graph: %w", err))
 	}
 
 	rawDeltas, err := p.ConvertZSetToDelta(res, p.target)
 	if err != nil {
+		rollback()
 		return nil, NewPipelineError(fmt.Errorf("failed to convert DBSP zset to delta: %w", err))
 	}
 
@@ -233,6 +238,51 @@ func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
 	return deltas, nil
 }
 
+// prepareRollback returns a function that restores the state of the pipeline as it was before the
+// given source object was changed, by restoring the object in the source cache and replaying the
+// source caches into the executor. Otherwise the delta that could not be processed would be taken
+// for granted when the next one is processed for the same object.
+func (p *Pipeline) prepareRollback(obj object.Object) func() {
+	gvk := obj.GetObjectKind().GroupVersionKind()
+	var old object.Object
+	if store, ok := p.sourceCache[gvk]; ok {
+		if o, exists, err := store.Get(obj); err == nil && exists {
+			old = o
+		}
+	}
+
+	return func() {
+		store := p.sourceCache[gvk]
+		var err error
+		if old != nil {
+			err = store.Update(old)
+		} else {
+			err = store.Delete(obj)
+		}
+		if err != nil {
+			p.log.Error(err, "failed to restore source cache", "object", ObjectKey(obj))
+		}
+
+		p.executor.Reset()
+		inputs := make(map[string]*dbsp.DocumentZSet, len(p.sources))
+		for _, src := range p.sources {
+			inputs[src.Kind] = dbsp.NewDocumentZSet()
+			store, ok := p.sourceCache[src]
+			if !ok {
+				continue
+			}
+			for _, o := range store.List() {
+				if err := inputs[src.Kind].AddDocumentMutate(o.UnstructuredContent(), 1); err != nil {
+					p.log.Error(err, "failed to restore executor", "object", ObjectKey(o))
+				}
+			}
+		}
+		if _, err := p.executor.Process(inputs); err != nil {
+			p.log.Error(err, "failed to restore executor")
+		}
+	}
+}
+
 // Sync performs state-of-the-world reconciliation by computing the delta needed to bring the
 // target state up to date with the current source state.
 //
-- 
2.43.0


From e43bab6068ae14a01781105389f73dfc8443fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 17/65] fix: retry updates of target objects that turn out to
 be gone

---
 pkg/reconciler/ctrlutils.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index b1cc6a9..df7fe1d 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -76,9 +76,14 @@ func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f c
 	newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
 
 	if err := c.Update(ctx, obj); err != nil {
-		// There is nothing to update: report why the object could not be created (not as a
-		// NotFound error, which would mean that the object has disappeared).
-		if createErr != nil && apierrors.IsNotFound(err) {
+		// There is nothing to update: report why the object could not be created or, if it has
+		// not been tried since the object seemed to exist (it has been deleted since then, or
+		// the cache is lagging behind), that it is gone. This is not a NotFound error, which
+		// would mean that there is nothing left to do.
+		if apierrors.IsNotFound(err) {
+			if createErr == nil {
+				createErr = err
+			}
 			return controllerutil.OperationResultNone, fmt.Errorf("cannot create object: %v", createErr)
 		}
 		return controllerutil.OperationResultNone, err
-- 
2.43.0


From 42f78587ab238e3d85e62bb21212d3856cd50cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 18/65] fix: drop pending target writes that a deletion
 supersedes

---
 pkg/controller/writer.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/controller/writer.go b/pkg/controller/writer.go
index 0d5c589..eeebc51 100644
--- a/pkg/controller/writer.go
+++ b/pkg/controller/writer.go
@@ -58,6 +58,10 @@ func (w *writer) flush(req reconciler.Request, write func(req reconciler.Request
 			i++
 			continue
 		}
+		if w.superseded(i) {
+			w.pending = append(w.pending[:i], w.pending[i+1:]...)
+			continue
+		}
 		if err := write(p.req, p.delta); err != nil {
 			return err
 		}
@@ -66,3 +70,14 @@ func (w *writer) flush(req reconciler.Request, write func(req reconciler.Request
 
 	return nil
 }
+
+// superseded tells whether a pending delta is for an object that a later pending delta deletes.
+func (w *writer) superseded(i int) bool {
+	key := client.ObjectKeyFromObject(w.pending[i].delta.Object)
+	for _, p := range w.pending[i+1:] {
+		if p.delta.Type == object.Deleted && client.ObjectKeyFromObject(p.delta.Object) == key {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 0935d096512b754f31f70c2f8cbf54fd038d919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 19/65] fix: honour every form of list options in the view
 cache

---
 pkg/cache/view_cache.go  | 46 ++++++----------------------------------
 pkg/cache/view_client.go | 19 +++--------------
 2 files changed, 9 insertions(+), 56 deletions(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index ce8d5e6..89616f3 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -454,26 +454,9 @@ func (c *ViewCache) List(ctx context.Context, list client.ObjectList, opts ...cl
 	c.log.V(5).Info("list", "listGVK", listGVK, "objGVK", objGVK)
 
 	// Extract selectors from options
-	var labelSelector labels.Selector
-	var fieldSelector fields.Selector
-	var namespace string
-
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.MatchingLabelsSelector:
-			labelSelector = o.Selector
-		case client.MatchingLabels:
-			set := (map[string]string)(o)
-			labelSelector = labels.SelectorFromSet(set)
-		case client.MatchingFields:
-			set := (fields.Set)(o)
-			fieldSelector = fields.SelectorFromSet(set)
-		case client.MatchingFieldsSelector:
-			fieldSelector = o.Selector
-		case client.InNamespace:
-			namespace = string(o)
-		}
-	}
+	lo := client.ListOptions{}
+	lo.ApplyOptions(opts)
+	labelSelector, fieldSelector, namespace := lo.LabelSelector, lo.FieldSelector, lo.Namespace
 
 	for _, item := range cache.List() {
 		target, ok := item.(object.Object)
@@ -556,26 +539,9 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 	}
 
 	// Extract selectors from options (same logic as List method)
-	var labelSelector labels.Selector
-	var fieldSelector fields.Selector
-	var namespace string
-
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.MatchingLabelsSelector:
-			labelSelector = o.Selector
-		case client.MatchingLabels:
-			set := (map[string]string)(o)
-			labelSelector = labels.SelectorFromSet(set)
-		case client.MatchingFields:
-			set := (fields.Set)(o)
-			fieldSelector = fields.SelectorFromSet(set)
-		case client.MatchingFieldsSelector:
-			fieldSelector = o.Selector
-		case client.InNamespace:
-			namespace = string(o)
-		}
-	}
+	lo := client.ListOptions{}
+	lo.ApplyOptions(opts)
+	labelSelector, fieldSelector, namespace := lo.LabelSelector, lo.FieldSelector, lo.Namespace
 
 	watcher := &ViewCacheWatcher{
 		eventChan:     make(chan watch.Event, DefaultWatchChannelBuffer),
diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 88dc34c..2f95133 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -138,21 +138,8 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 // DeleteAllOf deletes all objects of the given type matching the given options.
 func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, opts ...client.DeleteAllOfOption) error {
 	// Convert delete options to list options
-	var listOpts []client.ListOption
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.InNamespace:
-			listOpts = append(listOpts, o)
-		case client.MatchingLabels:
-			listOpts = append(listOpts, o)
-		case client.MatchingFields:
-			listOpts = append(listOpts, o)
-		case client.MatchingLabelsSelector:
-			listOpts = append(listOpts, o)
-		case client.MatchingFieldsSelector:
-			listOpts = append(listOpts, o)
-		}
-	}
+	do := client.DeleteAllOfOptions{}
+	do.ApplyOptions(opts)
 
 	// List all matching objects
 	viewObj, ok := obj.(object.Object)
@@ -161,7 +148,7 @@ func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 	}
 
 	list := NewViewObjectList(object.GetOperator(viewObj), viewObj.GetKind())
-	if err := c.cache.List(ctx, list, listOpts...); err != nil {
+	if err := c.cache.List(ctx, list, &do.ListOptions); err != nil {
 		return err
 	}
 
-- 
2.43.0


From b203c808a00b8d40330bf58914a0c95e4ea511eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 20/65] fix: replace the items of a list that is passed to the
 view cache again

---
 pkg/cache/view_cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index 89616f3..f1254cf 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -458,6 +458,11 @@ func (c *ViewCache) List(ctx context.Context, list client.ObjectList, opts ...cl
 	lo.ApplyOptions(opts)
 	labelSelector, fieldSelector, namespace := lo.LabelSelector, lo.FieldSelector, lo.Namespace
 
+	// The result replaces what the list held before.
+	if l, ok := list.(object.ObjectList); ok {
+		l.Items = nil
+	}
+
 	for _, item := range cache.List() {
 		target, ok := item.(object.Object)
 		if !ok {
-- 
2.43.0


From 4a7fa952051871805b862c59b6f251ce82614411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 21/65] fix: let the view client find objects by their own kind

---
 pkg/cache/view_client.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 2f95133..c4d309d 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -40,6 +40,14 @@ func (c *ViewCacheClient) SetCache(cache ViewCacheInterface) {
 	c.cache = cache
 }
 
+// newObject creates an empty object of the same kind.
+func newObject(obj object.Object) object.Object {
+	ret := object.New()
+	ret.SetUnstructuredContent(map[string]any{})
+	ret.SetGroupVersionKind(obj.GroupVersionKind())
+	return ret
+}
+
 // Client interface implementation.
 
 // Get retrieves an obj for the given object key from the ViewCache.
@@ -83,7 +91,7 @@ func (c *ViewCacheClient) Update(ctx context.Context, obj client.Object, opts ..
 	}
 
 	// For updates, we need to get the old object first
-	oldObj := object.NewViewObject(object.GetOperator(newObj), newObj.GetKind())
+	oldObj := newObject(newObj)
 	object.SetName(oldObj, newObj.GetNamespace(), newObj.GetName())
 
 	// Get the current version from cache
@@ -111,7 +119,7 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 	}
 
 	// Get current object
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
+	current := newObject(o)
 	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
 		return fmt.Errorf("cannot patch object with key %s: %w", client.ObjectKeyFromObject(obj), err)
 	}
@@ -147,7 +155,8 @@ func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 		return fmt.Errorf("object must implement object.Object interface")
 	}
 
-	list := NewViewObjectList(object.GetOperator(viewObj), viewObj.GetKind())
+	list := &unstructured.UnstructuredList{}
+	list.SetGroupVersionKind(NewViewDiscovery().ListGVKFromObjectGVK(viewObj.GroupVersionKind()))
 	if err := c.cache.List(ctx, list, &do.ListOptions); err != nil {
 		return err
 	}
@@ -229,7 +238,7 @@ func (sr *viewSubResourceClient) Get(ctx context.Context, obj, subResource clien
 		return errors.New("sub-resource must be an object.Object")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
+	current := newObject(o)
 	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
 		return err
 	}
@@ -265,7 +274,7 @@ func (sr *viewSubResourceClient) Create(ctx context.Context, obj client.Object,
 		return errors.New("no status sub-resource in object argument")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
+	current := newObject(o)
 	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
 		return err
 	}
@@ -284,7 +293,7 @@ func (sr *viewSubResourceClient) Update(ctx context.Context, obj client.Object,
 		return errors.New("object must be an object.Object")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
+	current := newObject(o)
 	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
 		return err
 	}
-- 
2.43.0


From 92a2a6acf33598104700bcf947430baffbfc181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 22/65] fix: make the composite client and cache work without a
 native client

---
 pkg/cache/client.go    | 11 ++++++-----
 pkg/cache/composite.go |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index 21656aa..ac72b72 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -143,10 +143,11 @@ func (c *CompositeClient) Watch(ctx context.Context, list client.ObjectList, opt
 // view-object client already writes the status if requested, but still needed because native
 // objects' status can only be updated via the status-writer
 func (c *CompositeClient) Status() client.SubResourceWriter {
-	return &compositeSubResourceClient{
-		viewSubResourceClient: c.viewClient.SubResource("status"),
-		SubResourceClient:     c.SubResource("status"),
+	ret := &compositeSubResourceClient{viewSubResourceClient: c.viewClient.SubResource("status")}
+	if c.Client != nil { // there is no native client without a REST config
+		ret.SubResourceClient = c.SubResource("status")
 	}
+	return ret
 }
 
 // compositeSubResourceClient implements a status client.
@@ -157,7 +158,7 @@ type compositeSubResourceClient struct {
 
 // Get returns the status on the given obj.
 func (c *compositeSubResourceClient) Get(ctx context.Context, obj, subResource client.Object, opts ...client.SubResourceGetOption) error {
-	if viewv1a1.IsViewKind(subResource.GetObjectKind().GroupVersionKind()) {
+	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Get(ctx, obj, subResource, opts...)
 	}
 	return c.SubResourceClient.Get(ctx, obj, subResource, opts...)
@@ -165,7 +166,7 @@ func (c *compositeSubResourceClient) Get(ctx context.Context, obj, subResource c
 
 // Create saves the status on the given obj.
 func (c *compositeSubResourceClient) Create(ctx context.Context, obj client.Object, subResource client.Object, opts ...client.SubResourceCreateOption) error {
-	if viewv1a1.IsViewKind(subResource.GetObjectKind().GroupVersionKind()) {
+	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Create(ctx, obj, subResource, opts...)
 	}
 	return c.SubResourceClient.Create(ctx, obj, subResource, opts...)
diff --git a/pkg/cache/composite.go b/pkg/cache/composite.go
index 18ae627..16dee0c 100644
--- a/pkg/cache/composite.go
+++ b/pkg/cache/composite.go
@@ -137,7 +137,8 @@ func (cc *CompositeCache) Start(ctx context.Context) error {
 
 // WaitForCacheSync waits for all the caches to sync. Returns false if it could not sync a cache.c
 func (cc *CompositeCache) WaitForCacheSync(ctx context.Context) bool {
-	return cc.viewCache.WaitForCacheSync(ctx) && cc.defaultCache.WaitForCacheSync(ctx)
+	return cc.viewCache.WaitForCacheSync(ctx) &&
+		(cc.defaultCache == nil || cc.defaultCache.WaitForCacheSync(ctx))
 }
 
 // IndexField adds an index with the given field name on the given object type.
-- 
2.43.0


From 0781dfa96266a7c014e320faf39f24c1a8e12ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 23/65] fix: hand every view event handler its own copy of the
 old object

---
 pkg/cache/view_cache_informer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cache/view_cache_informer.go b/pkg/cache/view_cache_informer.go
index 0e6bde1..2729ce1 100644
--- a/pkg/cache/view_cache_informer.go
+++ b/pkg/cache/view_cache_informer.go
@@ -178,7 +178,7 @@ func (c *ViewCacheInformer) TriggerEvent(eventType toolscache.DeltaType, oldObj,
 			handler.OnAdd(object.DeepCopy(newObj), false)
 			events++
 		case toolscache.Updated:
-			handler.OnUpdate(oldObj, object.DeepCopy(newObj))
+			handler.OnUpdate(object.DeepCopy(oldObj), object.DeepCopy(newObj))
 			events++
 		case toolscache.Deleted:
 			handler.OnDelete(object.DeepCopy(newObj))
-- 
2.43.0


From 5122a6deb340fa0dfc8750d68e900599b5ca31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 24/65] fix: tell watchers about objects that leave their
 selector

---
 pkg/cache/view_cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index f1254cf..ead3c5e 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -567,6 +567,9 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 			// Check if object matches selectors after update
 			if watcher.shouldIncludeObject(newObj) {
 				watcher.sendEvent(watch.Modified, newObj)
+			} else if watcher.shouldIncludeObject(oldObj) {
+				// The object disappears from the view of the watcher.
+				watcher.sendEvent(watch.Deleted, newObj)
 			}
 		},
 		DeleteFunc: func(obj any) {
-- 
2.43.0


From 3dec54b4a5645714f40743f3653aef27b1da1474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 25/65] fix: never drop or delay the events of a slow watcher

---
 pkg/cache/view_cache.go | 42 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index ead3c5e..e5c0144 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"time"
 
 	"github.com/go-logr/logr"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
@@ -551,6 +550,7 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 	watcher := &ViewCacheWatcher{
 		eventChan:     make(chan watch.Event, DefaultWatchChannelBuffer),
 		stopCh:        make(chan struct{}),
+		wakeCh:        make(chan struct{}, 1),
 		labelSelector: labelSelector,
 		fieldSelector: fieldSelector,
 		namespace:     namespace,
@@ -586,6 +586,8 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 		return nil, fmt.Errorf("failed to add event handler: %w", err)
 	}
 
+	go watcher.run()
+
 	go func() {
 		<-ctx.Done()
 
@@ -624,7 +626,9 @@ var _ watch.Interface = &ViewCacheWatcher{}
 type ViewCacheWatcher struct {
 	eventChan chan watch.Event
 	stopCh    chan struct{}
+	wakeCh    chan struct{}
 	mutex     sync.Mutex
+	pending   []watch.Event
 	stopped   bool
 
 	labelSelector labels.Selector
@@ -680,7 +684,7 @@ func (w *ViewCacheWatcher) matchesFieldSelector(obj object.Object, selector fiel
 	return selector.Matches(fieldSet)
 }
 
-// sendEvent sends a watch event on the event channel.
+// sendEvent queues a watch event for the event channel. It never blocks the writer.
 func (w *ViewCacheWatcher) sendEvent(eventType watch.EventType, o any) {
 	obj, ok := o.(object.Object)
 	if !ok {
@@ -699,11 +703,36 @@ func (w *ViewCacheWatcher) sendEvent(eventType watch.EventType, o any) {
 
 	w.logger.V(8).Info("watcher sending object", "object", object.Dump(obj))
 
+	w.pending = append(w.pending, event)
 	select {
-	case w.eventChan <- event:
-	case <-time.After(time.Second):
-		// If we can't send the event in 1 second, log and continue
-		w.logger.Info("failed to send event, channel might be full", "event", event)
+	case w.wakeCh <- struct{}{}:
+	default:
+	}
+}
+
+// run passes the queued events on to the event channel until the watcher is stopped.
+func (w *ViewCacheWatcher) run() {
+	defer close(w.eventChan)
+
+	for {
+		w.mutex.Lock()
+		events := w.pending
+		w.pending = nil
+		w.mutex.Unlock()
+
+		for _, event := range events {
+			select {
+			case w.eventChan <- event:
+			case <-w.stopCh:
+				return
+			}
+		}
+
+		select {
+		case <-w.wakeCh:
+		case <-w.stopCh:
+			return
+		}
 	}
 }
 
@@ -715,7 +744,6 @@ func (w *ViewCacheWatcher) Stop() {
 	if !w.stopped {
 		w.stopped = true
 		close(w.stopCh)
-		close(w.eventChan)
 	}
 }
 
-- 
2.43.0


From 3c0898aa623dc5fa93c6ecb120f4065267991fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 26/65] fix: deliver view events completely, once and in order
 under concurrent use

---
 pkg/cache/delegating_view_cache.go |   5 +
 pkg/cache/event_queue.go           |  71 +++++++++++++
 pkg/cache/view_cache.go            | 164 ++++++++++++++++-------------
 pkg/cache/view_cache_informer.go   |  82 ++++++++++-----
 4 files changed, 224 insertions(+), 98 deletions(-)
 create mode 100644 pkg/cache/event_queue.go

diff --git a/pkg/cache/delegating_view_cache.go b/pkg/cache/delegating_view_cache.go
index 4959b91..b7ae5fc 100644
--- a/pkg/cache/delegating_view_cache.go
+++ b/pkg/cache/delegating_view_cache.go
@@ -302,3 +302,8 @@ func (d *DelegatingViewCache) Delete(obj object.Object) error {
 	// Delegate to shared storage
 	return d.storage.Delete(obj)
 }
+
+// modify replaces an object in the shared storage with what f makes of it.
+func (d *DelegatingViewCache) modify(obj object.Object, f func(current object.Object) (object.Object, error)) error {
+	return d.storage.modify(obj, f)
+}
diff --git a/pkg/cache/event_queue.go b/pkg/cache/event_queue.go
new file mode 100644
index 0000000..806cdb0
--- /dev/null
+++ b/pkg/cache/event_queue.go
@@ -0,0 +1,71 @@
+package cache
+
+import (
+	"sync"
+
+	toolscache "k8s.io/client-go/tools/cache"
+)
+
+// viewStore is the store of the objects of a single kind. It keeps the events in the order of the
+// changes: whoever changes the store queues the notification in the same step, and the queue is
+// delivered one notification at a time. Notifications are delivered with no lock held, so event
+// handlers are free to use the cache.
+type viewStore struct {
+	toolscache.Indexer
+	eventQueue
+}
+
+// eventQueue is a queue of notifications.
+type eventQueue struct {
+	mu     sync.Mutex
+	queue  []func()
+	active bool
+}
+
+// apply makes a change, queues the notification of it (if any), and delivers what is in the queue.
+// If another goroutine is in the course of delivering events then it will deliver this one too.
+func (q *eventQueue) apply(change func() (func(), error)) error {
+	if err := q.enqueue(change); err != nil {
+		return err
+	}
+
+	for q.deliver() {
+	}
+
+	return nil
+}
+
+func (q *eventQueue) enqueue(change func() (func(), error)) error {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+
+	notify, err := change()
+	if err == nil && notify != nil {
+		q.queue = append(q.queue, notify)
+	}
+
+	return err
+}
+
+// deliver delivers a single notification. It returns false if there was nothing to do.
+func (q *eventQueue) deliver() bool {
+	q.mu.Lock()
+	if q.active || len(q.queue) == 0 {
+		q.mu.Unlock()
+		return false
+	}
+	notify := q.queue[0]
+	q.queue = q.queue[1:]
+	q.active = true
+	q.mu.Unlock()
+
+	defer func() {
+		q.mu.Lock()
+		q.active = false
+		q.mu.Unlock()
+	}()
+
+	notify()
+
+	return true
+}
diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index e5c0144..de962e2 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"slices"
 	"sync"
 
 	"github.com/go-logr/logr"
@@ -80,7 +81,7 @@ func (c *ViewCache) RegisterCacheForKind(gvk schema.GroupVersionKind) error {
 		toolscache.Indexers{toolscache.NamespaceIndex: toolscache.MetaNamespaceIndexFunc},
 	)
 
-	c.caches[gvk] = indexer
+	c.caches[gvk] = &viewStore{Indexer: indexer}
 
 	return nil
 }
@@ -220,13 +221,9 @@ func (c *ViewCache) GetInformerForKind(ctx context.Context, gvk schema.GroupVers
 func (c *ViewCache) RemoveInformer(ctx context.Context, obj client.Object) error {
 	gvk := obj.GetObjectKind().GroupVersionKind()
 
-	c.mu.RLock()
-	_, exists := c.informers[gvk]
-	c.mu.RUnlock()
-
-	if exists {
-		delete(c.informers, gvk)
-	}
+	c.mu.Lock()
+	delete(c.informers, gvk)
+	c.mu.Unlock()
 
 	return nil
 }
@@ -253,29 +250,34 @@ func (c *ViewCache) Add(obj object.Object) error {
 	// Make sure to have a valid UID.
 	object.WithUID(obj)
 
-	// Add object to the cache.
-	if err := cache.Add(obj); err != nil {
-		return err
-	}
+	return cache.(*viewStore).apply(func() (func(), error) {
+		// Add object to the cache.
+		if err := cache.Add(obj); err != nil {
+			return nil, err
+		}
+
+		return func() { c.notify(gvk, toolscache.Added, nil, obj) }, nil
+	})
+}
 
+// notify triggers an event on all the informers of a kind.
+func (c *ViewCache) notify(gvk schema.GroupVersionKind, eventType toolscache.DeltaType, oldObj, newObj object.Object) {
+	// Trigger event on shared informer
 	informer, err := c.GetInformerForKind(context.Background(), gvk)
 	if err != nil {
-		return err
+		c.log.Error(err, "no informer", "gvk", gvk)
+	} else {
+		informer.(*ViewCacheInformer).TriggerEvent(eventType, oldObj, newObj, false)
 	}
 
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Added, nil, obj, false)
-
 	// Also trigger event on all delegating informers
 	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
+	delegatingInfs := slices.Clone(c.delegatingInformers[gvk])
 	c.mu.RUnlock()
 
 	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Added, nil, obj, false)
+		dinf.TriggerEvent(eventType, oldObj, newObj, false)
 	}
-
-	return nil
 }
 
 // Update modifies the object stored in the cache.
@@ -291,42 +293,73 @@ func (c *ViewCache) Update(oldObj, newObj object.Object) error {
 		return fmt.Errorf("not a view GVK: %s", gvk)
 	}
 
-	if object.DeepEqual(oldObj, newObj) {
-		c.log.V(4).Info("update: suppressing object update", "gvk", gvk,
-			"key", client.ObjectKeyFromObject(newObj).String())
-		return nil
-	}
-
-	c.log.V(5).Info("update", "gvk", gvk, "key", client.ObjectKeyFromObject(newObj).String(),
-		"object", object.Dump(newObj))
-
 	cache, err := c.GetCacheForKind(gvk)
 	if err != nil {
 		return err
 	}
 
-	if err := cache.Update(newObj); err != nil {
-		return err
-	}
+	return cache.(*viewStore).apply(func() (func(), error) {
+		// What gets replaced is what is stored now: the caller may have seen an earlier version.
+		item, exists, err := cache.Get(newObj)
+		if err != nil {
+			return nil, err
+		}
+		if exists {
+			oldObj = item.(object.Object)
+		}
 
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
+		return c.update(cache, oldObj, newObj)
+	})
+}
+
+// modify replaces an object stored in the cache with what f makes of it. Nobody else can change the
+// object in between.
+func (c *ViewCache) modify(obj object.Object, f func(current object.Object) (object.Object, error)) error {
+	gvk := obj.GetObjectKind().GroupVersionKind()
+	cache, err := c.GetCacheForKind(gvk)
 	if err != nil {
 		return err
 	}
 
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Updated, oldObj, newObj, false)
+	return cache.(*viewStore).apply(func() (func(), error) {
+		item, exists, err := cache.Get(obj)
+		if err != nil {
+			return nil, err
+		}
+		if !exists {
+			return nil, apierrors.NewNotFound(schema.GroupResource{Group: gvk.Group, Resource: gvk.Kind},
+				client.ObjectKeyFromObject(obj).String())
+		}
 
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
+		oldObj := item.(object.Object)
+		newObj, err := f(object.DeepCopy(oldObj))
+		if err != nil {
+			return nil, err
+		}
+		newObj = object.DeepCopy(newObj)
+		object.WithUID(newObj)
 
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Updated, oldObj, newObj, false)
+		return c.update(cache, oldObj, newObj)
+	})
+}
+
+// update stores the new version of an object, unless nothing changes, and returns the notification.
+func (c *ViewCache) update(cache toolscache.Indexer, oldObj, newObj object.Object) (func(), error) {
+	gvk := newObj.GetObjectKind().GroupVersionKind()
+	if object.DeepEqual(oldObj, newObj) {
+		c.log.V(4).Info("update: suppressing object update", "gvk", gvk,
+			"key", client.ObjectKeyFromObject(newObj).String())
+		return nil, nil
 	}
 
-	return nil
+	c.log.V(5).Info("update", "gvk", gvk, "key", client.ObjectKeyFromObject(newObj).String(),
+		"object", object.Dump(newObj))
+
+	if err := cache.Update(newObj); err != nil {
+		return nil, err
+	}
+
+	return func() { c.notify(gvk, toolscache.Updated, oldObj, newObj) }, nil
 }
 
 // Delete removes an object from the cache.
@@ -355,39 +388,24 @@ func (c *ViewCache) Delete(obj object.Object) error {
 		return err
 	}
 
-	existingObj, exists, err := cache.GetByKey(key)
-	if err != nil {
-		return err
-	}
-	if !exists {
-		return apierrors.NewNotFound(schema.GroupResource{
-			Group:    obj.GetObjectKind().GroupVersionKind().Group,
-			Resource: obj.GetObjectKind().GroupVersionKind().Kind,
-		}, key)
-	}
-
-	if err := cache.Delete(existingObj); err != nil {
-		return err
-	}
-
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
-	if err != nil {
-		return err
-	}
-
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Deleted, nil, existingObj.(object.Object), false)
-
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
+	return cache.(*viewStore).apply(func() (func(), error) {
+		existingObj, exists, err := cache.GetByKey(key)
+		if err != nil {
+			return nil, err
+		}
+		if !exists {
+			return nil, apierrors.NewNotFound(schema.GroupResource{
+				Group:    obj.GetObjectKind().GroupVersionKind().Group,
+				Resource: obj.GetObjectKind().GroupVersionKind().Kind,
+			}, key)
+		}
 
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Deleted, nil, existingObj.(object.Object), false)
-	}
+		if err := cache.Delete(existingObj); err != nil {
+			return nil, err
+		}
 
-	return nil
+		return func() { c.notify(gvk, toolscache.Deleted, nil, existingObj.(object.Object)) }, nil
+	})
 }
 
 // IndexField adds an index with the given field name on the given object type.
diff --git a/pkg/cache/view_cache_informer.go b/pkg/cache/view_cache_informer.go
index 2729ce1..1cdb09e 100644
--- a/pkg/cache/view_cache_informer.go
+++ b/pkg/cache/view_cache_informer.go
@@ -22,7 +22,8 @@ var _ toolscache.SharedIndexInformer = &ViewCacheInformer{}
 type ViewCacheInformer struct {
 	gvk            schema.GroupVersionKind // just for logging
 	cache          toolscache.Indexer
-	handlers       map[int64]handlerEntry
+	events         *eventQueue
+	handlers       map[int64]*handlerEntry
 	handlerCounter int64
 	mutex          sync.RWMutex
 	transform      toolscache.TransformFunc
@@ -33,12 +34,13 @@ type ViewCacheInformer struct {
 // handlerEntry defines a handler.
 type handlerEntry struct {
 	toolscache.ResourceEventHandler
-	id int64
+	id              int64
+	synced, removed atomic.Bool
 }
 
-// HasSynced return true if the informers underlying store has synced.
+// HasSynced return true if the handler has received the initial object list.
 func (h *handlerEntry) HasSynced() bool {
-	return true
+	return h.synced.Load()
 }
 
 // NewViewCacheInformer returns a new informer for the view cache.
@@ -47,10 +49,16 @@ func NewViewCacheInformer(gvk schema.GroupVersionKind, indexer toolscache.Indexe
 		logger = logr.Discard()
 	}
 
+	events := &eventQueue{}
+	if store, ok := indexer.(*viewStore); ok {
+		events = &store.eventQueue
+	}
+
 	return &ViewCacheInformer{
 		gvk:      gvk,
 		cache:    indexer,
-		handlers: make(map[int64]handlerEntry),
+		events:   events,
+		handlers: make(map[int64]*handlerEntry),
 		log:      logger.WithValues("GVK", gvk.String()),
 	}
 }
@@ -59,31 +67,54 @@ func NewViewCacheInformer(gvk schema.GroupVersionKind, indexer toolscache.Indexe
 
 // AddEventHandler adds an event handler to the shared informer.
 func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHandler) (toolscache.ResourceEventHandlerRegistration, error) {
-	c.mutex.Lock()
-
-	id := atomic.AddInt64(&c.handlerCounter, 1)
-	he := handlerEntry{
+	he := &handlerEntry{
 		ResourceEventHandler: handler,
-		id:                   id,
+		id:                   atomic.AddInt64(&c.handlerCounter, 1),
+	}
+
+	// The handler gets the objects that are in the cache right now, followed by whatever changes
+	// from here on.
+	if err := c.events.apply(func() (func(), error) {
+		items := c.cache.List()
+		for _, item := range items {
+			if _, ok := item.(object.Object); !ok {
+				return nil, apierrors.NewInternalError(errors.New("cache must store object.Objects only"))
+			}
+		}
+
+		return func() { c.register(he, items) }, nil
+	}); err != nil {
+		return nil, err
+	}
+
+	return he, nil
+}
+
+// register puts a handler in charge and sends the initial object list to it.
+func (c *ViewCacheInformer) register(he *handlerEntry, items []any) {
+	c.mutex.Lock()
+	if he.removed.Load() {
+		c.mutex.Unlock()
+		return
 	}
-	c.handlers[id] = he
+	c.handlers[he.id] = he
+	transform := c.transform
 	c.mutex.Unlock()
 
-	c.log.V(4).Info("registering event handler: sending initial object list", "handler-id", id,
-		"cache-size", len(c.cache.List()))
+	c.log.V(4).Info("registering event handler: sending initial object list", "handler-id", he.id,
+		"cache-size", len(items))
 
 	// Send initial events to the newly registered handler
-	for _, item := range c.cache.List() {
-		obj, ok := item.(object.Object)
-		if !ok {
-			return nil, apierrors.NewInternalError(errors.New("cache must store object.Objects only"))
+	for _, item := range items {
+		if he.removed.Load() {
+			return
 		}
 
 		// Apply transform if needed (same logic as TriggerEvent)
-		newObj := obj
-		if c.transform != nil {
+		newObj := item.(object.Object)
+		if transform != nil {
 			newObj = object.DeepCopy(newObj)
-			item, err := c.transform(newObj)
+			item, err := transform(newObj)
 			if err != nil {
 				c.log.Error(err, "Failed to transform object during initial sync")
 				continue
@@ -98,10 +129,10 @@ func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHand
 		}
 
 		// Send to the newly registered handler
-		handler.OnAdd(object.DeepCopy(newObj), true)
+		he.OnAdd(object.DeepCopy(newObj), true)
 	}
 
-	return &he, nil
+	he.synced.Store(true)
 }
 
 // AddEventHandlerWithResyncPeriod adds an event handler to the shared informer informer using the
@@ -126,6 +157,7 @@ func (c *ViewCacheInformer) RemoveEventHandler(registration toolscache.ResourceE
 
 	if reg, ok := registration.(*handlerEntry); ok {
 		c.log.V(4).Info("removing  event handler: ready", "handler-id", reg.id)
+		reg.removed.Store(true)
 		delete(c.handlers, reg.id)
 		return nil
 	}
@@ -137,15 +169,15 @@ func (c *ViewCacheInformer) RemoveEventHandler(registration toolscache.ResourceE
 // isInitialList to true if event is an Added as a part of the initial object list. For all event
 // types except Update events the oldObj must not be nil.
 func (c *ViewCacheInformer) TriggerEvent(eventType toolscache.DeltaType, oldObj, newObj object.Object, isInitialList bool) {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	if len(c.handlers) == 0 {
 		c.log.V(4).Info("suppressing event trigger: no handlers", "event", eventType,
 			"object", object.Dump(newObj))
 		return
 	}
 
-	c.mutex.RLock()
-	defer c.mutex.RUnlock()
-
 	c.log.V(8).Info("triggering event", "event", eventType, "object", object.Dump(newObj),
 		"isInitial", isInitialList)
 
-- 
2.43.0


From ec64a727740d1cebb91f7cc774967d5a25a4d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 27/65] fix: make updates and patches of view objects atomic

---
 pkg/cache/view_client.go | 107 ++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 57 deletions(-)

diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index c4d309d..2912c7c 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"errors"
 	"fmt"
-	"reflect"
 
 	"k8s.io/apimachinery/pkg/api/meta"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
@@ -40,6 +39,30 @@ func (c *ViewCacheClient) SetCache(cache ViewCacheInterface) {
 	c.cache = cache
 }
 
+// modifier is a cache that can read and replace an object in a single step.
+type modifier interface {
+	modify(obj object.Object, f func(current object.Object) (object.Object, error)) error
+}
+
+// modify replaces the stored version of an object with what f makes of it.
+func (c *ViewCacheClient) modify(ctx context.Context, obj object.Object, f func(current object.Object) (object.Object, error)) error {
+	if m, ok := c.cache.(modifier); ok {
+		return m.modify(obj, f)
+	}
+
+	current := newObject(obj)
+	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
+		return err
+	}
+
+	newObj, err := f(object.DeepCopy(current))
+	if err != nil {
+		return err
+	}
+
+	return c.cache.Update(current, newObj)
+}
+
 // newObject creates an empty object of the same kind.
 func newObject(obj object.Object) object.Object {
 	ret := object.New()
@@ -90,25 +113,15 @@ func (c *ViewCacheClient) Update(ctx context.Context, obj client.Object, opts ..
 		return fmt.Errorf("object must implement object.Object interface")
 	}
 
-	// For updates, we need to get the old object first
-	oldObj := newObject(newObj)
-	object.SetName(oldObj, newObj.GetNamespace(), newObj.GetName())
-
-	// Get the current version from cache
-	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(newObj), oldObj); err != nil {
-		return fmt.Errorf("cannot update object with key %s: %w", client.ObjectKeyFromObject(newObj), err)
-	}
-
-	// Option 3: DeepEqual check is safe here for view objects.
 	// View objects are ephemeral in-memory objects without etcd-based optimistic concurrency
-	// control, so there's no resourceVersion staleness to mask. The cache.Update() call
-	// already has a DeepEqual check (line 295 in view_cache.go), but checking here avoids
-	// unnecessary work when content hasn't changed.
-	if object.DeepEqual(oldObj, newObj) {
-		return nil
+	// control, so there's no resourceVersion staleness to mask.
+	if err := c.modify(ctx, newObj, func(_ object.Object) (object.Object, error) {
+		return newObj, nil
+	}); err != nil {
+		return fmt.Errorf("cannot update object with key %s: %w", client.ObjectKeyFromObject(newObj), err)
 	}
 
-	return c.cache.Update(oldObj, newObj)
+	return nil
 }
 
 // Patch patches the given obj in the ViewCache. Note that obj is NOT updated to the new content.
@@ -118,12 +131,6 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return errors.New("object must be an object.Object")
 	}
 
-	// Get current object
-	current := newObject(o)
-	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return fmt.Errorf("cannot patch object with key %s: %w", client.ObjectKeyFromObject(obj), err)
-	}
-
 	// strategic merge patch not supported in views, falling back to merge-patch
 	j, err := patch.Data(obj)
 	if err != nil {
@@ -135,12 +142,13 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return fmt.Errorf("cannot parse JSON patch: %w", err)
 	}
 
-	newObj := object.DeepCopy(current)
-	if err := object.Patch(newObj, newContent); err != nil {
-		return err
+	if err := c.modify(ctx, o, func(current object.Object) (object.Object, error) {
+		return current, object.Patch(current, newContent)
+	}); err != nil {
+		return fmt.Errorf("cannot patch object with key %s: %w", client.ObjectKeyFromObject(obj), err)
 	}
 
-	return c.cache.Update(current, newObj)
+	return nil
 }
 
 // DeleteAllOf deletes all objects of the given type matching the given options.
@@ -163,7 +171,7 @@ func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 
 	// Delete each object
 	for _, item := range list.Items {
-		if err := c.cache.Delete(&item); err != nil {
+		if err := c.cache.Delete(&item); client.IgnoreNotFound(err) != nil {
 			return err
 		}
 	}
@@ -274,16 +282,12 @@ func (sr *viewSubResourceClient) Create(ctx context.Context, obj client.Object,
 		return errors.New("no status sub-resource in object argument")
 	}
 
-	current := newObject(o)
-	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return err
-	}
-
-	if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
-		return fmt.Errorf("failed to set sub-resource %s to sub-resource: %w", sr.subres, err)
-	}
-
-	return sr.client.Update(ctx, current)
+	return sr.client.modify(ctx, o, func(current object.Object) (object.Object, error) {
+		if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
+			return nil, fmt.Errorf("failed to set sub-resource %s to sub-resource: %w", sr.subres, err)
+		}
+		return current, nil
+	})
 }
 
 // Update updates the subresource for the given object.
@@ -293,11 +297,6 @@ func (sr *viewSubResourceClient) Update(ctx context.Context, obj client.Object,
 		return errors.New("object must be an object.Object")
 	}
 
-	current := newObject(o)
-	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return err
-	}
-
 	sub, ok, err := unstructured.NestedMap(o.UnstructuredContent(), sr.subres)
 	if err != nil {
 		return fmt.Errorf("cannot load %s sub-resource: %w", sr.subres, err)
@@ -305,20 +304,14 @@ func (sr *viewSubResourceClient) Update(ctx context.Context, obj client.Object,
 		return errors.New("no status sub-resource in object argument")
 	}
 
-	// Option 2: Check if the subresource actually changed before updating.
-	// This prevents triggering watch events when the status hasn't changed.
-	currentSub, currentHasSub, _ := unstructured.NestedMap(current.UnstructuredContent(), sr.subres)
-	if currentHasSub && reflect.DeepEqual(currentSub, sub) {
-		// Subresource unchanged, skip the update
-		return nil
-	}
-
-	if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
-		return fmt.Errorf("cannot set sub-resource %s: %w", sr.subres, err)
-	}
-
-	// For ViewCache, status is just part of the object - update the whole object
-	return sr.client.Update(ctx, current)
+	// For ViewCache, status is just part of the object. An update that does not change the
+	// subresource is suppressed by the cache, so it does not trigger watch events.
+	return sr.client.modify(ctx, o, func(current object.Object) (object.Object, error) {
+		if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
+			return nil, fmt.Errorf("cannot set sub-resource %s: %w", sr.subres, err)
+		}
+		return current, nil
+	})
 }
 
 // Patch patches the subresource for the given object.
-- 
2.43.0


From b56e399f0faacc49c03de87cdcb1348d10a3c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 28/65] fix: route subresource accesses of view objects to the
 view client

---
 pkg/cache/client.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index ac72b72..5a5d45c 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -143,9 +143,14 @@ func (c *CompositeClient) Watch(ctx context.Context, list client.ObjectList, opt
 // view-object client already writes the status if requested, but still needed because native
 // objects' status can only be updated via the status-writer
 func (c *CompositeClient) Status() client.SubResourceWriter {
-	ret := &compositeSubResourceClient{viewSubResourceClient: c.viewClient.SubResource("status")}
+	return c.SubResource("status")
+}
+
+// SubResource returns a client for a subresource of both native and view objects.
+func (c *CompositeClient) SubResource(subResource string) client.SubResourceClient {
+	ret := &compositeSubResourceClient{viewSubResourceClient: c.viewClient.SubResource(subResource)}
 	if c.Client != nil { // there is no native client without a REST config
-		ret.SubResourceClient = c.SubResource("status")
+		ret.SubResourceClient = c.Client.SubResource(subResource)
 	}
 	return ret
 }
-- 
2.43.0


From 1e29dc912e3e2be8af13e7d55738a20fee0f0940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 29/65] fix: do not keep the caller's old object in the events
 of an update

---
 pkg/cache/view_cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index de962e2..380077d 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -306,6 +306,8 @@ func (c *ViewCache) Update(oldObj, newObj object.Object) error {
 		}
 		if exists {
 			oldObj = item.(object.Object)
+		} else {
+			oldObj = object.DeepCopy(oldObj)
 		}
 
 		return c.update(cache, oldObj, newObj)
-- 
2.43.0


From 3d430f33064460fbc638f6630961e4514fc72c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 30/65] fix: keep the ends of an access rule's wildcard pattern
 from overlapping

---
 pkg/auth/rbac.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/auth/rbac.go b/pkg/auth/rbac.go
index 39f0c67..e32094d 100644
--- a/pkg/auth/rbac.go
+++ b/pkg/auth/rbac.go
@@ -128,7 +128,9 @@ func matchesWildcard(pattern, value string) bool {
 	// Handle middle wildcard: "foo*bar" (split on first *)
 	parts := strings.SplitN(pattern, "*", 2)
 	if len(parts) == 2 {
-		return strings.HasPrefix(value, parts[0]) && strings.HasSuffix(value, parts[1])
+		// The prefix and the suffix must not overlap: "foo*oo" does not match "foo"
+		return len(value) >= len(parts[0])+len(parts[1]) &&
+			strings.HasPrefix(value, parts[0]) && strings.HasSuffix(value, parts[1])
 	}
 
 	return false
-- 
2.43.0


From 85ffe9c506b62bdee451ab80daac5ef82cd482d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 31/65] fix: stop serving the kinds that a group no longer has
 when it is registered again

---
 pkg/apiserver/registry.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index db83984..541df85 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -2,6 +2,7 @@ package apiserver
 
 import (
 	"fmt"
+	"slices"
 
 	apidiscoveryv2 "k8s.io/api/apidiscovery/v2"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -82,6 +83,13 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		}
 	}
 
+	// Remove the storage of the GVKs that are no longer in the group.
+	for gvk := range s.groupGVKs[group] {
+		if !slices.Contains(gvks, gvk) {
+			s.removeGVKStorage(gvk)
+		}
+	}
+
 	// 3. Register discovery handlers (idempotent).
 	s.registerDiscoveryHandlers(group, gvks)
 
@@ -113,18 +121,7 @@ func (s *APIServer) UnregisterAPIGroup(group string) {
 
 	// Remove storage from resourceHandler.
 	for gvk := range gvks {
-		resource, err := s.findAPIResource(gvk)
-		if err != nil {
-			continue
-		}
-
-		gvr := schema.GroupVersionResource{
-			Group:    gvk.Group,
-			Version:  gvk.Version,
-			Resource: resource.APIResource.Name,
-		}
-
-		s.resourceHandler.removeStorage(gvr)
+		s.removeGVKStorage(gvk)
 	}
 
 	// Remove discovery handlers.
@@ -149,6 +146,20 @@ func (s *APIServer) UnregisterAPIGroup(group string) {
 	s.log.Info("API group unregistered", "group", group)
 }
 
+// removeGVKStorage removes the storage of a GVK from resourceHandler.
+func (s *APIServer) removeGVKStorage(gvk schema.GroupVersionKind) {
+	resource, err := s.findAPIResource(gvk)
+	if err != nil {
+		return
+	}
+
+	s.resourceHandler.removeStorage(schema.GroupVersionResource{
+		Group:    gvk.Group,
+		Version:  gvk.Version,
+		Resource: resource.APIResource.Name,
+	})
+}
+
 // registerDiscoveryHandlers creates and registers discovery handlers for a group.
 // This function is idempotent and can be called multiple times to update discovery info.
 func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupVersionKind) {
-- 
2.43.0


From a9c287f75a893f0847304398564fc8b42a9ba1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 32/65] fix: do not panic when a group is registered without
 kinds

---
 pkg/apiserver/registry.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index 541df85..9554143 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -59,6 +59,12 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		return nil
 	}
 
+	// A group without GVKs is not served.
+	if len(gvks) == 0 {
+		s.unregisterAPIGroup(group)
+		return nil
+	}
+
 	// 1. Add types to scheme (idempotent operation).
 	if err := s.addTypesToScheme(gvks); err != nil {
 		return fmt.Errorf("failed to add types to scheme: %w", err)
@@ -113,6 +119,11 @@ func (s *APIServer) UnregisterAPIGroup(group string) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	s.unregisterAPIGroup(group)
+}
+
+// unregisterAPIGroup removes an API group. Must be called with the lock held.
+func (s *APIServer) unregisterAPIGroup(group string) {
 	gvks, ok := s.groupGVKs[group]
 	if !ok {
 		// Not registered, silently return.
-- 
2.43.0


From ed5f0b7af6ca29dace3467350f8f65ee3462e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 33/65] fix: list the verbs of the view resources in the
 discovery of a version

---
 pkg/apiserver/registry.go | 2 +-
 pkg/apiserver/resource.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index 9554143..648c670 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -229,7 +229,7 @@ func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupV
 				ResponseKind:     &metav1.GroupVersionKind{Group: gvk.Group, Version: gvk.Version, Kind: gvk.Kind},
 				Scope:            apidiscoveryv2.ScopeNamespace, // All views are namespaced
 				SingularResource: resource.APIResource.SingularName,
-				Verbs:            []string{"get", "list", "create", "update", "patch", "delete", "watch"},
+				Verbs:            resource.APIResource.Verbs,
 			})
 		}
 
diff --git a/pkg/apiserver/resource.go b/pkg/apiserver/resource.go
index a0bc7a7..3133c89 100644
--- a/pkg/apiserver/resource.go
+++ b/pkg/apiserver/resource.go
@@ -40,6 +40,7 @@ func (s *APIServer) findAPIResource(gvk schema.GroupVersionKind) (*Resource, err
 			Group:        gvk.Group,
 			Version:      gvk.Version,
 			Kind:         gvk.Kind,
+			Verbs:        []string{"get", "list", "create", "update", "patch", "delete", "watch"},
 		},
 		HasStatus: true,
 	}, nil
-- 
2.43.0


From 3b5ee2fb356ad41745d35ea8555497042b41405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 34/65] fix: generate the name of a created object or refuse it
 instead of storing it without a name

---
 pkg/apiserver/storage.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 600cb98..e781a9e 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -15,6 +15,7 @@ import (
 	"k8s.io/apimachinery/pkg/watch"
 	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
 	"k8s.io/apiserver/pkg/registry/rest"
+	"k8s.io/apiserver/pkg/storage/names"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 )
 
@@ -170,6 +171,14 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 		}
 	}
 
+	// Generate the name if requested.
+	if unstructuredObj.GetName() == "" {
+		if unstructuredObj.GetGenerateName() == "" {
+			return nil, apierrors.NewBadRequest("name or generateName is required")
+		}
+		unstructuredObj.SetName(names.SimpleNameGenerator.GenerateName(unstructuredObj.GetGenerateName()))
+	}
+
 	if err := s.delegatingClient.Create(ctx, unstructuredObj, &client.CreateOptions{Raw: options}); err != nil {
 		if apierrors.IsAlreadyExists(err) {
 			return nil, apierrors.NewAlreadyExists(s.gvr.GroupResource(), unstructuredObj.GetName())
-- 
2.43.0


From e29d841f1e7da76d43d7674e5b2947f997d81d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 35/65] fix: do not perform the requests that are dry runs

---
 pkg/apiserver/resource_handler.go |  6 +++---
 pkg/apiserver/storage.go          | 22 +++++++++++++++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/apiserver/resource_handler.go b/pkg/apiserver/resource_handler.go
index 3e894c1..58a5af8 100644
--- a/pkg/apiserver/resource_handler.go
+++ b/pkg/apiserver/resource_handler.go
@@ -184,12 +184,12 @@ func (h *resourceHandler) routeRequest(
 		handlers.PatchResource(storage, scope, admit, supportedTypes)(w, req)
 
 	case "delete":
-		gracefulDeleter := false
+		allowsOptions := true
 		admit := admission.NewChainHandler()
-		handlers.DeleteResource(storage, gracefulDeleter, scope, admit)(w, req)
+		handlers.DeleteResource(storage, allowsOptions, scope, admit)(w, req)
 
 	case "deletecollection":
-		checkBody := false
+		checkBody := true
 		admit := admission.NewChainHandler()
 		handlers.DeleteCollection(storage, checkBody, scope, admit)(w, req)
 
diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index e781a9e..922ec11 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -16,6 +16,7 @@ import (
 	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
 	"k8s.io/apiserver/pkg/registry/rest"
 	"k8s.io/apiserver/pkg/storage/names"
+	"k8s.io/apiserver/pkg/util/dryrun"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 )
 
@@ -179,6 +180,10 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 		unstructuredObj.SetName(names.SimpleNameGenerator.GenerateName(unstructuredObj.GetGenerateName()))
 	}
 
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return unstructuredObj, nil
+	}
+
 	if err := s.delegatingClient.Create(ctx, unstructuredObj, &client.CreateOptions{Raw: options}); err != nil {
 		if apierrors.IsAlreadyExists(err) {
 			return nil, apierrors.NewAlreadyExists(s.gvr.GroupResource(), unstructuredObj.GetName())
@@ -204,7 +209,11 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 			if err != nil {
 				return nil, false, err
 			}
-			createdObj, err := s.Create(ctx, newObj, createValidation, &metav1.CreateOptions{})
+			createOptions := &metav1.CreateOptions{}
+			if options != nil {
+				createOptions.DryRun = options.DryRun
+			}
+			createdObj, err := s.Create(ctx, newObj, createValidation, createOptions)
 			return createdObj, true, err
 		}
 		return nil, false, err
@@ -231,6 +240,10 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 	// Ensure GVK is set correctly.
 	unstructuredObj.SetGroupVersionKind(s.gvk)
 
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return unstructuredObj, false, nil
+	}
+
 	if err := s.delegatingClient.Update(ctx, unstructuredObj, &client.UpdateOptions{Raw: options}); err != nil {
 		return nil, false, apierrors.NewInternalError(fmt.Errorf("failed to update %s: %w", name, err))
 	}
@@ -258,6 +271,10 @@ func (s *ClientDelegatedStorage) Delete(ctx context.Context, name string, delete
 	}
 
 	unstructuredObj := obj.(*unstructured.Unstructured)
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return unstructuredObj, true, nil
+	}
+
 	if err := s.delegatingClient.Delete(ctx, unstructuredObj, &client.DeleteOptions{Raw: options}); err != nil {
 		if client.IgnoreNotFound(err) == nil {
 			return nil, false, apierrors.NewNotFound(s.gvr.GroupResource(), name)
@@ -282,6 +299,9 @@ func (s *ClientDelegatedStorage) DeleteCollection(ctx context.Context, deleteVal
 	}
 
 	list := listObj.(*unstructured.UnstructuredList)
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return list, nil
+	}
 
 	// Delete each object.
 	for _, item := range list.Items {
-- 
2.43.0


From 4f78864c9052df5a05c4fe0eddfc218581e480b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 36/65] fix: do not lose changes when requests write the same
 object at the same time

---
 pkg/apiserver/storage.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 922ec11..6af665e 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"strings"
+	"sync"
 
 	"github.com/go-logr/logr"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
@@ -32,6 +33,7 @@ type ClientDelegatedStorage struct {
 	gvk                   schema.GroupVersionKind
 	gvr                   schema.GroupVersionResource
 	namespaced, hasStatus bool
+	mu                    sync.Mutex // protects read-modify-write sequences
 	log                   logr.Logger
 }
 
@@ -146,6 +148,13 @@ func (s *ClientDelegatedStorage) List(ctx context.Context, options *metainternal
 
 // Create creates a new object.
 func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object, createValidation rest.ValidateObjectFunc, options *metav1.CreateOptions) (runtime.Object, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	return s.create(ctx, obj, createValidation, options)
+}
+
+func (s *ClientDelegatedStorage) create(ctx context.Context, obj runtime.Object, createValidation rest.ValidateObjectFunc, options *metav1.CreateOptions) (runtime.Object, error) {
 	s.log.V(4).Info("CREATE", "GVR", s.gvr.String())
 
 	// Validate the object if validation function is provided.
@@ -200,6 +209,9 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInfo rest.UpdatedObjectInfo, createValidation rest.ValidateObjectFunc, updateValidation rest.ValidateObjectUpdateFunc, forceAllowCreate bool, options *metav1.UpdateOptions) (runtime.Object, bool, error) {
 	s.log.V(4).Info("UPDATE", "GVR", s.gvr.String(), "name", name)
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Get current object.
 	currentObj, err := s.Get(ctx, name, &metav1.GetOptions{})
 	if err != nil {
@@ -213,7 +225,7 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 			if options != nil {
 				createOptions.DryRun = options.DryRun
 			}
-			createdObj, err := s.Create(ctx, newObj, createValidation, createOptions)
+			createdObj, err := s.create(ctx, newObj, createValidation, createOptions)
 			return createdObj, true, err
 		}
 		return nil, false, err
@@ -257,6 +269,9 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 func (s *ClientDelegatedStorage) Delete(ctx context.Context, name string, deleteValidation rest.ValidateObjectFunc, options *metav1.DeleteOptions) (runtime.Object, bool, error) {
 	s.log.V(4).Info("DELETE", "GVR", s.gvr.String(), "name", name)
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Get the object before deletion.
 	obj, err := s.Get(ctx, name, &metav1.GetOptions{})
 	if err != nil {
@@ -292,6 +307,9 @@ func (s *ClientDelegatedStorage) Delete(ctx context.Context, name string, delete
 func (s *ClientDelegatedStorage) DeleteCollection(ctx context.Context, deleteValidation rest.ValidateObjectFunc, options *metav1.DeleteOptions, listOptions *metainternalversion.ListOptions) (runtime.Object, error) {
 	s.log.V(4).Info("DELETE COLLECTION", "GVR", s.gvr.String())
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// First list all objects to be deleted.
 	listObj, err := s.List(ctx, listOptions)
 	if err != nil {
-- 
2.43.0


From 6ecc475b66a5647a5443dd8118e41862cce954f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 37/65] fix: show the labels of a table in a fixed order

---
 pkg/apiserver/storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 6af665e..dcf5137 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -3,6 +3,7 @@ package apiserver
 import (
 	"context"
 	"fmt"
+	"slices"
 	"strings"
 	"sync"
 
@@ -592,6 +593,7 @@ func formatLabels(labels map[string]string) string {
 	for k, v := range labels {
 		pairs = append(pairs, fmt.Sprintf("%s=%s", k, v))
 	}
+	slices.Sort(pairs)
 
 	// Limit display to avoid excessive width.
 	if len(pairs) > 3 {
-- 
2.43.0


From 6bd81739cd423cdf7fd61c938bdbfb9f0ab56f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 38/65] fix: do not overwrite the status of an operator with an
 outdated one

---
 pkg/kubernetes/controllers/operator.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 9c5ad70..8783878 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -54,6 +54,8 @@ type OpController struct {
 	operators map[string]*opEntry
 	// Mutex for thread-safe operator map access
 	mu sync.Mutex
+	// Mutex for serializing the status updates
+	statusMu sync.Mutex
 	// API server for exposing views
 	apiServer *apiserver.APIServer
 	// Error channel for operator errors
@@ -371,6 +373,14 @@ func (c *OpController) Start(ctx context.Context) error {
 func (c *OpController) updateStatus(ctx context.Context, op *operator.Operator) {
 	key := types.NamespacedName{Name: op.GetName()}
 
+	// Write the status updates one by one and drop the updates of an operator that has been
+	// replaced, otherwise a retry might overwrite a newer status with an outdated one.
+	c.statusMu.Lock()
+	defer c.statusMu.Unlock()
+	if c.GetOperator(op.GetName()) != op {
+		return
+	}
+
 	// Fetch the Operator CRD once to get the generation, then capture the status snapshot.
 	// This ensures we're applying the same status on all retry attempts, preventing conflicts
 	// caused by the status changing between retries (e.g., new errors being pushed).
@@ -386,9 +396,10 @@ func (c *OpController) updateStatus(ctx context.Context, op *operator.Operator)
 	if err := retry.RetryOnConflict(retry.DefaultRetry, func() error {
 		attempt++
 
-		// Refetch the Operator to get the latest resourceVersion
+		// Refetch the Operator to get the latest resourceVersion (bypassing the cache, which may
+		// lag behind)
 		spec := opv1a1.Operator{}
-		if err := c.k8sClient.Get(ctx, key, &spec); err != nil {
+		if err := c.crdMgr.GetAPIReader().Get(ctx, key, &spec); err != nil {
 			return err
 		}
 
-- 
2.43.0


From 7a204d23fe3df11b764e966f33c08b2f7417d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 39/65] fix: do not block on an operator with many broken
 controllers

---
 pkg/kubernetes/controllers/operator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 8783878..433be8a 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -200,8 +200,9 @@ func (c *OpController) AddOperator(op *operator.Operator) {
 func (c *OpController) AddOperatorFromSpec(name string, spec *opv1a1.OperatorSpec) (*operator.Operator, error) {
 	c.log.V(4).Info("adding operator", "name", name)
 
-	// Use the shared operator manager for this operator
-	errorChan := make(chan error, StatusChannelBufferSize)
+	// Use the shared operator manager for this operator. Nobody reads the error channel until the
+	// operator is started: leave room for the errors of the controllers that cannot be created.
+	errorChan := make(chan error, StatusChannelBufferSize+len(spec.Controllers))
 	op, err := operator.New(name, c.config, operator.Options{
 		Cache:        c.sharedCache,
 		APIServer:    c.apiServer,
-- 
2.43.0


From 011e5ca0b300fb75b803b431f76b64c89b199008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 40/65] fix: do not panic on removing an operator that has not
 been started

---
 pkg/kubernetes/controllers/operator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 433be8a..9920f63 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -239,11 +239,15 @@ func (c *OpController) DeleteOperator(name string) {
 		return
 	}
 	delete(c.operators, name)
+	cancel := e.cancel
 	c.mu.Unlock()
 
 	c.log.V(4).Info("deleting operator", "name", name)
 	e.op.UnregisterGVKs()
-	e.cancel()
+	// The operator may not have been started yet
+	if cancel != nil {
+		cancel()
+	}
 }
 
 // startOp starts error channel aggregation for an operator.
-- 
2.43.0


From eeac94eca5eacae9c144be4072151bb5cdbac071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 41/65] fix: do not start the operator CRD manager twice

---
 pkg/kubernetes/controllers/operator.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 9920f63..e42edd0 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -329,15 +329,6 @@ func (c *OpController) Start(ctx context.Context) error {
 	c.ctx = ctx
 	c.mu.Unlock()
 
-	// Start the operator manager in the background
-	go func() {
-		c.log.V(2).Info("starting operator manager")
-
-		if err := c.crdMgr.Start(ctx); err != nil {
-			c.log.Error(err, "operator manager error")
-		}
-	}()
-
 	// Start all operators
 	for _, e := range es {
 		c.startOp(e)
-- 
2.43.0


From 091e46ddf08f38db63f66b8796d35796ac280abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 42/65] fix: do not close the error channel the running
 operators write

---
 pkg/kubernetes/controllers/operator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index e42edd0..f564f5c 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -261,8 +261,10 @@ func (c *OpController) startOp(e *opEntry) {
 
 	go func() {
 		if err := e.op.Start(ctx); err != nil {
-			c.errorChan <- err
-			return
+			select {
+			case c.errorChan <- err:
+			case <-ctx.Done():
+			}
 		}
 	}()
 
@@ -271,7 +273,7 @@ func (c *OpController) startOp(e *opEntry) {
 		for {
 			select {
 			case err := <-e.errorChan:
-				// Use non-blocking send to avoid writing to closed channel
+				// Do not get stuck once the operator has been stopped
 				select {
 				case c.errorChan <- err:
 				case <-ctx.Done():
@@ -336,7 +338,6 @@ func (c *OpController) Start(ctx context.Context) error {
 
 	// Surface errors from operators and generate CRD statuses.
 	go func() {
-		defer close(c.errorChan)
 		for {
 			select {
 			case err := <-c.errorChan:
-- 
2.43.0


From 2b7befe6af53af6eb89bfb3b97bc023544a6b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 43/65] fix: start each operator once and only if it has not
 been removed

---
 pkg/kubernetes/controllers/operator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index f564f5c..df6af61 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -187,10 +187,11 @@ func (c *OpController) AddOperator(op *operator.Operator) {
 	e := &opEntry{op: op, errorChan: op.GetErrorChannel()}
 	c.mu.Lock()
 	c.operators[name] = e
+	started := c.started
 	c.mu.Unlock()
 
 	// Start the new operator if we are already running
-	if c.started {
+	if started {
 		c.startOp(e)
 	}
 }
@@ -255,6 +256,12 @@ func (c *OpController) startOp(e *opEntry) {
 	// Create a context for the operator and start it
 	ctx, cancel := context.WithCancel(c.ctx)
 	c.mu.Lock()
+	if c.operators[e.op.GetName()] != e {
+		// The operator has been removed before it could be started
+		c.mu.Unlock()
+		cancel()
+		return
+	}
 	e.ctx = ctx
 	e.cancel = cancel
 	c.mu.Unlock()
-- 
2.43.0


From 79ea8039c7d2e42b57858ce2eb1a26c3a54a3e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 44/65] fix: protect the errors of a controller from concurrent
 access

---
 pkg/controller/status_reporter.go | 33 ++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/pkg/controller/status_reporter.go b/pkg/controller/status_reporter.go
index 547e8d1..26ce361 100644
--- a/pkg/controller/status_reporter.go
+++ b/pkg/controller/status_reporter.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"golang.org/x/time/rate"
@@ -33,6 +34,7 @@ type Error struct {
 // errorReporter is the error stack implementation.
 type errorReporter struct {
 	c           *DeclarativeController
+	mu          sync.Mutex // protects the error stack: the sources of a controller are processed concurrently
 	errorStack  []error
 	ratelimiter rate.Sometimes
 	errorChan   chan error
@@ -61,22 +63,29 @@ func (s *errorReporter) PushErrorf(format string, a ...any) error {
 
 // PushCritical pushes a critical error to the error stack.
 func (s *errorReporter) PushCritical(err error) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(err)
 }
 
 // PushCriticalError pushes a critical error to the error stack.
 func (s *errorReporter) PushCriticalError(msg string) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(errors.New(msg))
 }
 
 // PushCriticalErrorf pushes a formatted critical error to the error stack.
 func (s *errorReporter) PushCriticalErrorf(format string, a ...any) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(fmt.Errorf(format, a...))
 }
 
+// setCritical notes that a critical error has occurred.
+func (s *errorReporter) setCritical() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.critical = true
+}
+
 // Push pushes a critical or non-critical error to the stack.
 func (s *errorReporter) push(err error) error {
 	ctrlErr := Error{Operator: s.c.op, Controller: s.c.name, error: err}
@@ -88,6 +97,8 @@ func (s *errorReporter) push(err error) error {
 		}
 	})
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if len(s.errorStack) == ErrorReporterStackSize {
 		copy(s.errorStack, s.errorStack[1:])
 		s.errorStack[len(s.errorStack)-1] = ctrlErr
@@ -100,7 +111,9 @@ func (s *errorReporter) push(err error) error {
 
 // Pop pops the extra error from the stack.
 func (s *errorReporter) Pop() {
-	if s.IsEmpty() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if len(s.errorStack) == 0 {
 		return
 	}
 	s.errorStack = s.errorStack[:len(s.errorStack)-1]
@@ -108,7 +121,9 @@ func (s *errorReporter) Pop() {
 
 // Top returns the last errors from the stack.
 func (s *errorReporter) Top() error {
-	if s.IsEmpty() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if len(s.errorStack) == 0 {
 		return nil
 	}
 	return s.errorStack[len(s.errorStack)-1]
@@ -116,21 +131,29 @@ func (s *errorReporter) Top() error {
 
 // Size returns the number of errors on the stack.
 func (s *errorReporter) Size() int {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	return len(s.errorStack)
 }
 
 // IsEmpty returns true if the stack is empty.
 func (s *errorReporter) IsEmpty() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	return len(s.errorStack) == 0
 }
 
 // HasCritical returns true if the stack contains a critical error.
 func (s *errorReporter) HasCritical() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	return s.critical
 }
 
 // Report returns the error messages on the stack.
 func (s *errorReporter) Report() []string {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	errs := []string{}
 	for _, err := range s.errorStack {
 		errs = append(errs, trim(err.Error()))
-- 
2.43.0


From fde7309ec4138236d69e09eb951dce5afa44e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 45/65] fix: do not change the scheme of the API server while
 requests use it

---
 pkg/apiserver/apiserver.go        |  2 +-
 pkg/apiserver/builder.go          |  2 --
 pkg/apiserver/registry.go         | 26 ++++++++++++++---------
 pkg/apiserver/resource_handler.go | 34 +++++++++++++++----------------
 4 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/pkg/apiserver/apiserver.go b/pkg/apiserver/apiserver.go
index 8874cee..f1666fe 100644
--- a/pkg/apiserver/apiserver.go
+++ b/pkg/apiserver/apiserver.go
@@ -117,7 +117,7 @@ func (s *APIServer) GetInsecureServerAddress() string {
 	return "<unknown>"
 }
 
-// GetScheme returns the scheme used by the API server.
+// GetScheme returns the basic scheme of the API server; each registered API group has its own one.
 func (s *APIServer) GetScheme() *runtime.Scheme {
 	return s.scheme
 }
diff --git a/pkg/apiserver/builder.go b/pkg/apiserver/builder.go
index 0eb4e28..a52c01e 100644
--- a/pkg/apiserver/builder.go
+++ b/pkg/apiserver/builder.go
@@ -57,8 +57,6 @@ func (s *APIServer) buildServer() error {
 	// Chain: resourceHandler -> dynamicVersionHandler -> dynamicGroupHandler -> go-restful
 	resourceHandler := newResourceHandler(resourceHandlerConfig{
 		delegatingClient: s.delegatingClient,
-		scheme:           s.scheme,
-		codecs:           s.codecs,
 		delegate:         s.dynamicVersionHandler,
 		log:              s.log,
 	})
diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index 648c670..8178720 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -7,6 +7,7 @@ import (
 	apidiscoveryv2 "k8s.io/api/apidiscovery/v2"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
+	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/apiserver/pkg/endpoints/discovery"
 
@@ -65,8 +66,13 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		return nil
 	}
 
-	// 1. Add types to scheme (idempotent operation).
-	if err := s.addTypesToScheme(gvks); err != nil {
+	// 1. Make a scheme for the types: a scheme must not be changed once requests are served with
+	// it, so the ones in use are left alone.
+	scheme, codecs, err := s.createSchemeAndCodecs()
+	if err != nil {
+		return fmt.Errorf("failed to create scheme: %w", err)
+	}
+	if err := s.addTypesToScheme(scheme, gvks); err != nil {
 		return fmt.Errorf("failed to add types to scheme: %w", err)
 	}
 
@@ -84,7 +90,7 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 			Resource: resource.APIResource.Name,
 		}
 
-		if err := s.resourceHandler.addStorage(gvr, gvk, resource); err != nil {
+		if err := s.resourceHandler.addStorage(gvr, gvk, resource, scheme, codecs); err != nil {
 			return fmt.Errorf("failed to add storage for %s: %w", gvk.String(), err)
 		}
 	}
@@ -254,8 +260,8 @@ func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupV
 	}
 }
 
-// addTypesToScheme adds a set of GVKs to the scheme.
-func (s *APIServer) addTypesToScheme(gvks []schema.GroupVersionKind) error {
+// addTypesToScheme adds a set of GVKs to a scheme.
+func (s *APIServer) addTypesToScheme(scheme *runtime.Scheme, gvks []schema.GroupVersionKind) error {
 	// Group GVKs by GroupVersion
 	groupVersions := make(map[schema.GroupVersion][]schema.GroupVersionKind)
 	for _, gvk := range gvks {
@@ -263,21 +269,21 @@ func (s *APIServer) addTypesToScheme(gvks []schema.GroupVersionKind) error {
 		groupVersions[gv] = append(groupVersions[gv], gvk)
 	}
 
-	// Add types to existing scheme
+	// Add types to the scheme
 	for gv, gvkList := range groupVersions {
 		for _, gvk := range gvkList {
 			// Add meta types for this group version if not already added
-			metav1.AddToGroupVersion(s.scheme, gv)
+			metav1.AddToGroupVersion(scheme, gv)
 
 			// Register the unstructured types
-			s.scheme.AddKnownTypeWithName(gvk, &unstructured.Unstructured{})
-			s.scheme.AddKnownTypeWithName(listGVK(gvk), &unstructured.UnstructuredList{})
+			scheme.AddKnownTypeWithName(gvk, &unstructured.Unstructured{})
+			scheme.AddKnownTypeWithName(listGVK(gvk), &unstructured.UnstructuredList{})
 
 			s.log.V(4).Info("added types to scheme", "GVK", gvk.String())
 		}
 
 		// Update version priority for this group
-		if err := s.scheme.SetVersionPriority(gv); err != nil {
+		if err := scheme.SetVersionPriority(gv); err != nil {
 			return fmt.Errorf("failed to set version priority for %s: %w", gv.String(), err)
 		}
 	}
diff --git a/pkg/apiserver/resource_handler.go b/pkg/apiserver/resource_handler.go
index 58a5af8..d51baa3 100644
--- a/pkg/apiserver/resource_handler.go
+++ b/pkg/apiserver/resource_handler.go
@@ -36,8 +36,6 @@ type resourceHandler struct {
 
 	// Configuration.
 	delegatingClient client.Client
-	scheme           *runtime.Scheme
-	codecs           runtime.NegotiatedSerializer
 
 	// Delegate for non-dynamic requests.
 	delegate http.Handler
@@ -48,8 +46,6 @@ type resourceHandler struct {
 // resourceHandlerConfig provides configuration for creating a resourceHandler.
 type resourceHandlerConfig struct {
 	delegatingClient client.Client
-	scheme           *runtime.Scheme
-	codecs           runtime.NegotiatedSerializer
 	delegate         http.Handler
 	log              logr.Logger
 }
@@ -67,8 +63,6 @@ type servingInfo struct {
 func newResourceHandler(config resourceHandlerConfig) *resourceHandler {
 	handler := &resourceHandler{
 		delegatingClient: config.delegatingClient,
-		scheme:           config.scheme,
-		codecs:           config.codecs,
 		delegate:         config.delegate,
 		log:              config.log,
 	}
@@ -202,12 +196,14 @@ func (h *resourceHandler) routeRequest(
 // addStorage registers a new GVR/GVK dynamically.
 func (h *resourceHandler) addStorage(gvr schema.GroupVersionResource,
 	gvk schema.GroupVersionKind,
-	resource *Resource) error {
+	resource *Resource,
+	scheme *runtime.Scheme,
+	codecs runtime.NegotiatedSerializer) error {
 	h.storageLock.Lock()
 	defer h.storageLock.Unlock()
 
 	// Create serving info.
-	info, err := h.createServingInfo(gvr, gvk, resource)
+	info, err := h.createServingInfo(gvr, gvk, resource, scheme, codecs)
 	if err != nil {
 		return fmt.Errorf("failed to create serving info: %w", err)
 	}
@@ -252,6 +248,8 @@ func (h *resourceHandler) createServingInfo(
 	gvr schema.GroupVersionResource,
 	gvk schema.GroupVersionKind,
 	resource *Resource,
+	scheme *runtime.Scheme,
+	codecs runtime.NegotiatedSerializer,
 ) (*servingInfo, error) {
 	// Create ClientDelegatedStorage.
 	delegatingWatcher, ok := h.delegatingClient.(client.WithWatch)
@@ -274,9 +272,9 @@ func (h *resourceHandler) createServingInfo(
 	typeConverter := managedfields.NewDeducedTypeConverter()
 	fieldManager, err := managedfields.NewDefaultCRDFieldManager(
 		typeConverter,
-		h.scheme, // objectConverter
-		h.scheme, // objectDefaulter
-		h.scheme, // objectCreater
+		scheme, // objectConverter
+		scheme, // objectDefaulter
+		scheme, // objectCreater
 		gvk,
 		gvk.GroupVersion(),
 		"",  // subresource (empty for main resource)
@@ -293,13 +291,13 @@ func (h *resourceHandler) createServingInfo(
 			Namer:         runtime.Namer(meta.NewAccessor()),
 			ClusterScoped: !resource.APIResource.Namespaced,
 		},
-		Serializer:      h.codecs,
-		ParameterCodec:  runtime.NewParameterCodec(h.scheme),
-		Creater:         h.scheme, //nolint:misspell
-		Convertor:       h.scheme,
-		Defaulter:       h.scheme,
-		Typer:           h.scheme,
-		UnsafeConvertor: runtime.UnsafeObjectConvertor(h.scheme),
+		Serializer:      codecs,
+		ParameterCodec:  runtime.NewParameterCodec(scheme),
+		Creater:         scheme, //nolint:misspell
+		Convertor:       scheme,
+		Defaulter:       scheme,
+		Typer:           scheme,
+		UnsafeConvertor: runtime.UnsafeObjectConvertor(scheme),
 		TableConvertor:  storage, // For kubectl output.
 
 		Resource:         gvr,
-- 
2.43.0


From 2b302f95a9b31221c04404a47b7fb969750b4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 46/65] fix: pass the options of informers on to the native and
 the view cache

---
 pkg/cache/composite.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/composite.go b/pkg/cache/composite.go
index 16dee0c..ac3bf7b 100644
--- a/pkg/cache/composite.go
+++ b/pkg/cache/composite.go
@@ -94,9 +94,9 @@ func (cc *CompositeCache) GetInformer(ctx context.Context, obj client.Object, op
 	cc.log.V(6).Info("get-informer", "gvk", gvk)
 
 	if viewv1a1.IsViewKind(gvk) {
-		return cc.viewCache.GetInformer(ctx, obj)
+		return cc.viewCache.GetInformer(ctx, obj, opts...)
 	}
-	return cc.defaultCache.GetInformer(ctx, obj)
+	return cc.defaultCache.GetInformer(ctx, obj, opts...)
 }
 
 // GetInformerForKind is similar to GetInformer, except that it takes a group-version-kind instead
@@ -105,9 +105,9 @@ func (cc *CompositeCache) GetInformerForKind(ctx context.Context, gvk schema.Gro
 	cc.log.V(6).Info("get-informer-for-kind", "gvk", gvk)
 
 	if viewv1a1.IsViewKind(gvk) {
-		return cc.viewCache.GetInformerForKind(ctx, gvk)
+		return cc.viewCache.GetInformerForKind(ctx, gvk, opts...)
 	}
-	return cc.defaultCache.GetInformerForKind(ctx, gvk)
+	return cc.defaultCache.GetInformerForKind(ctx, gvk, opts...)
 }
 
 // RemoveInformer removes an informer entry and stops it if it was running.
-- 
2.43.0


From 54224cf293b3fe19cff6b0c6577a682160f5b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 47/65] fix: answer questions on view kinds in the composite
 client

---
 pkg/cache/client.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index 5a5d45c..b59d3e2 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -6,6 +6,8 @@ import (
 
 	"github.com/go-logr/logr"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
+	"k8s.io/apimachinery/pkg/runtime"
+	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/apimachinery/pkg/watch"
 	"k8s.io/client-go/rest"
 	"sigs.k8s.io/controller-runtime/pkg/client"
@@ -139,6 +141,22 @@ func (c *CompositeClient) Watch(ctx context.Context, list client.ObjectList, opt
 	return nil, apierrors.NewInternalError(errors.New("native K8s client does not support watch"))
 }
 
+// GroupVersionKindFor returns the GroupVersionKind for the given object.
+func (c *CompositeClient) GroupVersionKindFor(obj runtime.Object) (schema.GroupVersionKind, error) {
+	if gvk := obj.GetObjectKind().GroupVersionKind(); viewv1a1.IsViewKind(gvk) {
+		return gvk, nil
+	}
+	return c.Client.GroupVersionKindFor(obj)
+}
+
+// IsObjectNamespaced returns true if the object is namespaced. All views are.
+func (c *CompositeClient) IsObjectNamespaced(obj runtime.Object) (bool, error) {
+	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
+		return true, nil
+	}
+	return c.Client.IsObjectNamespaced(obj)
+}
+
 // Status implements StatusClient. Note that normally this would not be needed since the default
 // view-object client already writes the status if requested, but still needed because native
 // objects' status can only be updated via the status-writer
-- 
2.43.0


From 5ee774dec6b13295a9ea94e1bebf44b891a60904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 48/65] fix: map view groups, not the others, in the view REST
 mapper

---
 pkg/cache/view_restmapper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/cache/view_restmapper.go b/pkg/cache/view_restmapper.go
index b837b49..aeabf12 100644
--- a/pkg/cache/view_restmapper.go
+++ b/pkg/cache/view_restmapper.go
@@ -22,7 +22,7 @@ func NewViewRESTMapper() *ViewRESTMapper {
 
 // KindFor returns the Kind for the given view resource.
 func (m *ViewRESTMapper) KindFor(resource schema.GroupVersionResource) (schema.GroupVersionKind, error) {
-	if viewv1a1.IsViewGroup(resource.Group) {
+	if !viewv1a1.IsViewGroup(resource.Group) {
 		return schema.GroupVersionKind{}, fmt.Errorf("not a view group: %s", resource.Group)
 	}
 
@@ -47,7 +47,7 @@ func (m *ViewRESTMapper) KindsFor(resource schema.GroupVersionResource) ([]schem
 
 // ResourceFor returns the Resource for the given view input.
 func (m *ViewRESTMapper) ResourceFor(input schema.GroupVersionResource) (schema.GroupVersionResource, error) {
-	if viewv1a1.IsViewGroup(input.Group) {
+	if !viewv1a1.IsViewGroup(input.Group) {
 		return schema.GroupVersionResource{}, fmt.Errorf("not a view group: %s", input.Group)
 	}
 
@@ -70,7 +70,7 @@ func (m *ViewRESTMapper) ResourcesFor(input schema.GroupVersionResource) ([]sche
 
 // RESTMapping returns the RESTMapping for the given view GroupKind.
 func (m *ViewRESTMapper) RESTMapping(gk schema.GroupKind, versions ...string) (*meta.RESTMapping, error) {
-	if viewv1a1.IsViewGroup(gk.Group) {
+	if !viewv1a1.IsViewGroup(gk.Group) {
 		return nil, fmt.Errorf("not a view group: %s", gk.Group)
 	}
 
-- 
2.43.0


From f45407badc521731a7fbc3c85f3aab86e9525405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 49/65] fix: list the version of a view group only once

---
 pkg/cache/view_discovery.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/view_discovery.go b/pkg/cache/view_discovery.go
index 4e0511e..b3bb35d 100644
--- a/pkg/cache/view_discovery.go
+++ b/pkg/cache/view_discovery.go
@@ -84,11 +84,16 @@ func (d *ViewDiscovery) ServerGroups() (*metav1.APIGroupList, error) {
 		}
 
 		// Check if this version already exists
+		exists := false
 		for _, existing := range groupVersions[gv.Group] {
 			if existing.Version == gv.Version {
-				continue
+				exists = true
+				break
 			}
 		}
+		if exists {
+			continue
+		}
 
 		groupVersions[gv.Group] = append(groupVersions[gv.Group], metav1.GroupVersionForDiscovery{
 			GroupVersion: gv.String(),
-- 
2.43.0


From a15c0e158abec2616df741f123e30c4214fba465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 50/65] fix: keep the views in the legacy form of the composite
 discovery

---
 pkg/cache/discovery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/discovery.go b/pkg/cache/discovery.go
index 99f325c..0418322 100644
--- a/pkg/cache/discovery.go
+++ b/pkg/cache/discovery.go
@@ -190,7 +190,10 @@ func (c *CompositeDiscoveryClient) OpenAPIV3() openapi.Client {
 // format.
 func (c *CompositeDiscoveryClient) WithLegacy() discovery.DiscoveryInterface {
 	if c.nativeDiscovery != nil {
-		return NewCompositeDiscoveryClient(c.nativeDiscovery.WithLegacy())
+		return &CompositeDiscoveryClient{
+			ViewDiscoveryInterface: c.ViewDiscoveryInterface,
+			nativeDiscovery:        c.nativeDiscovery.WithLegacy(),
+		}
 	}
 	// If no native discovery, return self (views don't have legacy concerns)
 	return c
-- 
2.43.0


From 41576ab2f3c162c40229bebfadd43f04eb8b1bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 51/65] fix: keep what can be discovered when some native
 groups cannot

---
 pkg/cache/discovery.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/cache/discovery.go b/pkg/cache/discovery.go
index 0418322..8e881b8 100644
--- a/pkg/cache/discovery.go
+++ b/pkg/cache/discovery.go
@@ -86,6 +86,7 @@ func (c *CompositeDiscoveryClient) ServerGroups() (*metav1.APIGroupList, error)
 func (c *CompositeDiscoveryClient) ServerGroupsAndResources() ([]*metav1.APIGroup, []*metav1.APIResourceList, error) {
 	var allGroups []*metav1.APIGroup
 	var allResources []*metav1.APIResourceList
+	var failed error
 
 	// Add view groups and resources
 	viewGroups, viewResources, err := c.ViewDiscoveryInterface.ServerGroupsAndResources()
@@ -99,19 +100,23 @@ func (c *CompositeDiscoveryClient) ServerGroupsAndResources() ([]*metav1.APIGrou
 	if c.nativeDiscovery != nil {
 		nativeGroups, nativeResources, err := c.nativeDiscovery.ServerGroupsAndResources()
 		if err != nil {
-			return nil, nil, fmt.Errorf("failed to get native groups and resources: %w", err)
+			if !discovery.IsGroupDiscoveryFailedError(err) {
+				return nil, nil, fmt.Errorf("failed to get native groups and resources: %w", err)
+			}
+			failed = err // partial result
 		}
 		allGroups = append(allGroups, nativeGroups...)
 		allResources = append(allResources, nativeResources...)
 	}
 
-	return allGroups, allResources, nil
+	return allGroups, allResources, failed
 }
 
 // ServerPreferredResources returns the supported resources with the version preferred by the
 // server.
 func (c *CompositeDiscoveryClient) ServerPreferredResources() ([]*metav1.APIResourceList, error) {
 	var allResources []*metav1.APIResourceList
+	var failed error
 
 	// Add view preferred resources
 	viewResources, err := c.ViewDiscoveryInterface.ServerPreferredResources()
@@ -124,18 +129,22 @@ func (c *CompositeDiscoveryClient) ServerPreferredResources() ([]*metav1.APIReso
 	if c.nativeDiscovery != nil {
 		nativeResources, err := c.nativeDiscovery.ServerPreferredResources()
 		if err != nil {
-			return nil, fmt.Errorf("failed to get native preferred resources: %w", err)
+			if !discovery.IsGroupDiscoveryFailedError(err) {
+				return nil, fmt.Errorf("failed to get native preferred resources: %w", err)
+			}
+			failed = err // partial result
 		}
 		allResources = append(allResources, nativeResources...)
 	}
 
-	return allResources, nil
+	return allResources, failed
 }
 
 // ServerPreferredNamespacedResources returns the supported namespaced resources with the
 // version preferred by the server.
 func (c *CompositeDiscoveryClient) ServerPreferredNamespacedResources() ([]*metav1.APIResourceList, error) {
 	var allResources []*metav1.APIResourceList
+	var failed error
 
 	// Add view namespaced resources (all views are namespaced)
 	viewResources, err := c.ViewDiscoveryInterface.ServerPreferredResources()
@@ -148,12 +157,15 @@ func (c *CompositeDiscoveryClient) ServerPreferredNamespacedResources() ([]*meta
 	if c.nativeDiscovery != nil {
 		nativeResources, err := c.nativeDiscovery.ServerPreferredNamespacedResources()
 		if err != nil {
-			return nil, fmt.Errorf("failed to get native namespaced resources: %w", err)
+			if !discovery.IsGroupDiscoveryFailedError(err) {
+				return nil, fmt.Errorf("failed to get native namespaced resources: %w", err)
+			}
+			failed = err // partial result
 		}
 		allResources = append(allResources, nativeResources...)
 	}
 
-	return allResources, nil
+	return allResources, failed
 }
 
 // ServerVersion retrieves and parses the server's version.
-- 
2.43.0


From b171751393697a1f4caaf63e314491e5081f2343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 52/65] fix: return a resource without a known singular form as
 it is

---
 pkg/cache/restmapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cache/restmapper.go b/pkg/cache/restmapper.go
index 9d16b4b..02b9a76 100644
--- a/pkg/cache/restmapper.go
+++ b/pkg/cache/restmapper.go
@@ -125,7 +125,7 @@ func (m *CompositeRESTMapper) ResourceSingularizer(resource string) (string, err
 	// For native resources, delegate to native mapper
 	if m.nativeMapper != nil {
 		singular, err := m.nativeMapper.ResourceSingularizer(resource)
-		if err == nil {
+		if err == nil && singular != "" {
 			return singular, nil
 		}
 	}
-- 
2.43.0


From fe16fe4fd2d5ae4a43de53deadf90f301bf681d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 53/65] fix: spell kinds of registered views right in the REST
 mapper

---
 pkg/cache/restmapper.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/cache/restmapper.go b/pkg/cache/restmapper.go
index 02b9a76..26adea6 100644
--- a/pkg/cache/restmapper.go
+++ b/pkg/cache/restmapper.go
@@ -2,6 +2,7 @@ package cache
 
 import (
 	"fmt"
+	"strings"
 
 	"k8s.io/apimachinery/pkg/api/meta"
 	"k8s.io/apimachinery/pkg/runtime/schema"
@@ -44,6 +45,9 @@ func NewCompositeRESTMapper(compositeDiscovery discovery.DiscoveryInterface) *Co
 // KindFor returns the Kind for the given resource.
 func (m *CompositeRESTMapper) KindFor(resource schema.GroupVersionResource) (schema.GroupVersionKind, error) {
 	if m.isViewGroup(resource.Group) {
+		if gvk, ok := m.registeredKindFor(resource); ok {
+			return gvk, nil
+		}
 		return m.viewMapper.KindFor(resource)
 	}
 
@@ -57,6 +61,9 @@ func (m *CompositeRESTMapper) KindFor(resource schema.GroupVersionResource) (sch
 // KindsFor returns all Kinds for the given resource.
 func (m *CompositeRESTMapper) KindsFor(resource schema.GroupVersionResource) ([]schema.GroupVersionKind, error) {
 	if m.isViewGroup(resource.Group) {
+		if gvk, ok := m.registeredKindFor(resource); ok {
+			return []schema.GroupVersionKind{gvk}, nil
+		}
 		return m.viewMapper.KindsFor(resource)
 	}
 
@@ -134,6 +141,19 @@ func (m *CompositeRESTMapper) ResourceSingularizer(resource string) (string, err
 	return resource, nil
 }
 
+// registeredKindFor finds the registered view kind for a resource: the spelling of the kind cannot
+// be restored from the resource name.
+func (m *CompositeRESTMapper) registeredKindFor(resource schema.GroupVersionResource) (schema.GroupVersionKind, bool) {
+	if cd, ok := m.discovery.(*CompositeDiscoveryClient); ok {
+		for _, gvk := range cd.GetRegisteredViewGVKs() {
+			if gvk.GroupVersion() == resource.GroupVersion() && cd.ResourceFromKind(gvk.Kind) == strings.ToLower(resource.Resource) {
+				return gvk, true
+			}
+		}
+	}
+	return schema.GroupVersionKind{}, false
+}
+
 // isViewGroup checks if a group is a view group.
 func (m *CompositeRESTMapper) isViewGroup(group string) bool {
 	if cd, ok := m.discovery.(*CompositeDiscoveryClient); ok {
-- 
2.43.0


From 96065e9ed0022be50d5edbe74dc47f1f5537be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 54/65] fix: do not take every group that ends in
 view.dcontroller.io for a view group

---
 pkg/api/view/v1alpha1/group_version.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/api/view/v1alpha1/group_version.go b/pkg/api/view/v1alpha1/group_version.go
index 1c8e43b..7f29d35 100644
--- a/pkg/api/view/v1alpha1/group_version.go
+++ b/pkg/api/view/v1alpha1/group_version.go
@@ -76,7 +76,9 @@ func GetOperator(gvk schema.GroupVersionKind) string {
 }
 
 // IsViewGroup checks whether a group belongs to a view resource.
-func IsViewGroup(group string) bool { return strings.HasSuffix(group, GroupSuffix) }
+func IsViewGroup(group string) bool {
+	return group == GroupSuffix || strings.HasSuffix(group, fullGroupSuffix)
+}
 
 // IsViewGroupVersion checks whether a group-version belongs to a view resource.
 func IsViewGroupVersion(gv schema.GroupVersion) bool {
-- 
2.43.0


From c2c4f6c1476cf5d485ed75ad7c6c2b5d02614aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 55/65] fix: map views of kinds in dotted groups back to them

---
 pkg/api/view/v1alpha1/group_version.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/api/view/v1alpha1/group_version.go b/pkg/api/view/v1alpha1/group_version.go
index 7f29d35..8a2d778 100644
--- a/pkg/api/view/v1alpha1/group_version.go
+++ b/pkg/api/view/v1alpha1/group_version.go
@@ -48,18 +48,20 @@ func MapFromView(gvk schema.GroupVersionKind) (schema.GroupVersionKind, error) {
 	if !IsViewGroup(gvk.Group) {
 		return schema.GroupVersionKind{}, errors.New("not a view resource")
 	}
-	ps := strings.SplitN(gvk.Group, ".", 3)
-	if len(ps) != 3 {
+	// <group>.<version>.<operator>: the group may contain dots
+	ps := strings.Split(strings.TrimSuffix(gvk.Group, fullGroupSuffix), ".")
+	if len(ps) < 3 {
 		return schema.GroupVersionKind{}, errors.New("invalid view resource")
 	}
+	group := strings.Join(ps[:len(ps)-2], ".")
 	// un-specialcase corev1
-	if ps[0] == "core" {
-		ps[0] = ""
+	if group == "core" {
+		group = ""
 	}
 
 	return schema.GroupVersionKind{
-		Group:   ps[0],
-		Version: ps[1],
+		Group:   group,
+		Version: ps[len(ps)-2],
 		Kind:    gvk.Kind,
 	}, nil
 }
-- 
2.43.0


From d3bbba34c23d53e98ff2cd15132462fe246d5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 56/65] fix: make the private key readable by its owner only,
 not the certificate

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 09c6d87..2e62887 100644
--- a/main.go
+++ b/main.go
@@ -149,7 +149,7 @@ func runGenerateKeys(_ *cobra.Command, cfg genKeysConfig) error {
 		return fmt.Errorf("failed to generate keys: %w", err)
 	}
 
-	if err := auth.WriteCertAndKey(cfg.keyFile, cfg.certFile, key, cert); err != nil {
+	if err := auth.WriteCertAndKey(cfg.certFile, cfg.keyFile, cert, key); err != nil {
 		return fmt.Errorf("failed to write key/cert into file %q/%q: %w", cfg.keyFile, cfg.certFile, err)
 	}
 
-- 
2.43.0


From b2f4c2456d094a32114eab6ef18ec5d165773c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 57/65] fix: refuse restrictions of a user that would have been
 ignored

---
 main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 2e62887..440e2bb 100644
--- a/main.go
+++ b/main.go
@@ -402,6 +402,10 @@ func runGenerateConfig(cfg generateConfigConfig) error {
 	var namespacesList []string
 	if cfg.namespaces != "" {
 		namespacesList = parseCommaSeparated(cfg.namespaces)
+		if len(namespacesList) == 0 {
+			// An empty list would lift all restrictions.
+			return fmt.Errorf("no namespace given in %q", cfg.namespaces)
+		}
 	}
 
 	// Parse RBAC rules
@@ -424,8 +428,15 @@ func runGenerateConfig(cfg generateConfigConfig) error {
 	// If both are empty, rulesList will be nil/empty = full access
 
 	// Apply resourceNames to last rule if specified
-	if cfg.resourceNames != "" && len(rulesList) > 0 {
+	if cfg.resourceNames != "" {
 		resourceNamesList := parseCommaSeparated(cfg.resourceNames)
+		if len(resourceNamesList) == 0 {
+			// An empty list would lift all restrictions.
+			return fmt.Errorf("no resource name given in %q", cfg.resourceNames)
+		}
+		if len(rulesList) == 0 {
+			return fmt.Errorf("resource names require a rule they can restrict")
+		}
 		lastIdx := len(rulesList) - 1
 		rulesList[lastIdx].ResourceNames = resourceNamesList
 
-- 
2.43.0


From 743a28cf6c84086d204299ba4d200246afdb0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 58/65] fix: start the API server on the address and port that
 are given

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 440e2bb..ec0f6ea 100644
--- a/main.go
+++ b/main.go
@@ -201,8 +201,8 @@ func startServerCmd() *cobra.Command {
 		},
 	}
 
-	cmd.Flags().StringVar(&cfg.addr, "addr", "localhost", "API server bind address")
-	cmd.Flags().IntVar(&cfg.port, "port", 8443, "API server port")
+	cmd.Flags().StringVar(&cfg.addr, "addr", "0.0.0.0", "API server bind address")
+	cmd.Flags().IntVar(&cfg.port, "port", APIServerPort, "API server port")
 	cmd.Flags().BoolVar(&cfg.httpMode, "http", false, "Use HTTP instead of HTTPS (no TLS)")
 	cmd.Flags().BoolVar(&cfg.insecure, "insecure", false, "Accept self-signed TLS certificates (HTTPS only)")
 	cmd.Flags().StringVar(&cfg.certFile, "tls-cert-file", "apiserver.crt",
@@ -258,7 +258,7 @@ func runStartServer(_ *cobra.Command, cfg apiServerConfig) error {
 	ctx := ctrl.SetupSignalHandler()
 
 	if !cfg.disableAPIServer {
-		apiServerCfg, err := apiserver.NewDefaultConfig("0.0.0.0", APIServerPort, api.Client,
+		apiServerCfg, err := apiserver.NewDefaultConfig(cfg.addr, cfg.port, api.Client,
 			cfg.httpMode, cfg.insecure, logger)
 		if err != nil {
 			setupLog.Error(err, "failed to create the config for the embedded API server")
-- 
2.43.0


From 1d604b05434ec8862699e2f99ce8fd034afb8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 59/65] fix: serve TLS with the given certificate also when
 authentication is disabled

---
 main.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/main.go b/main.go
index ec0f6ea..028ba3b 100644
--- a/main.go
+++ b/main.go
@@ -265,14 +265,20 @@ func runStartServer(_ *cobra.Command, cfg apiServerConfig) error {
 			os.Exit(1)
 		}
 
-		// Configure authentication and authorization unless explicitly disabled or running in HTTP-only mode
-		if cfg.httpMode || cfg.disableAuthentication {
-			setupLog.Info("⚠️  WARNING: Running API server without authentication - unrestricted access enabled")
-		} else {
+		// TLS needs a certificate, with or without authentication
+		if !cfg.httpMode {
 			// Load TLS key/cert
 			if err := checkCert(cfg.certFile, cfg.keyFile); err != nil {
 				return fmt.Errorf("failed to load TLS key/cert: %w", err)
 			}
+			apiServerCfg.CertFile = cfg.certFile
+			apiServerCfg.KeyFile = cfg.keyFile
+		}
+
+		// Configure authentication and authorization unless explicitly disabled or running in HTTP-only mode
+		if cfg.httpMode || cfg.disableAuthentication {
+			setupLog.Info("⚠️  WARNING: Running API server without authentication - unrestricted access enabled")
+		} else {
 			// Load public key
 			publicKey, err := auth.LoadPublicKey(cfg.certFile)
 			if err != nil {
@@ -283,8 +289,6 @@ func runStartServer(_ *cobra.Command, cfg apiServerConfig) error {
 			apiServerCfg.Authenticator = auth.NewJWTAuthenticator(publicKey)
 			apiServerCfg.Authorizer = auth.NewCompositeAuthorizer()
 			setupLog.Info("API server authentication and authorization enabled")
-			apiServerCfg.CertFile = cfg.certFile
-			apiServerCfg.KeyFile = cfg.keyFile
 		}
 
 		apiServer, err := apiserver.NewAPIServer(apiServerCfg)
-- 
2.43.0


From 4dd787c484238230e83f326ad6f8a494d7961a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 60/65] fix: show all controllers that write a view in
 diagrams, and each arrow once

---
 pkg/visualize/visualize.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pkg/visualize/visualize.go b/pkg/visualize/visualize.go
index d4a829a..4c095cf 100644
--- a/pkg/visualize/visualize.go
+++ b/pkg/visualize/visualize.go
@@ -108,19 +108,17 @@ func extractPipelineStages(pipeline opv1a1.Pipeline) []string {
 // buildConnections identifies connections between controllers via views.
 func (g *Graph) buildConnections() {
 	// Map of view kinds to the controllers that produce them and their target type.
-	viewProducers := make(map[string]struct {
+	type viewProducer struct {
 		controller string
 		targetType string
-	})
+	}
+	viewProducers := make(map[string][]viewProducer)
 
 	// First pass: identify which controllers produce which views.
 	for _, ctrl := range g.Controllers {
 		if isView(ctrl.Target) {
 			viewKey := resourceKey(ctrl.Target)
-			viewProducers[viewKey] = struct {
-				controller string
-				targetType string
-			}{ctrl.Name, ctrl.Target.Type}
+			viewProducers[viewKey] = append(viewProducers[viewKey], viewProducer{ctrl.Name, ctrl.Target.Type})
 		}
 	}
 
@@ -129,7 +127,7 @@ func (g *Graph) buildConnections() {
 		for _, src := range ctrl.Sources {
 			if isView(src) {
 				viewKey := resourceKey(src)
-				if producer, exists := viewProducers[viewKey]; exists {
+				for _, producer := range viewProducers[viewKey] {
 					g.Connections = append(g.Connections, Connection{
 						FromController: producer.controller,
 						ToController:   ctrl.Name,
@@ -297,6 +295,10 @@ func BuildDotGraph(g *Graph) *dot.Graph {
 	// Connect controllers via views with explicit view nodes.
 	viewNodes := make(map[string]dot.Node)
 
+	// A view can have several writers and readers: draw each edge only once.
+	type edge struct{ from, to, label string }
+	edges := make(map[edge]bool)
+
 	for _, conn := range g.Connections {
 		fromNode, fromExists := controllerNodes[conn.FromController]
 		toNode, toExists := controllerNodes[conn.ToController]
@@ -334,20 +336,26 @@ func BuildDotGraph(g *Graph) *dot.Graph {
 		if targetType == "" {
 			targetType = "Updater"
 		}
-		graph.Edge(fromNode, viewNode).
-			Attr("label", targetType).
-			Attr("fontname", "helvetica").
-			Attr("fontsize", "10")
+		if e := (edge{conn.FromController, viewKey, targetType}); !edges[e] {
+			edges[e] = true
+			graph.Edge(fromNode, viewNode).
+				Attr("label", targetType).
+				Attr("fontname", "helvetica").
+				Attr("fontsize", "10")
+		}
 
 		// Create edge from view node to reader.
 		sourceType := conn.SourceType
 		if sourceType == "" {
 			sourceType = "Watcher"
 		}
-		graph.Edge(viewNode, toNode).
-			Attr("label", sourceType).
-			Attr("fontname", "helvetica").
-			Attr("fontsize", "10")
+		if e := (edge{viewKey, conn.ToController, sourceType}); !edges[e] {
+			edges[e] = true
+			graph.Edge(viewNode, toNode).
+				Attr("label", sourceType).
+				Attr("fontname", "helvetica").
+				Attr("fontsize", "10")
+		}
 	}
 
 	return graph
-- 
2.43.0


From a37330209590aeba112c28db3258103e1ee611f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 61/65] fix: show the views that an operator reads but does not
 write in diagrams

---
 pkg/visualize/visualize.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/visualize/visualize.go b/pkg/visualize/visualize.go
index 4c095cf..54e430f 100644
--- a/pkg/visualize/visualize.go
+++ b/pkg/visualize/visualize.go
@@ -151,6 +151,16 @@ func resourceKey(ref ResourceRef) string {
 	return fmt.Sprintf("%s/%s/%s", ref.Group, ref.Version, ref.Kind)
 }
 
+// isProduced checks if a view is written by any controller of the operator.
+func (g *Graph) isProduced(view ResourceRef) bool {
+	for _, c := range g.Controllers {
+		if isView(c.Target) && resourceKey(c.Target) == resourceKey(view) {
+			return true
+		}
+	}
+	return false
+}
+
 // IsTerminalView checks if a view is terminal (produced but not consumed by any controller).
 func (g *Graph) IsTerminalView(ctrl ControllerNode) bool {
 	if !isView(ctrl.Target) {
@@ -231,7 +241,8 @@ func BuildDotGraph(g *Graph) *dot.Graph {
 	// Create source nodes and edges.
 	for _, ctrl := range g.Controllers {
 		for _, src := range ctrl.Sources {
-			if !isView(src) {
+			// Views that a controller of the operator writes are connected below.
+			if !isView(src) || !g.isProduced(src) {
 				key := resourceKey(src)
 				srcNode, exists := sourceNodes[key]
 				if !exists {
-- 
2.43.0


From f8b90d1576088cea9003e2a0654ee8aeaffc66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:39 +0000
Subject: [PATCH 62/65] fix: tell views from native resources by their group in
 diagrams

---
 pkg/visualize/visualize.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/visualize/visualize.go b/pkg/visualize/visualize.go
index 54e430f..64790f7 100644
--- a/pkg/visualize/visualize.go
+++ b/pkg/visualize/visualize.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/emicklei/dot"
 	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
+	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
 )
 
 // Graph represents the visualization graph of an operator.
@@ -30,6 +31,10 @@ type ResourceRef struct {
 	Version string
 	Kind    string
 	Type    string // Source type (Watcher/Periodic/OneShot) or Target type (Updater/Patcher)
+
+	// local marks the views of the operator itself, which are given without a group (as opposed to
+	// the empty group of the core resources).
+	local bool
 }
 
 // Connection represents an edge between two controllers (via a view).
@@ -91,6 +96,7 @@ func buildResourceRef(res opv1a1.Resource, resType string) ResourceRef {
 		Version: version,
 		Kind:    res.Kind,
 		Type:    resType,
+		local:   res.Group == nil,
 	}
 }
 
@@ -141,14 +147,18 @@ func (g *Graph) buildConnections() {
 	}
 }
 
-// isView checks if a resource is a view (either has "View" in kind or view.dcontroller.io in group).
+// isView checks if a resource is a view (either has no group or a view group).
 func isView(ref ResourceRef) bool {
-	return strings.Contains(ref.Kind, "View") || strings.Contains(ref.Group, "view.dcontroller.io")
+	return ref.local || viewv1a1.IsViewGroup(ref.Group)
 }
 
 // resourceKey creates a unique key for a resource.
 func resourceKey(ref ResourceRef) string {
-	return fmt.Sprintf("%s/%s/%s", ref.Group, ref.Version, ref.Kind)
+	key := fmt.Sprintf("%s/%s/%s", ref.Group, ref.Version, ref.Kind)
+	if ref.local {
+		key = "view:" + key
+	}
+	return key
 }
 
 // isProduced checks if a view is written by any controller of the operator.
-- 
2.43.0


From 5867c0ef5447297910bd79ae7a1944ccb4fb6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 63/65] fix: do not show the version of core resources twice in
 diagrams

---
 pkg/visualize/visualize.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/visualize/visualize.go b/pkg/visualize/visualize.go
index 64790f7..13b0dfc 100644
--- a/pkg/visualize/visualize.go
+++ b/pkg/visualize/visualize.go
@@ -196,9 +196,6 @@ func FormatGVK(ref ResourceRef) string {
 		parts = append(parts, ref.Group)
 	}
 	if ref.Version != "" {
-		if ref.Group == "" {
-			parts = append(parts, "v1") // Default for core resources.
-		}
 		parts = append(parts, ref.Version)
 	}
 	parts = append(parts, ref.Kind)
-- 
2.43.0


From 22f41fe6280db0f46582ea1cea19fb3511b8febd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:01 +0000
Subject: [PATCH 64/65] fix: let the system choose the port of the internal TLS
 server in HTTP mode

A random port may be in use, in which case the API server could not be created.
---
 pkg/apiserver/builder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/apiserver/builder.go b/pkg/apiserver/builder.go
index a52c01e..cbed934 100644
--- a/pkg/apiserver/builder.go
+++ b/pkg/apiserver/builder.go
@@ -2,7 +2,6 @@ package apiserver
 
 import (
 	"fmt"
-	"math/rand/v2"
 	"net"
 	"net/http"
 	"net/http/httputil"
@@ -102,14 +101,20 @@ func (s *APIServer) createServerConfig() (*genericapiserver.RecommendedConfig, e
 	secureAddr := config.Addr.IP
 	securePort := config.Addr.Port
 
+	var secureListener net.Listener
 	if config.HTTPMode {
 		secureAddr = net.ParseIP("127.0.0.1")
-		// use a random port for the mandatory TLS server
-		securePort = rand.IntN(16384) + 16383 //nolint:gosec
+		// use any free port for the mandatory TLS server
+		listener, err := net.Listen("tcp", net.JoinHostPort(secureAddr.String(), "0"))
+		if err != nil {
+			return nil, fmt.Errorf("failed to open secure server socket: %w", err)
+		}
+		secureListener = listener
 	}
 	secureServingOptions := &genericoptions.SecureServingOptions{
 		BindAddress: secureAddr,
 		BindPort:    securePort,
+		Listener:    secureListener,
 		ServerCert: genericoptions.GeneratableKeyCert{
 			CertKey: genericoptions.CertKey{
 				CertFile: config.CertFile,
-- 
2.43.0


From a6b8a4776fa9034f51a91fa39807cc457991d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:10 +0000
Subject: [PATCH 65/65] fix: do not write the bearer tokens of users into the
 log

---
 pkg/apiserver/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/apiserver/builder.go b/pkg/apiserver/builder.go
index cbed934..a39760d 100644
--- a/pkg/apiserver/builder.go
+++ b/pkg/apiserver/builder.go
@@ -171,7 +171,13 @@ func (s *APIServer) createServerConfig() (*genericapiserver.RecommendedConfig, e
 		// Add logging wrapper (outermost)
 		nextHandler := handler // Capture handler before reassignment to avoid infinite loop
 		handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+			// Keep credentials out of the log
+			credentials, found := r.Header["Authorization"]
+			r.Header.Del("Authorization")
 			dump, err := httputil.DumpRequest(r, true) // true = include body
+			if found {
+				r.Header["Authorization"] = credentials
+			}
 			if err != nil {
 				dump = []byte{}
 			}
-- 
2.43.0

