package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// sched puts the locks and the goroutines of a package under the control of the scheduler in verif/vrt:
//
//   - sync.Mutex, sync.RWMutex and sync.Once become their namesakes in vrt, which behave the same but are
//     scheduling points for the threads of the explorer;
//   - the other calls that synchronize (sync, sync/atomic, methods of client-go) and channel operations get a
//     scheduling point in front of the statement they occur in;
//   - goroutines the package starts become threads of the explorer, unless they operate on channels, in which case
//     they run on their own.
func (in *instr) sched() {
	syncUsed := false
	syncName := ""
	ast.Inspect(in.file, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.SelectorExpr:
			id, ok := s.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := in.info.Uses[id].(*types.PkgName)
			if !ok || pn.Imported().Path() != "sync" {
				return true
			}
			switch s.Sel.Name {
			case "Mutex", "RWMutex", "Once":
				in.replace(id.Pos(), id.End(), "vrt")
				syncUsed, syncName = true, id.Name
			}
		case *ast.BlockStmt:
			in.points(s.List)
		case *ast.CaseClause:
			in.points(s.Body)
		case *ast.CommClause:
			in.points(s.Body)
		case *ast.ForStmt:
			if in.syncs(s.Cond) || in.syncs(s.Post) {
				in.insert(s.Body.Lbrace+1, " vrt.P();")
			}
		case *ast.GoStmt:
			in.goStmt(s)
		}
		return true
	})
	if syncUsed {
		in.insert(in.file.End(), "\nvar _ "+syncName+".Locker\n")
	}
}

// points puts scheduling points in a list of statements.
func (in *instr) points(list []ast.Stmt) {
	for _, s := range list {
		x := s
		for {
			l, ok := x.(*ast.LabeledStmt)
			if !ok {
				break
			}
			x = l.Stmt
		}
		var heads []ast.Node
		switch y := x.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return // the body of a switch or a select
		case *ast.BlockStmt, *ast.GoStmt, *ast.DeferStmt:
			continue
		case *ast.IfStmt:
			for y != nil {
				heads = append(heads, y.Init, y.Cond)
				y, _ = y.Else.(*ast.IfStmt)
			}
		case *ast.ForStmt:
			heads = append(heads, y.Init, y.Cond)
		case *ast.RangeStmt:
			heads = append(heads, y.X)
			if tv, ok := in.info.Types[y.X]; ok && tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Chan); ok {
					in.insert(s.Pos(), "vrt.P(); ")
					continue
				}
			}
		case *ast.SwitchStmt:
			heads = append(heads, y.Init, y.Tag)
		case *ast.TypeSwitchStmt:
			heads = append(heads, y.Init, y.Assign)
		case *ast.SelectStmt:
			in.insert(s.Pos(), "vrt.P(); ")
			continue
		default:
			heads = append(heads, x)
		}
		for _, h := range heads {
			if in.syncs(h) {
				in.insert(s.Pos(), "vrt.P(); ")
				break
			}
		}
	}
}

func isNil(n ast.Node) bool {
	switch x := n.(type) {
	case nil:
		return true
	case ast.Expr:
		return x == nil
	case ast.Stmt:
		return x == nil
	}
	return false
}

// syncs says whether evaluating n (without the function literals in it) may synchronize other than by locks.
func (in *instr) syncs(n ast.Node) bool {
	if isNil(n) {
		return false
	}
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if found {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			if in.syncCall(x) {
				found = true
			}
		}
		return !found
	})
	return found
}

func (in *instr) syncCall(c *ast.CallExpr) bool {
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := in.info.Uses[id].(*types.Builtin); ok {
			return b.Name() == "close"
		}
	}
	f := in.callee(c)
	if f == nil || f.Pkg() == nil {
		return false
	}
	sig := f.Type().(*types.Signature)
	path := f.Pkg().Path()
	switch {
	case path == "sync/atomic":
		return true
	case path == "sync":
		if sig.Recv() == nil {
			return true
		}
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			switch nt.Obj().Name() {
			case "Mutex", "RWMutex", "Once":
				return false // scheduling points by themselves
			}
		}
		return true
	case strings.HasPrefix(path, "k8s.io/client-go/"):
		return sig.Recv() != nil
	}
	return false
}

func (in *instr) callee(c *ast.CallExpr) *types.Func {
	switch x := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		f, _ := in.info.Uses[x].(*types.Func)
		return f
	case *ast.SelectorExpr:
		f, _ := in.info.Uses[x.Sel].(*types.Func)
		return f
	}
	return nil
}

// goStmt rewrites a go statement.
func (in *instr) goStmt(s *ast.GoStmt) {
	alone := false
	if lit, ok := ast.Unparen(s.Call.Fun).(*ast.FuncLit); ok {
		alone = in.channels(lit.Body)
		if !alone && len(s.Call.Args) == 0 && lit.Type.Results == nil {
			in.insert(s.Pos(), "{ vrtH := vrt.Spawn(); ")
			in.insert(lit.Body.Lbrace+1, " vrt.Begin(vrtH); defer vrt.End(vrtH); ")
			in.insert(s.End(), " }")
			return
		}
	} else if f := in.callee(s.Call); f != nil {
		if d := in.decls[f]; d != nil && d.Body != nil && in.channels(d.Body) {
			alone = true
		}
	}
	if !alone && s.Call.Ellipsis == token.NoPos && in.bindable(s.Call) {
		var lhs, rhs []string
		var args []string
		text := func(e ast.Expr) string { return string(in.src[in.off(e.Pos()):in.off(e.End())]) }
		lhs, rhs = append(lhs, "vrtF"), append(rhs, text(s.Call.Fun))
		for i, a := range s.Call.Args {
			n := fmt.Sprintf("vrtA%d", i)
			if tv := in.info.Types[a]; tv.Value != nil || tv.IsNil() {
				n = text(a)
			} else {
				lhs, rhs = append(lhs, n), append(rhs, text(a))
			}
			args = append(args, n)
		}
		in.replace(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s; vrtH := vrt.Spawn(); go func() { vrt.Begin(vrtH); defer vrt.End(vrtH); vrtF(%s) }() }",
			strings.Join(lhs, ", "), strings.Join(rhs, ", "), strings.Join(args, ", ")))
		return
	}
	in.insert(s.Pos(), "{ vrtH := vrt.Detach(); ")
	in.insert(s.End(), "; vrt.Attach(vrtH) }")
}

// bindable says whether the function and the arguments of a call can be put in variables (no rewriting is to happen
// within them).
func (in *instr) bindable(c *ast.CallExpr) bool {
	if tv, ok := in.info.Types[c.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
		return false
	}
	for _, e := range append([]ast.Expr{c.Fun}, c.Args...) {
		if in.syncs(e) {
			return false
		}
		lit := false
		ast.Inspect(e, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				lit = true
			}
			return !lit
		})
		if lit {
			return false
		}
		if tv, ok := in.info.Types[e]; ok {
			if _, tuple := tv.Type.(*types.Tuple); tuple {
				return false
			}
		}
	}
	return true
}

// channels says whether a body operates on channels.
func (in *instr) channels(body *ast.BlockStmt) bool {
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SendStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.RangeStmt:
			if tv, ok := in.info.Types[x.X]; ok && tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Chan); ok {
					found = true
				}
			}
		}
		return !found
	})
	return found
}
