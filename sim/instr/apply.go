package main

import "go/ast"

// apply rewrites every expression and statement list below n, children first.
func apply(n ast.Node, fe func(ast.Expr) ast.Expr, fl func([]ast.Stmt) []ast.Stmt) {
	a := &applier{fe, fl}
	a.node(n)
}

type applier struct {
	fe func(ast.Expr) ast.Expr
	fl func([]ast.Stmt) []ast.Stmt
}

func (a *applier) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	a.node(e)
	return a.fe(e)
}
func (a *applier) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = a.expr(es[i])
	}
}
func (a *applier) fields(f *ast.FieldList) {
	if f == nil {
		return
	}
	for _, x := range f.List {
		x.Doc, x.Comment = nil, nil
		x.Type = a.expr(x.Type)
	}
}

// stmt rewrites below a statement that is not in a list (init, post, else...).
func (a *applier) stmt(s ast.Stmt) {
	if s != nil {
		a.node(s)
	}
}
func (a *applier) block(b *ast.BlockStmt) {
	if b != nil {
		a.node(b)
	}
}
func (a *applier) list(l []ast.Stmt) []ast.Stmt {
	for _, s := range l {
		a.node(s)
	}
	return a.fl(l)
}

func (a *applier) node(n ast.Node) {
	switch x := n.(type) {
	case nil:
	case *ast.FuncDecl:
		a.fields(x.Recv)
		a.node(x.Type)
		a.block(x.Body)
	case *ast.GenDecl:
		for _, s := range x.Specs {
			a.node(s)
		}
	case *ast.ImportSpec:
	case *ast.ValueSpec:
		x.Doc, x.Comment = nil, nil
		x.Type = a.expr(x.Type)
		a.exprs(x.Values)
	case *ast.TypeSpec:
		x.Doc, x.Comment = nil, nil
		a.fields(x.TypeParams)
		x.Type = a.expr(x.Type)
	// expressions
	case *ast.Ident, *ast.BasicLit, *ast.BadExpr:
	case *ast.Ellipsis:
		x.Elt = a.expr(x.Elt)
	case *ast.FuncLit:
		a.node(x.Type)
		a.block(x.Body)
	case *ast.CompositeLit:
		x.Type = a.expr(x.Type)
		a.exprs(x.Elts)
	case *ast.ParenExpr:
		x.X = a.expr(x.X)
	case *ast.SelectorExpr:
		x.X = a.expr(x.X)
	case *ast.IndexExpr:
		x.X = a.expr(x.X)
		x.Index = a.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = a.expr(x.X)
		a.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X = a.expr(x.X)
		x.Low = a.expr(x.Low)
		x.High = a.expr(x.High)
		x.Max = a.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = a.expr(x.X)
		x.Type = a.expr(x.Type)
	case *ast.CallExpr:
		x.Fun = a.expr(x.Fun)
		a.exprs(x.Args)
	case *ast.StarExpr:
		x.X = a.expr(x.X)
	case *ast.UnaryExpr:
		x.X = a.expr(x.X)
	case *ast.BinaryExpr:
		x.X = a.expr(x.X)
		x.Y = a.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key = a.expr(x.Key)
		x.Value = a.expr(x.Value)
	case *ast.ArrayType:
		x.Len = a.expr(x.Len)
		x.Elt = a.expr(x.Elt)
	case *ast.StructType:
		a.fields(x.Fields)
	case *ast.FuncType:
		a.fields(x.TypeParams)
		a.fields(x.Params)
		a.fields(x.Results)
	case *ast.InterfaceType:
		a.fields(x.Methods)
	case *ast.MapType:
		x.Key = a.expr(x.Key)
		x.Value = a.expr(x.Value)
	case *ast.ChanType:
		x.Value = a.expr(x.Value)
	// statements
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.DeclStmt:
		a.node(x.Decl)
	case *ast.LabeledStmt:
		a.stmt(x.Stmt)
	case *ast.ExprStmt:
		x.X = a.expr(x.X)
	case *ast.SendStmt:
		x.Chan = a.expr(x.Chan)
		x.Value = a.expr(x.Value)
	case *ast.IncDecStmt:
		x.X = a.expr(x.X)
	case *ast.AssignStmt:
		a.exprs(x.Lhs)
		a.exprs(x.Rhs)
	case *ast.GoStmt:
		a.node(x.Call)
	case *ast.DeferStmt:
		a.node(x.Call)
	case *ast.ReturnStmt:
		a.exprs(x.Results)
	case *ast.BlockStmt:
		x.List = a.list(x.List)
	case *ast.IfStmt:
		a.stmt(x.Init)
		x.Cond = a.expr(x.Cond)
		a.block(x.Body)
		a.stmt(x.Else)
	case *ast.CaseClause:
		a.exprs(x.List)
		x.Body = a.list(x.Body)
	case *ast.SwitchStmt:
		a.stmt(x.Init)
		x.Tag = a.expr(x.Tag)
		a.block(x.Body)
	case *ast.TypeSwitchStmt:
		a.stmt(x.Init)
		a.stmt(x.Assign)
		a.block(x.Body)
	case *ast.CommClause:
		// the communication itself stays a real one: select is not simulated
		x.Body = a.list(x.Body)
	case *ast.SelectStmt:
		a.block(x.Body)
	case *ast.ForStmt:
		a.stmt(x.Init)
		x.Cond = a.expr(x.Cond)
		a.stmt(x.Post)
		a.block(x.Body)
	case *ast.RangeStmt:
		x.Key = a.expr(x.Key)
		x.Value = a.expr(x.Value)
		x.X = a.expr(x.X)
		a.block(x.Body)
	}
}
