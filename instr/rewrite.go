package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
)

type rw struct {
	info   *types.Info
	pkg    *types.Package
	usesMC bool
	tmp    int
}

// replacements of package-level names, by package path
var mapped = map[string]map[string]string{
	"sync": same("Mutex RWMutex Once WaitGroup Cond NewCond Pool Map OnceFunc OnceValue OnceValues"),
	"sync/atomic": same("Bool Int32 Int64 Uint32 Uint64 Uintptr Pointer Value " +
		"AddInt32 AddInt64 AddUint32 AddUint64 LoadInt32 LoadInt64 LoadUint32 LoadUint64 StoreInt32 StoreInt64 StoreUint32 StoreUint64 " +
		"SwapInt32 SwapInt64 SwapUint32 CompareAndSwapInt32 CompareAndSwapInt64 CompareAndSwapUint32 CompareAndSwapUint64"),
	"time":    same("NewTimer NewTicker Timer Ticker Now Since Until Sleep After AfterFunc Tick"),
	"context": {"WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline", "WithTimeoutCause": "WithTimeoutCause", "WithDeadlineCause": "WithDeadlineCause", "WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "AfterFunc": "CtxAfterFunc"},
	"runtime": same("Gosched"),
	"fmt":     same("Println Printf Print"),
	"log":     {"Println": "LogPrintln", "Printf": "LogPrintf", "Print": "LogPrint"},
	"maps":    {"Keys": "MapsKeys", "Values": "MapsValues", "All": "RangeMap"},
}

func same(s string) map[string]string {
	m := map[string]string{}
	w := ""
	for _, c := range s + " " {
		if c == ' ' {
			if w != "" {
				m[w] = w
			}
			w = ""
			continue
		}
		w += string(c)
	}
	return m
}

func (r *rw) mc(name string) ast.Expr {
	r.usesMC = true
	return &ast.SelectorExpr{X: ast.NewIdent(mcName), Sel: ast.NewIdent(name)}
}

func (r *rw) fresh(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("%s%d_mcΔ", p, r.tmp))
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
	default:
		x = &ast.ParenExpr{X: x}
	}
	return call(&ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}, args...)
}

func (r *rw) typeOf(x ast.Expr) types.Type {
	if tv, ok := r.info.Types[x]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := x.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		if u, ok := tp.Constraint().Underlying().(*types.Interface); ok && u.NumEmbeddeds() == 1 {
			e := u.EmbeddedType(0)
			if un, ok := e.(*types.Union); ok && un.Len() == 1 {
				e = un.Term(0).Type()
			}
			return e.Underlying()
		}
	}
	return t.Underlying()
}

func (r *rw) isChan(x ast.Expr) bool { _, ok := core(r.typeOf(x)).(*types.Chan); return ok }
func (r *rw) isMap(x ast.Expr) bool  { _, ok := core(r.typeOf(x)).(*types.Map); return ok }

func (r *rw) builtin(x ast.Expr) string {
	if p, ok := x.(*ast.ParenExpr); ok {
		return r.builtin(p.X)
	}
	if id, ok := x.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// external reports whether the called function is compiled from unrewritten source.
func (r *rw) external(fun ast.Expr) bool {
	var id *ast.Ident
	switch f := ast.Unparen(fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	case *ast.IndexExpr:
		return r.external(f.X)
	case *ast.IndexListExpr:
		return r.external(f.X)
	default:
		return false
	}
	fn, ok := r.info.Uses[id].(*types.Func)
	if !ok || fn.Pkg() == nil {
		return false
	}
	p := pkgs[fn.Pkg().Path()]
	if p == nil || !p.Standard {
		return false
	}
	if m := mapped[fn.Pkg().Path()]; m != nil {
		sig := fn.Type().(*types.Signature)
		if sig.Recv() == nil {
			return m[fn.Name()] == ""
		}
		t := sig.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return m[n.Obj().Name()] == ""
		}
	}
	return true
}

// ---- generic traversal ----

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	declT = reflect.TypeOf((*ast.Decl)(nil)).Elem()
	specT = reflect.TypeOf((*ast.Spec)(nil)).Elem()
)

// children rewrites every child of n in place.
func (r *rw) children(n any) {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	for i := 0; i < v.NumField(); i++ {
		r.value(v.Field(i))
	}
}

func (r *rw) value(f reflect.Value) {
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		switch {
		case f.Type() == exprT:
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
		case f.Type() == stmtT:
			f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
		case f.Type() == declT:
			f.Set(reflect.ValueOf(r.decl(f.Interface().(ast.Decl))))
		case f.Type() == specT:
			r.spec(f.Interface().(ast.Spec))
		}
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			r.value(f.Index(i))
		}
	case reflect.Pointer:
		if f.IsNil() {
			return
		}
		switch x := f.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup:
		case *ast.Ident:
		case *ast.BlockStmt:
			r.children(x)
		case *ast.CallExpr:
			// go/defer calls
			switch y := r.expr(x).(type) {
			case *ast.CallExpr:
				f.Set(reflect.ValueOf(y))
			default:
				f.Set(reflect.ValueOf(call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: y}}}})))
			}
		case *ast.FieldList, *ast.Field, *ast.FuncType, *ast.BasicLit:
			r.children(x)
		}
	}
}

func (r *rw) decl(d ast.Decl) ast.Decl {
	r.children(d)
	return d
}

func (r *rw) spec(s ast.Spec) {
	if v, ok := s.(*ast.ValueSpec); ok && len(v.Names) == 2 && len(v.Values) == 1 {
		if u, ok := ast.Unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			v.Values[0] = method(r.expr(u.X), "Recv2")
			if v.Type != nil {
				v.Type = r.expr(v.Type)
			}
			return
		}
	}
	r.children(s)
}

func (r *rw) block(l []ast.Stmt) {
	for i, s := range l {
		l[i] = r.stmt(s)
	}
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: method(r.expr(s.Chan), "Send", r.expr(s.Value))}
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i])
				}
				s.Rhs[0] = method(r.expr(u.X), "Recv2")
				return s
			}
		}
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, s.Label)
		}
		s.Stmt = r.stmt(s.Stmt)
		if b, ok := s.Stmt.(*ast.BlockStmt); ok && len(b.List) == 0 {
			s.Stmt = &ast.EmptyStmt{}
		}
		return s
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.RangeStmt:
		isChan, isMap := r.isChan(s.X), r.isMap(s.X)
		r.children(s)
		if isChan {
			s.X = method(s.X, "Seq")
		} else if isMap {
			s.X = call(r.mc("RangeMap"), s.X)
		}
		return s
	}
	r.children(s)
	return s
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	keep := func(x ast.Expr) bool {
		tv := r.info.Types[x]
		return tv.Value != nil || tv.IsNil() || tv.IsType()
	}
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		r.children(lit)
		return &ast.ExprStmt{X: call(r.mc("Go"), lit)}
	}
	isBuiltin := r.builtin(c.Fun) != ""
	keeps := make([]bool, len(c.Args))
	tuple := 0
	for i, a := range c.Args {
		keeps[i] = keep(a)
		if t, ok := r.typeOf(a).(*types.Tuple); ok {
			tuple = t.Len()
		}
	}
	temp := false
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		_, isFunc := r.info.Uses[f].(*types.Func)
		temp = !isFunc && !isBuiltin
	case *ast.FuncLit:
	case *ast.IndexExpr, *ast.IndexListExpr:
		temp = false
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			_, isPkg := r.info.Uses[id].(*types.PkgName)
			temp = !isPkg
		} else {
			temp = true
		}
	default:
		temp = true
	}
	nx := r.expr(c)
	nc, ok := nx.(*ast.CallExpr)
	if !ok {
		return &ast.ExprStmt{X: call(r.mc("Go"), thunk(nx))}
	}
	if isBuiltin {
		// close(ch) and the like: evaluate the receiver now
		if sel, ok := nc.Fun.(*ast.SelectorExpr); ok {
			t := r.fresh("g")
			pre = append(pre, define(t, sel.X))
			sel.X = t
		}
	}
	if temp {
		t := r.fresh("g")
		pre = append(pre, define(t, nc.Fun))
		nc.Fun = t
	}
	if !isBuiltin && len(nc.Args) == len(keeps) {
		for i := range nc.Args {
			if keeps[i] {
				continue
			}
			if tuple > 1 {
				as := &ast.AssignStmt{Tok: token.DEFINE, Rhs: []ast.Expr{nc.Args[i]}}
				var args []ast.Expr
				for range tuple {
					t := r.fresh("g")
					as.Lhs = append(as.Lhs, t)
					args = append(args, t)
				}
				pre = append(pre, as)
				nc.Args = args
				break
			}
			t := r.fresh("g")
			pre = append(pre, define(t, nc.Args[i]))
			nc.Args[i] = t
		}
	}
	pre = append(pre, &ast.ExprStmt{X: call(r.mc("Go"), thunk(nc))})
	return &ast.BlockStmt{List: pre}
}

func thunk(x ast.Expr) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x}}}}
}

func define(id *ast.Ident, x ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}
}

func (r *rw) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: call(r.mc("BlockForever"))},
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})},
		}}
	}
	def := false
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			def = true
		}
	}
	sv := r.fresh("s")
	boolName := "false"
	if def {
		boolName = "true"
	}
	out := []ast.Stmt{define(sv, call(r.mc("NewSelect"), ast.NewIdent(boolName)))}
	sw := &ast.SwitchStmt{Tag: method(sv, "Do"), Body: &ast.BlockStmt{}}
	idx := 0
	var defClause *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var head []ast.Stmt
		cl := &ast.CaseClause{}
		switch comm := cc.Comm.(type) {
		case nil:
			defClause = cl
		case *ast.SendStmt:
			out = append(out, &ast.ExprStmt{X: method(r.expr(comm.Chan), "SelSend", sv, r.expr(comm.Value))})
		case *ast.ExprStmt:
			u := ast.Unparen(comm.X).(*ast.UnaryExpr)
			out = append(out, &ast.ExprStmt{X: method(r.expr(u.X), "SelRecv", sv)})
		case *ast.AssignStmt:
			u := ast.Unparen(comm.Rhs[0]).(*ast.UnaryExpr)
			cv := r.fresh("c")
			out = append(out, define(cv, method(r.expr(u.X), "SelRecv", sv)))
			get := "Get"
			if len(comm.Lhs) == 2 {
				get = "Get2"
			}
			for i := range comm.Lhs {
				comm.Lhs[i] = r.expr(comm.Lhs[i])
			}
			all := true
			for _, l := range comm.Lhs {
				if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
					all = false
				}
			}
			tok := comm.Tok
			if all {
				tok = token.ASSIGN
			}
			head = append(head, &ast.AssignStmt{Lhs: comm.Lhs, Tok: tok, Rhs: []ast.Expr{method(cv, get)}})
		}
		if cc.Comm != nil {
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}}
			idx++
		}
		r.block(cc.Body)
		cl.Body = append(head, cc.Body...)
		if cl != defClause {
			sw.Body.List = append(sw.Body.List, cl)
		}
	}
	if defClause != nil {
		sw.Body.List = append(sw.Body.List, defClause)
	} else {
		// the last clause as default keeps terminating statements terminating
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	// receive case variables that are never read
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(out, last)}
}

func (r *rw) expr(x ast.Expr) ast.Expr {
	switch x := x.(type) {
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.mc("Chan"), Index: r.expr(x.Value)}}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				if m := mapped[pn.Imported().Path()]; m != nil {
					if to := m[x.Sel.Name]; to != "" {
						return r.mc(to)
					}
				}
				return x
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return method(r.expr(x.X), "Recv")
		}
		if x.Op == token.AND {
			if lit, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
				t := r.typeOf(lit)
				r.children(x)
				if r.ownStruct(t) {
					return call(r.mc("Reg"), x)
				}
				return x
			}
		}
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "make":
			if ct, ok := core(r.typeOf(x.Args[0])).(*types.Chan); ok {
				_ = ct
				var elem ast.Expr
				t := ast.Unparen(x.Args[0])
				lit, isLit := t.(*ast.ChanType)
				if !isLit {
					fatalf("%s: make of a named channel type is not supported", fset.Position(x.Pos()))
				}
				elem = r.expr(lit.Value)
				nc := call(&ast.IndexExpr{X: r.mc("MakeChan"), Index: elem})
				if len(x.Args) > 1 {
					nc.Args = append(nc.Args, call(ast.NewIdent("int"), r.expr(x.Args[1])))
				}
				return nc
			}
		case "new":
			t := r.typeOf(x.Args[0])
			r.children(x)
			if r.ownStruct(t) {
				return call(r.mc("Reg"), x)
			}
			return x
		case "close":
			return method(r.expr(x.Args[0]), "Close")
		case "len", "cap":
			if r.isChan(x.Args[0]) {
				n := "Len"
				if r.builtin(x.Fun) == "cap" {
					n = "Cap"
				}
				return method(r.expr(x.Args[0]), n)
			}
		}
		_, retChan := core(r.typeOf(x)).(*types.Chan)
		if tv := r.info.Types[x.Fun]; retChan && !tv.IsType() && r.external(x.Fun) {
			r.children(x)
			return call(r.mc("FromNative"), x)
		}
	}
	r.children(x)
	return x
}

func (r *rw) ownStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() != r.pkg {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}
