package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

type instr struct {
	info       *types.Info
	pkg        *types.Package
	own        bool
	gen        bool
	file       *ast.File
	p          *listPkg
	target     target
	n          int
	used       bool
	fixRuntime bool
	fixTime    string
	replaced   map[ast.Expr]ast.Expr
}

func (in *instr) generatedFile(name string) bool {
	return strings.HasSuffix(name, "_gen.go") || strings.HasSuffix(name, ".pb.go")
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (in *instr) sim(name string) ast.Expr {
	in.used = true
	return &ast.SelectorExpr{X: id("vsim"), Sel: id(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func define(names []string, rhs ...ast.Expr) ast.Stmt {
	l := make([]ast.Expr, len(names))
	for i, n := range names {
		l[i] = id(n)
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: rhs}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (in *instr) kind(e ast.Expr) string {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return ""
	}
	switch tv.Type.Underlying().(type) {
	case *types.Map:
		return "map"
	case *types.Chan:
		return "chan"
	}
	return ""
}

func (in *instr) pkgFunc(e ast.Expr) string {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	x, ok := s.X.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := in.info.Uses[x].(*types.PkgName); ok {
		return pn.Imported().Path() + "." + s.Sel.Name
	}
	return ""
}

func (in *instr) rewriteFile(f *ast.File) {
	in.used = false
	in.fixRuntime = false
	in.fixTime = ""
	in.replaced = map[ast.Expr]ast.Expr{}
	// bbolt: data is made durable through the file wrapper
	if in.target.modPath == "go.etcd.io/bbolt" {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "fdatasync" {
				old := fd.Body.List
				fd.Body.List = []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{
					call(&ast.SelectorExpr{X: &ast.SelectorExpr{X: id("db"), Sel: id("file")}, Sel: id("Sync")})}}}
				// keep the imports used
				lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: id("error")}}}}, Body: &ast.BlockStmt{List: old}}
				fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{lit}}}, fd.Body.List...)
			}
		}
	}
	inSelect := map[ast.Node]bool{}
	kinds := map[ast.Node]string{}
	selBlocks := map[*ast.BlockStmt]bool{}
	gotos := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.GOTO {
			gotos[b.Label.Name] = true
		}
		return true
	})
	pre := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.SelectStmt:
			for _, cl := range n.Body.List {
				cc := cl.(*ast.CommClause)
				switch s := cc.Comm.(type) {
				case *ast.SendStmt:
					inSelect[s] = true
				case *ast.ExprStmt:
					inSelect[ast.Unparen(s.X)] = true
				case *ast.AssignStmt:
					inSelect[ast.Unparen(s.Rhs[0])] = true
				}
			}
		case *ast.RangeStmt:
			kinds[n] = in.kind(n.X)
		}
		return true
	}
	post := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || inSelect[n] {
				return true
			}
			fn := "Recv"
			switch p := c.Parent().(type) {
			case *ast.AssignStmt:
				if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
					fn = "Recv2"
				}
			case *ast.ValueSpec:
				if len(p.Names) == 2 && len(p.Values) == 1 {
					fn = "Recv2"
				}
			}
			r := call(in.sim(fn), n.X)
			in.replaced[n] = r
			c.Replace(r)
		case *ast.SendStmt:
			if inSelect[n] {
				return true
			}
			c.Replace(&ast.ExprStmt{X: call(call(in.sim("SendTo"), n.Chan), n.Value)})
		case *ast.CallExpr:
			if i, ok := n.Fun.(*ast.Ident); ok && i.Name == "close" {
				if _, ok := in.info.Uses[i].(*types.Builtin); ok {
					n.Fun = in.sim("CloseCh")
				}
				return true
			}
			// readings of the wall clock: each machine has its own
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "UnixMilli" || s.Sel.Name == "Unix") {
				if now, ok := s.X.(*ast.CallExpr); ok && in.pkgFunc(now.Fun) == "time.Now" {
					in.fixTime = now.Fun.(*ast.SelectorExpr).X.(*ast.Ident).Name
					now.Fun = in.sim("WallNow")
				}
			}
			switch in.pkgFunc(n.Fun) {
			case "time.Sleep":
				n.Fun = in.sim("Sleep")
			case "runtime.ReadMemStats":
				n.Fun = in.sim("ReadMemStats")
				in.fixRuntime = true
			case "runtime.NumCPU":
				n.Fun = in.sim("NumCPU")
				in.fixRuntime = true
			case "runtime.GOMAXPROCS":
				n.Fun = in.sim("GOMAXPROCS")
				in.fixRuntime = true
			case "time.AfterFunc":
				n.Fun = in.sim("AfterFunc")
			}
		case *ast.GoStmt:
			c.Replace(in.goStmt(n))
		case *ast.RangeStmt:
			k := kinds[n]
			if k == "" {
				return true
			}
			in.n++
			it := fmt.Sprintf("_vi%d", in.n)
			ref := func(e ast.Expr) ast.Expr {
				if isBlank(e) {
					return id("nil")
				}
				return &ast.UnaryExpr{Op: token.AND, X: e}
			}
			name := func(e ast.Expr) string {
				if isBlank(e) || n.Tok != token.DEFINE {
					return "_"
				}
				return e.(*ast.Ident).Name
			}
			var init ast.Stmt
			var cond ast.Expr
			next := &ast.SelectorExpr{X: id(it), Sel: id("Next")}
			if k == "map" {
				init = define([]string{it, name(n.Key), name(n.Value)}, call(in.sim("MapIter"), n.X))
				cond = call(next, ref(n.Key), ref(n.Value))
			} else {
				init = define([]string{it, name(n.Key)}, call(in.sim("ChanIter"), n.X))
				cond = call(next, ref(n.Key))
			}
			c.Replace(&ast.ForStmt{Init: init, Cond: cond, Body: n.Body})
		case *ast.SelectStmt:
			blk := in.selectStmt(n)
			selBlocks[blk] = true
			c.Replace(blk)
		case *ast.LabeledStmt:
			if blk, ok := n.Stmt.(*ast.BlockStmt); ok && selBlocks[blk] && !gotos[n.Label.Name] {
				last := len(blk.List) - 1
				blk.List[last] = &ast.LabeledStmt{Label: n.Label, Stmt: blk.List[last]}
				c.Replace(blk)
			}
		}
		return true
	}
	astutil.Apply(f, pre, post)
	if in.own && !in.gen {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				n.List = in.yields(n.List)
			case *ast.CaseClause:
				n.Body = in.yields(n.Body)
			}
			return true
		})
	}
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		to, ok := subst[path]
		if !ok && (in.own || path == "golang.org/x/sys/unix") {
			to, ok = ownSubstitutions[path]
		}
		if !ok {
			continue
		}
		if s.Name == nil {
			s.Name = id(pkgs[path].Name)
		}
		s.Path.Value = strconv.Quote(to)
		s.EndPos = 0
	}
	if in.fixRuntime { // the import may have lost its only use
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id("runtime"), Sel: id("NumCPU")}}}}})
	}
	if in.fixTime != "" {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(in.fixTime), Sel: id("Now")}}}}})
	}
	if in.used {
		imp := &ast.ImportSpec{Name: id("vsim"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifsim"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{imp}}}, f.Decls...)
	}
}

// yields puts a preemption point before every statement that may touch shared state.
func (in *instr) yields(list []ast.Stmt) []ast.Stmt {
	res := make([]ast.Stmt, 0, 2*len(list))
	for _, s := range list {
		switch st := s.(type) {
		case *ast.DeclStmt, *ast.LabeledStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		case *ast.ReturnStmt:
			if len(st.Results) > 0 && touches(st) {
				res = append(res, &ast.ExprStmt{X: call(in.sim("Y"))})
			}
		default:
			if touches(s) {
				res = append(res, &ast.ExprStmt{X: call(in.sim("Y"))})
			}
		}
		res = append(res, s)
	}
	return res
}

func touches(s ast.Stmt) bool {
	t := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.CallExpr:
			t = true
		}
		return !t
	})
	return t
}

func (in *instr) goStmt(n *ast.GoStmt) ast.Stmt {
	cl := n.Call
	lit, isLit := ast.Unparen(cl.Fun).(*ast.FuncLit)
	if isLit && len(cl.Args) == 0 {
		return &ast.ExprStmt{X: call(in.sim("Go"), lit)}
	}
	in.n++
	blk := &ast.BlockStmt{}
	args := make([]ast.Expr, len(cl.Args))
	for i, a := range cl.Args {
		if tv, ok := in.info.Types[a]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
			args[i] = a
			continue
		}
		nm := fmt.Sprintf("_va%d_%d", in.n, i)
		blk.List = append(blk.List, define([]string{nm}, a))
		args[i] = id(nm)
	}
	fun := cl.Fun
	if !isLit {
		if i, ok := fun.(*ast.Ident); ok {
			if _, ok := in.info.Uses[i].(*types.Func); !ok {
				nm := fmt.Sprintf("_vf%d", in.n)
				blk.List = append(blk.List, define([]string{nm}, fun))
				fun = id(nm)
			}
		} else if in.pkgFunc(fun) == "" {
			nm := fmt.Sprintf("_vf%d", in.n)
			blk.List = append(blk.List, define([]string{nm}, fun))
			fun = id(nm)
		}
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: cl.Ellipsis}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	blk.List = append(blk.List, &ast.ExprStmt{X: call(in.sim("Go"), body)})
	return blk
}

func (in *instr) selectStmt(n *ast.SelectStmt) *ast.BlockStmt {
	in.n++
	k := in.n
	blk := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	iN, vN, okN := fmt.Sprintf("_vs%d", k), fmt.Sprintf("_vv%d", k), fmt.Sprintf("_vo%d", k)
	hasDef := "false"
	var cases []ast.Expr
	idx := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: cc.Body})
			continue
		}
		cN := fmt.Sprintf("_vc%d_%d", k, idx)
		lab := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}
		recvChan := func(e ast.Expr) {
			u := ast.Unparen(e).(*ast.UnaryExpr)
			blk.List = append(blk.List, define([]string{cN}, u.X))
			cases = append(cases, call(in.sim("RecvCase"), id(cN)))
		}
		body := cc.Body
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			blk.List = append(blk.List, define([]string{cN}, s.Chan))
			cases = append(cases, call(call(in.sim("SendCase"), id(cN)), s.Value))
		case *ast.ExprStmt:
			recvChan(s.X)
		case *ast.AssignStmt:
			recvChan(s.Rhs[0])
			as := call(in.sim("As"), id(cN), id(vN))
			a := &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: []ast.Expr{as}}
			if len(s.Lhs) == 2 {
				a.Rhs = append(a.Rhs, id(okN))
			}
			allBlank := true
			for _, l := range s.Lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			if allBlank {
				a.Tok = token.ASSIGN
			}
			body = append([]ast.Stmt{a}, body...)
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{lab}, Body: body})
		idx++
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	blk.List = append(blk.List,
		define([]string{iN, vN, okN}, call(in.sim("Select"), append([]ast.Expr{id(hasDef)}, cases...)...)),
		&ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(vN), id(okN)}},
	)
	sw.Tag = id(iN)
	blk.List = append(blk.List, sw)
	return blk
}
