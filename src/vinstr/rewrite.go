package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func under(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool   { _, ok := under(t).(*types.Pointer); return ok }
func isMap(t types.Type) bool   { _, ok := under(t).(*types.Map); return ok }
func isSlice(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }
func isChan(t types.Type) bool  { _, ok := under(t).(*types.Chan); return ok }
func isArray(t types.Type) bool { _, ok := under(t).(*types.Array); return ok }

func (r *rw) addressable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.Addressable()
}

// shared reports whether the addressable expression e may denote memory visible to other threads.
func (r *rw) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		if !ok || v.IsField() {
			return false
		}
		return v.Parent() == r.pkg.Scope() || r.captured[v]
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		return sel.Indirect() || isPtr(r.typeOf(e.X)) || r.shared(e.X)
	case *ast.IndexExpr:
		t := r.typeOf(e.X)
		switch {
		case isSlice(t), isPtr(t):
			return true
		case isArray(t):
			return r.shared(e.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func (r *rw) readOf(orig ast.Expr, addr ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.call("R", &ast.UnaryExpr{Op: token.AND, X: addr}, r.site(orig))}}
}

func (r *rw) writeOf(orig ast.Expr, addr ast.Expr) ast.Expr {
	return &ast.StarExpr{X: r.call("W", &ast.UnaryExpr{Op: token.AND, X: addr}, r.site(orig))}
}

// addr rewrites e for use as an operand whose own memory is not (yet) accessed.
func (r *rw) addr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		e.X = r.addr(e.X)
		return e
	case *ast.Ident:
		return e
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			return r.expr(e)
		}
		if isPtr(r.typeOf(e.X)) || !r.addressable(e.X) {
			e.X = r.expr(e.X)
		} else {
			e.X = r.addr(e.X)
		}
		return e
	case *ast.IndexExpr:
		t := r.typeOf(e.X)
		switch {
		case isArray(t) && r.addressable(e.X):
			e.X = r.addr(e.X)
		case isMap(t):
			return r.expr(e)
		default:
			e.X = r.expr(e.X)
		}
		e.Index = r.expr(e.Index)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	}
	return r.expr(e)
}

// lval rewrites the target of an assignment.
func (r *rw) lval(e ast.Expr) ast.Expr {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return e
		}
	case *ast.IndexExpr:
		if isMap(r.typeOf(x.X)) {
			x.X = r.mapWrite(x, x.X)
			x.Index = r.keyNote(x.Index)
			return x
		}
	}
	if r.full && r.addressable(e) && r.shared(e) {
		return r.writeOf(e, r.addr(e))
	}
	return r.addr(e)
}

func (r *rw) keyNote(k ast.Expr) ast.Expr {
	t := r.typeOf(k)
	k2 := r.expr(k)
	if isPtr(t) || isChan(t) {
		return r.call("K", k2)
	}
	return k2
}

func (r *rw) mapRead(n ast.Node, m ast.Expr) ast.Expr {
	m2 := r.expr(m)
	if !r.full {
		return m2
	}
	return r.call("MR", m2, r.site(n))
}

func (r *rw) mapWrite(n ast.Node, m ast.Expr) ast.Expr {
	m2 := r.expr(m)
	if !r.full {
		return m2
	}
	return r.call("MW", m2, r.site(n))
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

var reflectReads = map[string]bool{"Bool": true, "Int": true, "Uint": true, "Float": true, "String": true, "Interface": true,
	"Len": true, "IsNil": true, "Pointer": true, "Complex": true, "Bytes": true, "Elem": true, "IsZero": true, "Convert": true}
var reflectWrites = map[string]bool{"Set": true, "SetInt": true, "SetUint": true, "SetFloat": true, "SetString": true, "SetBool": true, "SetLen": true, "SetZero": true}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// plainTypes are types of the standard library that are not safe for concurrent use, with those of
// their methods that only read.
var plainTypes = map[string]string{
	"bytes.Buffer": " Len Cap String Bytes Available ", "bytes.Reader": " Len Size ",
	"strings.Builder": " Len Cap String ", "strings.Reader": " Len Size ",
	"bufio.Writer": " Available Buffered Size ", "bufio.Reader": " Buffered Size ", "bufio.Scanner": " Err ",
	"compress/gzip.Writer": "", "compress/gzip.Reader": "", "encoding/json.Encoder": "", "encoding/json.Decoder": "",
	"container/list.List": " Len Front Back ", "text/tabwriter.Writer": "", "math/rand.Rand": "",
}

// plainType: is t one of these or a pointer to one?
func plainType(t types.Type) (reads string, ok bool) {
	if p, isp := types.Unalias(t).(*types.Pointer); isp {
		t = p.Elem()
	}
	n, isn := types.Unalias(t).(*types.Named)
	if !isn || n.Obj().Pkg() == nil {
		return "", false
	}
	reads, ok = plainTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	return
}

// writers are functions and methods of the standard library that write to an argument at once.
var writers = map[string]bool{"Fprint": true, "Fprintf": true, "Fprintln": true, "WriteString": true, "Copy": true, "Execute": true, "ExecuteTemplate": true, "WriteTo": true}

// sliceArgs are what functions of the standard library do to their first argument.
var sliceArgs = map[string]string{"strings.Join": "RS", "bytes.Join": "RS", "sort.Strings": "WS", "sort.Ints": "WS", "sort.Float64s": "WS", "sort.Slice": "WS", "sort.SliceStable": "WS",
	"slices.Sort": "WS", "slices.SortFunc": "WS", "slices.SortStableFunc": "WS", "slices.Reverse": "WS", "slices.Clone": "RS",
	"strconv.AppendInt": "App", "strconv.AppendUint": "App", "strconv.AppendFloat": "App", "strconv.AppendQuote": "App", "strconv.AppendBool": "App",
	"fmt.Append": "App", "fmt.Appendf": "App", "fmt.Appendln": "App", "unicode/utf8.AppendRune": "App"}

// stdArgs records what a call of the standard library does to arguments that may be shared.
func (r *rw) stdArgs(e *ast.CallExpr) {
	if !r.full {
		return
	}
	pkg, name := r.pkgFunc(e.Fun)
	method := false
	if pkg == "" {
		se, ok := unparen(e.Fun).(*ast.SelectorExpr)
		if !ok {
			return
		}
		sel := r.info.Selections[se]
		if sel == nil || sel.Kind() != types.MethodVal || sel.Obj().Pkg() == nil {
			return
		}
		name, method = se.Sel.Name, true
	}
	site := r.site(e)
	if h := sliceArgs[pkg+"."+name]; h != "" && !method && len(e.Args) > 0 && isSlice(r.typeOf(e.Args[0])) {
		e.Args[0] = &wrapped{h: h, Expr: e.Args[0], site: site}
	}
	if method && name == "Write" && len(e.Args) == 1 && isSlice(r.typeOf(e.Args[0])) {
		e.Args[0] = &wrapped{h: "RS", Expr: e.Args[0], site: site}
	}
	if writers[name] {
		for i, a := range e.Args {
			if _, ok := plainType(r.typeOf(a)); ok && isPtr(r.typeOf(a)) {
				e.Args[i] = &wrapped{h: "W", Expr: a, site: site}
			}
		}
	}
}

// deferredObject finds the object of a deferred method call that is not safe for concurrent use.
func (r *rw) deferredObject(c *ast.CallExpr) (obj, site ast.Expr) {
	se, ok := unparen(c.Fun).(*ast.SelectorExpr)
	if !ok || !r.full {
		return nil, nil
	}
	sel := r.info.Selections[se]
	id, isID := unparen(se.X).(*ast.Ident)
	if sel == nil || sel.Kind() != types.MethodVal || len(sel.Index()) != 1 || !isID || !isPtr(r.typeOf(se.X)) {
		return nil, nil
	}
	if _, ok := plainType(r.typeOf(se.X)); !ok {
		return nil, nil
	}
	return ast.NewIdent(id.Name), r.site(se)
}

// wrapped is an argument whose value is passed through a recording function once it has been rewritten.
type wrapped struct {
	ast.Expr
	h    string
	site ast.Expr
}

// pkgFunc returns "pkg.Name" for a qualified identifier.
func (r *rw) pkgFunc(e ast.Expr) (string, string) {
	se, ok := unparen(e).(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	id, ok := se.X.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path(), se.Sel.Name
}

// expr rewrites e as a value that is read.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if w, ok := e.(*wrapped); ok {
		return r.call(w.h, r.expr(w.Expr), w.site)
	}
	if tv, ok := r.info.Types[e]; ok && (tv.IsType() || tv.IsBuiltin() || tv.Value != nil) {
		return e
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.Ident:
		if _, ok := r.info.Uses[e].(*types.Var); ok && r.full && r.addressable(e) && r.shared(e) {
			return r.readOf(e, e)
		}
		return e
	case *ast.SelectorExpr:
		if p, n := r.pkgFunc(e); p != "" {
			if p == "time" && timeFuncs[n] != "" {
				return r.v(timeFuncs[n])
			}
			if f := envFuncs[p+"."+n]; f != "" {
				return r.v(f)
			}
			return e
		}
		sel := r.info.Selections[e]
		if sel == nil {
			return e
		}
		switch sel.Kind() {
		case types.FieldVal:
			if r.full && r.addressable(e) && r.shared(e) {
				return r.readOf(e, r.addr(e))
			}
			return r.addr(e)
		case types.MethodVal:
			sig, _ := sel.Obj().Type().(*types.Signature)
			ptrRecv := sig != nil && sig.Recv() != nil && isPtr(sig.Recv().Type())
			xt := r.typeOf(e.X)
			if r.full && isNamed(xt, "reflect", "Value") && (reflectReads[e.Sel.Name] || reflectWrites[e.Sel.Name]) {
				h := "RV"
				if reflectWrites[e.Sel.Name] {
					h = "WV"
				}
				site := r.site(e)
				e.X = r.call(h, r.expr(e.X), site)
				return e
			}
			if reads, ok := plainType(xt); ok && r.full && len(sel.Index()) == 1 {
				h := "W"
				if strings.Contains(reads, " "+e.Sel.Name+" ") {
					h = "R"
				}
				site := r.site(e)
				if isPtr(xt) {
					e.X = r.call(h, r.expr(e.X), site)
					return e
				}
				if r.addressable(e.X) && r.shared(e.X) {
					e.X = &ast.ParenExpr{X: &ast.StarExpr{X: r.call(h, &ast.UnaryExpr{Op: token.AND, X: r.addr(e.X)}, site)}}
					return e
				}
			}
			if ptrRecv && !isPtr(xt) && r.addressable(e.X) {
				e.X = r.addr(e.X)
			} else if _, isIface := under(xt).(*types.Interface); !isIface && !ptrRecv && !isPtr(xt) && len(sel.Index()) > 1 && r.addressable(e.X) {
				e.X = r.addr(e.X)
			} else {
				e.X = r.expr(e.X)
			}
			return e
		}
		return e
	case *ast.StarExpr:
		site := r.site(e)
		e.X = r.expr(e.X)
		if r.full {
			return &ast.ParenExpr{X: &ast.StarExpr{X: r.call("R", e.X, site)}}
		}
		return e
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			if _, ok := unparen(e.X).(*ast.CompositeLit); ok {
				e.X = r.expr(e.X)
			} else {
				e.X = r.addr(e.X)
			}
			return e
		case token.ARROW:
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
		return e
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[e.Index]; ok && tv.IsType() {
			return e // generic instantiation
		}
		t := r.typeOf(e.X)
		if isMap(t) {
			n := *e
			e.X = r.mapRead(&n, e.X)
			e.Index = r.expr(e.Index)
			return e
		}
		if r.full && r.addressable(e) && r.shared(e) {
			return r.readOf(e, r.addr(e))
		}
		if isArray(t) && r.addressable(e.X) {
			e.X = r.addr(e.X)
		} else {
			e.X = r.expr(e.X)
		}
		e.Index = r.expr(e.Index)
		return e
	case *ast.SliceExpr:
		if isArray(r.typeOf(e.X)) {
			e.X = r.addr(e.X)
		} else {
			e.X = r.expr(e.X)
		}
		e.Low, e.High, e.Max = r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.CallExpr:
		return r.callExpr(e)
	case *ast.FuncLit:
		r.block(e.Body)
		return e
	case *ast.CompositeLit:
		_, isStruct := under(deref(r.typeOf(e))).(*types.Struct)
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				e.Elts[i] = r.expr(el)
			}
		}
		return e
	}
	return e
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (r *rw) callExpr(e *ast.CallExpr) ast.Expr {
	if tv, ok := r.info.Types[e.Fun]; ok {
		if tv.IsType() {
			conv := r.full && len(e.Args) == 1 && isSlice(r.typeOf(e.Args[0])) && !isSlice(tv.Type) && !isPtr(tv.Type)
			if b, ok := under(tv.Type).(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				conv = false
			}
			site := r.site(e)
			r.exprs(e.Args)
			if conv {
				e.Args[0] = r.call("RS", e.Args[0], site)
			}
			return e
		}
		if tv.IsBuiltin() {
			name := ""
			if id, ok := unparen(e.Fun).(*ast.Ident); ok {
				name = id.Name
			}
			switch name {
			case "len":
				t := r.typeOf(e.Args[0])
				if isChan(t) {
					return r.call("Len", r.expr(e.Args[0]))
				}
				if isMap(t) {
					e.Args[0] = r.mapRead(e, e.Args[0])
					return e
				}
			case "close":
				return r.call("Close", r.expr(e.Args[0]))
			case "delete":
				e.Args[0] = r.mapWrite(e, e.Args[0])
				e.Args[1] = r.expr(e.Args[1])
				return e
			case "clear":
				if isMap(r.typeOf(e.Args[0])) {
					e.Args[0] = r.mapWrite(e, e.Args[0])
					return e
				}
			case "append":
				site := r.site(e)
				t0 := r.typeOf(e.Args[0])
				tl := r.typeOf(e.Args[len(e.Args)-1])
				r.exprs(e.Args)
				if r.full && isSlice(t0) {
					e.Args[0] = r.call("App", e.Args[0], site)
				}
				if r.full && e.Ellipsis.IsValid() && isSlice(tl) {
					e.Args[len(e.Args)-1] = r.call("RS", e.Args[len(e.Args)-1], site)
				}
				return e
			case "copy":
				site := r.site(e)
				t0, t1 := r.typeOf(e.Args[0]), r.typeOf(e.Args[1])
				r.exprs(e.Args)
				if r.full && isSlice(t0) {
					e.Args[0] = r.call("WS", e.Args[0], site)
				}
				if r.full && isSlice(t1) {
					e.Args[1] = r.call("RS", e.Args[1], site)
				}
				return e
			case "new", "make":
				for i := 1; i < len(e.Args); i++ {
					e.Args[i] = r.expr(e.Args[i])
				}
				return e
			}
			r.exprs(e.Args)
			return e
		}
	}
	if p, n := r.pkgFunc(e.Fun); r.full && p == "reflect" && n == "Copy" && len(e.Args) == 2 {
		site := r.site(e)
		r.exprs(e.Args)
		return r.call("ReflectCopy", e.Args[0], e.Args[1], site)
	}
	r.stdArgs(e)
	e.Fun = r.expr(e.Fun)
	r.exprs(e.Args)
	return e
}

// ---- statements ----

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, len(l))
	for _, s := range l {
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rw) isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	pre, m := r.stmt2(s, "")
	if len(pre) == 0 {
		return m
	}
	return &ast.BlockStmt{List: append(pre, m)}
}

func (r *rw) stmt2(s ast.Stmt, label string) (pre []ast.Stmt, main ast.Stmt) {
	switch s := s.(type) {
	case nil:
		return nil, nil
	case *ast.AssignStmt:
		return nil, r.assign(s)
	case *ast.IncDecStmt:
		s.X = r.lval(s.X)
		return nil, s
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return nil, s
	case *ast.SendStmt:
		ch := r.expr(s.Chan)
		return nil, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", ch), Args: []ast.Expr{r.expr(s.Value)}}}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		if obj, site := r.deferredObject(s.Call); obj != nil {
			// the object is used when the call runs, not here: recorded just before that
			se := unparen(s.Call.Fun).(*ast.SelectorExpr)
			se.X = r.expr(se.X)
			r.exprs(s.Call.Args)
			return []ast.Stmt{s}, &ast.DeferStmt{Call: r.call("W", obj, site)}
		}
		if c, ok := r.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
		return nil, s
	case *ast.ReturnStmt:
		r.exprs(s.Results)
		return nil, s
	case *ast.BlockStmt:
		r.block(s)
		return nil, s
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
		return nil, s
	case *ast.ForStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.simple(s.Post)
		r.block(s.Body)
		return nil, s
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		s.Tag = r.expr(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			r.exprs(cc.List)
			cc.Body = r.stmts(cc.Body)
		}
		return nil, s
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			r.exprs(a.Rhs)
		case *ast.ExprStmt:
			a.X = r.expr(a.X)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
		return nil, s
	case *ast.LabeledStmt:
		p, m := r.stmt2(s.Stmt, s.Label.Name)
		s.Stmt = m
		return p, s
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := r.isRecv(vs.Values[0]); ok {
						vs.Values[0] = r.call("Recv2", r.expr(u.X))
						continue
					}
				}
				r.exprs(vs.Values)
			}
		}
		return nil, s
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	}
	return nil, s
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	_, m := r.stmt2(s, "")
	return m
}

func (r *rw) assign(s *ast.AssignStmt) ast.Stmt {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := r.isRecv(s.Rhs[0]); ok {
			s.Rhs[0] = r.call("Recv2", r.expr(u.X))
			if s.Tok != token.DEFINE {
				for i := range s.Lhs {
					s.Lhs[i] = r.lval(s.Lhs[i])
				}
			}
			return s
		}
	}
	if s.Tok != token.DEFINE {
		for i := range s.Lhs {
			s.Lhs[i] = r.lval(s.Lhs[i])
		}
	}
	r.exprs(s.Rhs)
	return s
}

func define(name string, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

func (r *rw) goStmt(s *ast.GoStmt) ([]ast.Stmt, ast.Stmt) {
	c := s.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.block(fl.Body)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return nil, &ast.ExprStmt{X: r.call("Go", fl)}
		}
	} else {
		if x, ok := r.expr(c).(*ast.CallExpr); ok {
			c = x
		}
	}
	var pre []ast.Stmt
	fn := r.newTmp()
	pre = append(pre, define(fn, c.Fun))
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv, ok := r.info.Types[s.Call.Args[i]]
		if ok && (tv.Value != nil || tv.IsNil()) {
			args[i] = a
			continue
		}
		n := r.newTmp()
		pre = append(pre, define(n, a))
		args[i] = ast.NewIdent(n)
	}
	call := &ast.CallExpr{Fun: ast.NewIdent(fn), Args: args}
	if c.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	return pre, &ast.ExprStmt{X: r.call("Go", body)}
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ([]ast.Stmt, ast.Stmt) {
	t := r.typeOf(s.X)
	site := r.site(s)
	switch {
	case isChan(t):
		ch := r.newTmp()
		pre := []ast.Stmt{define(ch, r.expr(s.X))}
		r.block(s.Body)
		v, ok := r.newTmp(), r.newTmp()
		head := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", ast.NewIdent(ch))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if s.Key != nil && !isBlank(s.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent(v)}})
		} else {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}})
		}
		return pre, &ast.ForStmt{Body: &ast.BlockStmt{List: append(head, s.Body)}}
	case isMap(t):
		s.X = r.call("MapIter", r.expr(s.X), site)
	case isSlice(t):
		s.X = r.expr(s.X)
		if r.full && s.Value != nil && !isBlank(s.Value) {
			s.X = r.call("RS", s.X, site)
		}
	case isArray(t):
		s.X = r.addr(s.X)
	default:
		s.X = r.expr(s.X)
	}
	r.block(s.Body)
	return nil, s
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rw) selectStmt(s *ast.SelectStmt) ([]ast.Stmt, ast.Stmt) {
	var pre []ast.Stmt
	vi, vv, vok := r.newTmp(), r.newTmp(), r.newTmp()
	hasDefault := "false"
	args := []ast.Expr{nil}
	var clauses []ast.Stmt
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		use := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(vv), ast.NewIdent(vok)}}
		body := []ast.Stmt{use}
		if cc.Comm == nil {
			hasDefault = "true"
			body = append(body, r.stmts(cc.Body)...)
			clauses = append(clauses, &ast.CaseClause{Body: body})
			continue
		}
		ch := r.newTmp()
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			val := r.newTmp()
			pre = append(pre, define(ch, r.expr(m.Chan)))
			_ = val
			args = append(args, &ast.CallExpr{Fun: r.call("SendCase", ast.NewIdent(ch)), Args: []ast.Expr{r.expr(m.Value)}})
		case *ast.ExprStmt:
			u, _ := r.isRecv(m.X)
			pre = append(pre, define(ch, r.expr(u.X)))
			args = append(args, r.call("RecvCase", ast.NewIdent(ch)))
		case *ast.AssignStmt:
			u, _ := r.isRecv(m.Rhs[0])
			pre = append(pre, define(ch, r.expr(u.X)))
			args = append(args, r.call("RecvCase", ast.NewIdent(ch)))
			rhs := []ast.Expr{r.call("Val", ast.NewIdent(ch), ast.NewIdent(vv))}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, ast.NewIdent(vok))
			}
			lhs := m.Lhs
			if m.Tok != token.DEFINE {
				for i := range lhs {
					lhs[i] = r.lval(lhs[i])
				}
			}
			body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: m.Tok, Rhs: rhs})
		}
		body = append(body, r.stmts(cc.Body)...)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: itoa(n)}}, Body: body})
		n++
	}
	args[0] = ast.NewIdent(hasDefault)
	if hasDefault == "false" {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"vsched: unreachable"`}}}}}})
	}
	sw := &ast.SwitchStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(vi), ast.NewIdent(vv), ast.NewIdent(vok)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Select", args...)}},
		Tag:  ast.NewIdent(vi),
		Body: &ast.BlockStmt{List: clauses},
	}
	return pre, sw
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}
