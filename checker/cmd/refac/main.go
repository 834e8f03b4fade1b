// refac rewrites a copy of the repository with one mechanical refactoring that keeps its behaviour.
// usage: refac -repo DIR -t NAME [-only REGEXP over pkg/file:func] [-list]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	repo = flag.String("repo", "", "")
	tn   = flag.String("t", "", "")
	only = flag.String("only", "", "")
	list = flag.Bool("list", false, "")
)

type tr struct {
	p    *packages.Package
	info *types.Info
	fn   *ast.FuncDecl
	n    int
	k    int
	add  []ast.Decl
	all  []*packages.Package
}

func (t *tr) fresh(s string) *ast.Ident { t.k++; return ast.NewIdent(fmt.Sprintf("%sV%d", s, t.k)) }

func main() {
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: *repo, ParseFile: func(fs *token.FileSet, name string, src []byte) (*ast.File, error) {
		return parser.ParseFile(fs, name, src, parser.SkipObjectResolution)
	}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	re := regexp.MustCompile(*only)
	total := 0
	if *tn == "rename" {
		total = rename(pkgs, re)
	}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			rel, _ := filepath.Rel(*repo, name)
			if strings.HasPrefix(rel, "..") {
				continue
			}
			n := 0
			if *tn == "rename" {
				n = 1
			}
			var add []ast.Decl
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || *tn == "rename" {
					continue
				}
				id := rel + ":" + fd.Name.Name
				if !re.MatchString(id) {
					continue
				}
				t := &tr{p: p, info: p.TypesInfo, fn: fd}
				t.apply(*tn)
				if t.n > 0 && *list {
					fmt.Println(id, t.n)
				}
				n += t.n
				add = append(add, t.add...)
			}
			if n == 0 || *list {
				continue
			}
			total += n
			f.Decls = append(f.Decls, add...)
			var b bytes.Buffer
			if err := format.Node(&b, p.Fset, f); err != nil {
				fmt.Fprintln(os.Stderr, "print", name, err)
				continue
			}
			if err := os.WriteFile(name, b.Bytes(), 0644); err != nil {
				panic(err)
			}
		}
	}
	if !*list {
		fmt.Println(*tn, total, "places")
	}
}

func rename(pkgs []*packages.Package, re *regexp.Regexp) int {
	n := 0
	local := map[*types.Package]bool{}
	for _, p := range pkgs {
		local[p.Types] = true
	}
	want := func(o types.Object) bool {
		if o == nil || o.Pkg() == nil || !local[o.Pkg()] || o.Exported() || o.Name() == "_" || o.Name() == "init" || o.Name() == "main" {
			return false
		}
		switch x := o.(type) {
		case *types.Func:
		case *types.Var:
			if !x.IsField() && x.Parent() != o.Pkg().Scope() {
				return *only == "locals" && x.Parent() != nil
			}
		case *types.TypeName:
			if x.Parent() != o.Pkg().Scope() {
				return false
			}
		case *types.Const:
		default:
			return false
		}
		return *only != "locals" && re.MatchString(strings.TrimPrefix(o.Pkg().Path(), "github.com/scouter-contrib/scouter-agent-golang/")+":"+o.Name())
	}
	for _, p := range pkgs {
		for id, o := range p.TypesInfo.Defs {
			if want(o) {
				if *list {
					fmt.Println(o.Pkg().Path() + ":" + o.Name())
				}
				id.Name += "Renamed"
				n++
			}
		}
		for id, o := range p.TypesInfo.Uses {
			if want(o) {
				id.Name += "Renamed"
			}
		}
		// symbolic variables of type switches
		for _, o := range p.TypesInfo.Implicits {
			_ = o
		}
	}
	return n
}

func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// leaves: the statement may leave its place other than by falling through (return, break, continue, goto, recover, defer, Caller).
func leaves(n ast.Node) bool {
	bad := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			bad = true
		case *ast.CallExpr:
			if s, ok := y.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Caller" || s.Sel.Name == "Callers" || s.Sel.Name == "Stack") {
				bad = true
			}
			if s, ok := y.Fun.(*ast.Ident); ok && (s.Name == "recover" || s.Name == "startMethodWithParam") {
				bad = true
			}
		}
		return true
	})
	return bad
}

func ends(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok != token.FALLTHROUGH
	}
	return false
}

func (t *tr) apply(name string) {
	body := t.fn.Body
	post := func(f func(c *astutil.Cursor)) {
		astutil.Apply(body, nil, func(c *astutil.Cursor) bool { f(c); return true })
	}
	switch name {
	case "negate":
		post(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.IfStmt); ok {
				t.n++
				els := s.Else
				if els == nil {
					els = &ast.BlockStmt{}
				}
				if e, ok := els.(*ast.IfStmt); ok {
					els = &ast.BlockStmt{List: []ast.Stmt{e}}
				}
				s.Cond, s.Body, s.Else = not(s.Cond), els.(*ast.BlockStmt), s.Body
			}
		})
	case "cond-var":
		post(func(c *astutil.Cursor) {
			if s, ok := c.Node().(*ast.IfStmt); ok && c.Index() >= 0 {
				t.n++
				v := t.fresh("cond")
				pre := []ast.Stmt{}
				if s.Init != nil {
					pre = append(pre, s.Init)
				}
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Cond}})
				s.Init, s.Cond = nil, v
				c.Replace(&ast.BlockStmt{List: append(pre, s)})
			}
		})
	case "ret-var":
		rs := t.fn.Type.Results
		if rs == nil {
			return
		}
		clash := false
		ast.Inspect(t.fn, func(x ast.Node) bool {
			if n, ok := x.(*ast.Ident); ok && t.info.Defs[n] != nil {
				ast.Inspect(rs, func(y ast.Node) bool {
					if id, ok := y.(*ast.Ident); ok && id != n && id.Name == n.Name {
						clash = true
					}
					return true
				})
			}
			return true
		})
		if clash {
			return
		}
		var ts []ast.Expr
		for _, f := range rs.List {
			k := len(f.Names)
			if k == 0 {
				k = 1
			}
			for i := 0; i < k; i++ {
				ts = append(ts, f.Type)
			}
		}
		astutil.Apply(body, func(c *astutil.Cursor) bool { _, lit := c.Node().(*ast.FuncLit); return !lit }, func(c *astutil.Cursor) bool {
			if r, ok := c.Node().(*ast.ReturnStmt); ok && len(r.Results) == len(ts) && c.Index() >= 0 {
				t.n++
				var pre []ast.Stmt
				for i := range r.Results {
					v := t.fresh("res")
					pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{v}, Type: ts[i], Values: []ast.Expr{r.Results[i]}}}}})
					r.Results[i] = ast.NewIdent(v.Name)
				}
				for _, s := range pre {
					c.InsertBefore(s)
				}
			}
			return true
		})
	case "range-index":
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.RangeStmt)
			if !ok || s.Tok == token.ASSIGN {
				return
			}
			if _, ok := t.info.TypeOf(s.X).Underlying().(*types.Slice); !ok {
				return
			}
			if c.Index() < 0 {
				return
			}
			t.n++
			x, i := t.fresh("xs"), t.fresh("i")
			pre := []ast.Stmt{}
			def := func(e ast.Expr, v ast.Expr) {
				if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
				}
			}
			def(s.Key, ast.NewIdent(i.Name))
			def(s.Value, &ast.IndexExpr{X: ast.NewIdent(x.Name), Index: ast.NewIdent(i.Name)})
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}},
				&ast.ForStmt{
					Init: &ast.AssignStmt{Lhs: []ast.Expr{i}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
					Cond: &ast.BinaryExpr{X: ast.NewIdent(i.Name), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{ast.NewIdent(x.Name)}}},
					Post: &ast.IncDecStmt{X: ast.NewIdent(i.Name), Tok: token.INC},
					Body: &ast.BlockStmt{List: append(pre, s.Body.List...)},
				},
			}})
		})
	case "switch-if":
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.SwitchStmt)
			if !ok || s.Init != nil || c.Index() < 0 {
				return
			}
			if leavesBreak(s.Body) {
				return
			}
			var tag *ast.Ident
			pre := []ast.Stmt{}
			if s.Tag != nil {
				tag = t.fresh("tag")
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{tag}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Tag}})
			}
			var els ast.Stmt
			var cs []*ast.CaseClause
			for _, b := range s.Body.List {
				cc := b.(*ast.CaseClause)
				if cc.List == nil {
					els = &ast.BlockStmt{List: cc.Body}
				} else {
					cs = append(cs, cc)
				}
			}
			if len(cs) == 0 {
				return
			}
			t.n++
			for i := len(cs) - 1; i >= 0; i-- {
				var cond ast.Expr
				for _, e := range cs[i].List {
					var q ast.Expr = e
					if tag != nil {
						q = &ast.BinaryExpr{X: ast.NewIdent(tag.Name), Op: token.EQL, Y: e}
					}
					if cond == nil {
						cond = q
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: q}
					}
				}
				els = &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cs[i].Body}, Else: els}
			}
			c.Replace(&ast.BlockStmt{List: append(pre, els)})
		})
	case "if-switch":
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || c.Index() < 0 {
				return
			}
			if leavesBreak(s) {
				return
			}
			t.n++
			var cs []ast.Stmt
			init := s.Init
			cs = append(cs, &ast.CaseClause{List: []ast.Expr{s.Cond}, Body: s.Body.List})
			if s.Else != nil {
				cs = append(cs, &ast.CaseClause{Body: []ast.Stmt{s.Else}})
			}
			c.Replace(&ast.SwitchStmt{Init: init, Body: &ast.BlockStmt{List: cs}})
		})
	case "else-rest": // if c {..return}; rest  ->  if c {..return} else { rest }
		post(func(c *astutil.Cursor) {
			b, ok := c.Node().(*ast.BlockStmt)
			if !ok {
				return
			}
			for i := len(b.List) - 2; i >= 0; i-- {
				s, ok := b.List[i].(*ast.IfStmt)
				if !ok || s.Else != nil || !ends(s.Body) {
					continue
				}
				if _, isFn := c.Parent().(*ast.FuncDecl); isFn && t.fn.Type.Results != nil {
					// a terminating statement is still needed: the rest ends with a return in both branches
					if !ends(b) {
						continue
					}
				}
				if _, isLit := c.Parent().(*ast.FuncLit); isLit {
					continue
				}
				t.n++
				rest := append([]ast.Stmt{}, b.List[i+1:]...)
				s.Else = &ast.BlockStmt{List: rest}
				b.List = b.List[:i+1]
			}
		})
	case "early-return": // last if without else in a function without results
		if t.fn.Type.Results != nil || len(body.List) == 0 {
			return
		}
		if s, ok := body.List[len(body.List)-1].(*ast.IfStmt); ok && s.Else == nil && s.Init == nil {
			t.n++
			body.List = append(body.List[:len(body.List)-1], &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{}}}})
			body.List = append(body.List, s.Body.List...)
		}
	case "body-closure": // an if or loop body becomes a function literal that is called
		post(func(c *astutil.Cursor) {
			var b *ast.BlockStmt
			switch s := c.Node().(type) {
			case *ast.IfStmt:
				b = s.Body
			case *ast.ForStmt:
				b = s.Body
			case *ast.RangeStmt:
				b = s.Body
			}
			if b == nil || len(b.List) == 0 || leaves(b) {
				return
			}
			t.n++
			b.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: b.List}}}}}
		})
	case "args":
		post(func(c *astutil.Cursor) {
			var call *ast.CallExpr
			switch s := c.Node().(type) {
			case *ast.ExprStmt:
				call, _ = s.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(s.Rhs) == 1 {
					call, _ = s.Rhs[0].(*ast.CallExpr)
				}
				for _, l := range s.Lhs {
					if _, ok := l.(*ast.Ident); !ok {
						return
					}
				}
			}
			if call == nil || c.Index() < 0 {
				return
			}
			if _, inBlock := c.Parent().(*ast.BlockStmt); !inBlock {
				return
			}
			if tv, ok := t.info.Types[call.Fun]; !ok || tv.IsBuiltin() || tv.IsType() {
				return
			}
			// the receiver is evaluated first: only plain ones
			if s, ok := call.Fun.(*ast.SelectorExpr); ok && !plainExpr(s.X) {
				return
			}
			for i, a := range call.Args {
				tv, ok := t.info.Types[a]
				if !ok || tv.Value != nil || tv.IsNil() || call.Ellipsis.IsValid() {
					continue
				}
				if _, ok := a.(*ast.FuncLit); ok {
					continue
				}
				if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
					continue
				}
				if _, ok := tv.Type.(*types.Tuple); ok {
					continue
				}
				v := t.fresh("arg")
				t.n++
				c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				call.Args[i] = ast.NewIdent(v.Name)
			}
		})
	case "incr":
		post(func(c *astutil.Cursor) {
			switch s := c.Node().(type) {
			case *ast.IncDecStmt:
				if _, isFor := c.Parent().(*ast.ForStmt); isFor || c.Index() < 0 {
					return
				}
				op := token.ADD
				if s.Tok == token.DEC {
					op = token.SUB
				}
				t.n++
				c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
			case *ast.AssignStmt:
				ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.QUO_ASSIGN: token.QUO, token.MUL_ASSIGN: token.MUL}
				if op, ok := ops[s.Tok]; ok && plainExpr(s.Lhs[0]) {
					t.n++
					s.Tok = token.ASSIGN
					s.Rhs = []ast.Expr{&ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}}
				}
			}
		})
	case "for-break":
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.ForStmt)
			if !ok || s.Cond == nil {
				return
			}
			t.n++
			s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
			s.Cond = nil
		})
	case "and-split": // if a && b {x} (no else) -> if a { if b {x} }
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Else != nil {
				return
			}
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				t.n++
				s.Cond = b.X
				s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
			}
		})
	case "or-split": // if a || b {..ends} -> if a {..} ; if b {..}
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Else != nil || s.Init != nil || !ends(s.Body) || c.Index() < 0 {
				return
			}
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR {
				t.n++
				c.InsertBefore(&ast.IfStmt{Cond: b.X, Body: &ast.BlockStmt{List: s.Body.List}})
				s.Cond = b.Y
			}
		})
	case "swap-cmp":
		post(func(c *astutil.Cursor) {
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok {
				return
			}
			m := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
			if op, ok := m[b.Op]; ok {
				t.n++
				b.X, b.Y, b.Op = b.Y, b.X, op
			}
		})
	case "not-cmp":
		post(func(c *astutil.Cursor) {
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok {
				return
			}
			m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL}
			tt := t.info.TypeOf(b.X)
			if tt != nil {
				if bt, ok := tt.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
					m[token.LSS], m[token.GTR], m[token.LEQ], m[token.GEQ] = token.GEQ, token.LEQ, token.GTR, token.LSS
				}
			}
			if op, ok := m[b.Op]; ok {
				t.n++
				b.Op = op
				c.Replace(not(b))
			}
		})
	case "impl": // the body moves to a helper
		t.impl()
	case "alias": // receiver copied to a local
		if t.fn.Recv != nil && len(t.fn.Recv.List[0].Names) == 1 {
			r := t.fn.Recv.List[0].Names[0]
			if _, ptr := t.fn.Recv.List[0].Type.(*ast.StarExpr); !ptr || r.Name == "_" {
				return
			}
			used := false
			v := t.fresh("self")
			obj := t.info.Defs[r]
			ast.Inspect(body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && t.info.Uses[id] == obj {
					id.Name = v.Name
					used = true
				}
				return true
			})
			if used {
				t.n++
				body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{ast.NewIdent(r.Name)}}}, body.List...)
			}
		}
	case "var-decl": // x := e -> var x = e
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.AssignStmt)
			if !ok || s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 || c.Index() < 0 {
				return
			}
			if _, inBlock := c.Parent().(*ast.BlockStmt); !inBlock {
				return
			}
			t.n++
			v := s.Lhs[0].(*ast.Ident)
			c.Replace(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{v}, Values: s.Rhs}}}})
		})
	case "new-fields": // x := &T{a: b} -> x := new(T); x.a = b
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.AssignStmt)
			if !ok || len(s.Lhs) != 1 || len(s.Rhs) != 1 || c.Index() < 0 {
				return
			}
			if _, inBlock := c.Parent().(*ast.BlockStmt); !inBlock {
				return
			}
			v, ok := s.Lhs[0].(*ast.Ident)
			if !ok {
				return
			}
			u, ok := s.Rhs[0].(*ast.UnaryExpr)
			if !ok || u.Op != token.AND {
				return
			}
			l, ok := u.X.(*ast.CompositeLit)
			if !ok || len(l.Elts) == 0 {
				return
			}
			var post []ast.Stmt
			for _, e := range l.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return
				}
				if cl, ok := kv.Value.(*ast.CompositeLit); ok && cl.Type == nil {
					return
				}
				post = append(post, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
			t.n++
			s.Rhs[0] = &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{l.Type}}
			for i := len(post) - 1; i >= 0; i-- {
				c.InsertAfter(post[i])
			}
		})
	case "defer-closure": // defer x.Unlock() -> defer func() { x.Unlock() }()
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.DeferStmt)
			if !ok {
				return
			}
			if sel, ok := s.Call.Fun.(*ast.SelectorExpr); ok && (strings.HasSuffix(sel.Sel.Name, "Unlock") || sel.Sel.Name == "Close") && plainExpr(sel.X) {
				t.n++
				s.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: s.Call}}}}}
			}
		})
	case "type-switch-if": // switch v := x.(type) with single types -> chain of comma-ok assertions
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.TypeSwitchStmt)
			if !ok || s.Init != nil || c.Index() < 0 || leavesBreak(s.Body) {
				return
			}
			var x ast.Expr
			var v string
			switch a := s.Assign.(type) {
			case *ast.AssignStmt:
				v = a.Lhs[0].(*ast.Ident).Name
				x = a.Rhs[0].(*ast.TypeAssertExpr).X
			case *ast.ExprStmt:
				x = a.X.(*ast.TypeAssertExpr).X
			}
			if !plainExpr(x) {
				return
			}
			var els ast.Stmt
			var cs []*ast.CaseClause
			for _, b := range s.Body.List {
				cc := b.(*ast.CaseClause)
				if cc.List == nil {
					l := cc.Body
					if v != "" {
						l = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}}}, l...)
					}
					els = &ast.BlockStmt{List: l}
					continue
				}
				if len(cc.List) != 1 {
					return
				}
				if id, ok := cc.List[0].(*ast.Ident); ok && id.Name == "nil" {
					return
				}
				cs = append(cs, cc)
			}
			t.n++
			for i := len(cs) - 1; i >= 0; i-- {
				nm := v
				if nm == "" {
					nm = "_"
				}
				okv := t.fresh("ok")
				l := cs[i].Body
				if v != "" {
					l = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}}}, l...)
				}
				els = &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(nm), okv}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: x, Type: cs[i].List[0]}}}, Cond: ast.NewIdent(okv.Name), Body: &ast.BlockStmt{List: l}, Else: els}
			}
			c.Replace(els)
		})
	case "ifinit": // x := e; if cond(x) -> hoists the init of an if
		post(func(c *astutil.Cursor) {
			s, ok := c.Node().(*ast.IfStmt)
			if ok && s.Init != nil && c.Index() >= 0 {
				t.n++
				in := s.Init
				s.Init = nil
				c.Replace(&ast.BlockStmt{List: []ast.Stmt{in, s}})
			}
		})
	case "helper-stmts": // a run of plain call statements moves to a local function
		post(func(c *astutil.Cursor) {
			b, ok := c.Node().(*ast.BlockStmt)
			if !ok {
				return
			}
			for i := 0; i < len(b.List); i++ {
				j := i
				for j < len(b.List) {
					s, ok := b.List[j].(*ast.ExprStmt)
					if !ok || leaves(s) {
						break
					}
					j++
				}
				if j-i >= 2 {
					t.n++
					v := t.fresh("step")
					run := append([]ast.Stmt{}, b.List[i:j]...)
					rest := append([]ast.Stmt{}, b.List[j:]...)
					b.List = append(b.List[:i:i], &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: run}}}},
						&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(v.Name)}})
					b.List = append(b.List, rest...)
					i++
				}
			}
		})
	default:
		panic("unknown transformation " + name)
	}
}

func plainExpr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plainExpr(x.X)
	case *ast.ParenExpr:
		return plainExpr(x.X)
	case *ast.StarExpr:
		return plainExpr(x.X)
	}
	return false
}

// leavesBreak: a break or fallthrough that belongs to the statement around it.
func leavesBreak(n ast.Node) bool {
	bad := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt:
			// labels and gotos aside, their breaks are their own
			return x == n
		case *ast.SwitchStmt, *ast.TypeSwitchStmt:
			return x == n
		case *ast.BranchStmt:
			if y.Tok == token.BREAK || y.Tok == token.FALLTHROUGH || y.Tok == token.GOTO || y.Label != nil {
				bad = true
			}
		}
		return true
	})
	return bad
}

func (t *tr) impl() {
	fd := t.fn
	n := fd.Name.Name
	if n == "init" || n == "main" || n == "_" {
		return
	}
	bad := false
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		if y, ok := x.(*ast.CallExpr); ok {
			if s, ok := y.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Caller" || s.Sel.Name == "Callers") {
				bad = true
			}
			if s, ok := y.Fun.(*ast.Ident); ok && (s.Name == "recover" || s.Name == "startMethodWithParam") {
				bad = true
			}
		}
		return true
	})
	if bad {
		return
	}
	var args []ast.Expr
	k := 0
	ell := token.NoPos
	for _, f := range fd.Type.Params.List {
		if len(f.Names) == 0 {
			f.Names = []*ast.Ident{ast.NewIdent(fmt.Sprintf("pV%d", k))}
		}
		for i, id := range f.Names {
			if id.Name == "_" {
				f.Names[i] = ast.NewIdent(fmt.Sprintf("pV%d", k))
			}
			k++
			args = append(args, ast.NewIdent(f.Names[i].Name))
		}
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			ell = fd.Pos()
		}
	}
	t.n++
	h := &ast.FuncDecl{Recv: fd.Recv, Name: ast.NewIdent("x" + n + "V"), Type: fd.Type, Body: fd.Body}
	var fun ast.Expr = ast.NewIdent(h.Name.Name)
	if fd.Recv != nil {
		if len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_" {
			fd.Recv.List[0].Names = []*ast.Ident{ast.NewIdent("selfV")}
		}
		fun = &ast.SelectorExpr{X: ast.NewIdent(fd.Recv.List[0].Names[0].Name), Sel: fun.(*ast.Ident)}
	}
	call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
	var s ast.Stmt = &ast.ExprStmt{X: call}
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
		s = &ast.ReturnStmt{Results: []ast.Expr{call}}
	}
	fd.Body = &ast.BlockStmt{List: []ast.Stmt{s}}
	t.add = append(t.add, h)
}
