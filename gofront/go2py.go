// go2py prints the functions of Go source files as Python source, statement by
// statement, for the contract verifier. What it cannot express becomes a call
// of unsupported__(...), which makes every obligation that meets it undecided.
//
// Reading of the Go text:
//
//	pointers to structs and structs are references; nil is None
//	x[i], x[a:b] of strings, len, append, delete, make, composite literals are
//	  calls of index__, slice__, len, append__, delete__, make__, new__, given
//	  their meaning (with bounds) by contracts/golang.py
//	'c' is the one-byte string "c"
//	for loops become while loops with the post statement repeated at continue
//	:= in an inner block is renamed when it shadows
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

var fset = token.NewFileSet()

type scope map[string]string

type gen struct {
	out     *strings.Builder
	ind     int
	scopes  []scope
	used    map[string]int
	results []string
	loops   []string
	imports scope
	base    int             // scopes below this belong to an enclosing function
	outer   map[string]bool // names of an enclosing function assigned here
}

func src(n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return strings.Join(strings.Fields(b.String()), " ")
}

func (g *gen) w(f string, a ...interface{}) {
	g.out.WriteString(strings.Repeat("    ", g.ind) + fmt.Sprintf(f, a...) + "\n")
}

func uns(n ast.Node) string { return "unsupported__(" + strconv.Quote(src(n)) + ")" }

var pykw = map[string]bool{"from": true, "in": true, "is": true, "not": true, "and": true, "or": true, "def": true, "class": true, "pass": true, "lambda": true, "None": true, "True": true, "False": true, "self": true, "try": true, "except": true, "raise": true, "with": true, "as": true, "global": true, "yield": true, "del": true, "while": true, "async": true, "await": true, "assert": true, "elif": true, "finally": true, "nonlocal": true, "len": false}

func (g *gen) declare(name string) string {
	if name == "_" {
		return "_"
	}
	top := g.scopes[len(g.scopes)-1]
	if n, ok := top[name]; ok {
		return n
	}
	n := name
	if pykw[n] {
		n += "_"
	}
	live := false
	for _, s := range g.scopes {
		for _, x := range s {
			if x == n {
				live = true
			}
		}
	}
	if live {
		g.used[name]++
		n = fmt.Sprintf("%s__%d", n, g.used[name])
	}
	top[name] = n
	return n
}

func (g *gen) name(id string) string {
	for i := len(g.scopes) - 1; i >= 0; i-- {
		if n, ok := g.scopes[i][id]; ok {
			return n
		}
	}
	switch id {
	case "nil":
		return "None"
	case "true":
		return "True"
	case "false":
		return "False"
	}
	return id
}

func (g *gen) push() { g.scopes = append(g.scopes, scope{}) }
func (g *gen) pop()  { g.scopes = g.scopes[:len(g.scopes)-1] }

func typ(e ast.Expr) string { return strconv.Quote(src(e)) }

func (g *gen) expr(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return g.name(x.Name)
	case *ast.ParenExpr:
		return "(" + g.expr(x.X) + ")"
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT, token.FLOAT:
			return x.Value
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err == nil {
				return pystr(s)
			}
		case token.CHAR:
			s, err := strconv.Unquote(x.Value)
			if err == nil && len(s) == 1 {
				return pystr(s)
			}
		}
	case *ast.SelectorExpr:
		return g.expr(x.X) + "." + x.Sel.Name
	case *ast.StarExpr:
		return "deref__(" + g.expr(x.X) + ")"
	case *ast.IndexExpr:
		return "index__(" + g.expr(x.X) + ", " + g.expr(x.Index) + ")"
	case *ast.SliceExpr:
		lo, hi := "None", "None"
		if x.Low != nil {
			lo = g.expr(x.Low)
		}
		if x.High != nil {
			hi = g.expr(x.High)
		}
		if x.Max == nil {
			return "slice__(" + g.expr(x.X) + ", " + lo + ", " + hi + ")"
		}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return "(not " + g.expr(x.X) + ")"
		case token.SUB:
			return "(-" + g.expr(x.X) + ")"
		case token.ARROW:
			return "recv__(" + g.expr(x.X) + ")"
		case token.AND:
			if c, ok := x.X.(*ast.CompositeLit); ok {
				return g.lit(c, true)
			}
			return "addr__(" + g.expr(x.X) + ")"
		}
	case *ast.BinaryExpr:
		op := x.Op.String()
		switch x.Op {
		case token.SHL, token.SHR, token.OR, token.AND, token.XOR:
			return "bit__(" + strconv.Quote(op) + ", " + g.expr(x.X) + ", " + g.expr(x.Y) + ")"
		case token.LAND:
			op = "and"
		case token.LOR:
			op = "or"
		case token.ADD, token.SUB, token.MUL, token.LSS, token.GTR, token.LEQ, token.GEQ:
		case token.EQL, token.NEQ:
			a, b := g.expr(x.X), g.expr(x.Y)
			return "(" + a + " " + op + " " + b + ")"
		default:
			return uns(e)
		}
		return "(" + g.expr(x.X) + " " + op + " " + g.expr(x.Y) + ")"
	case *ast.CompositeLit:
		return g.lit(x, false)
	case *ast.TypeAssertExpr:
		if x.Type != nil {
			return "typed__(" + g.expr(x.X) + ", " + typ(x.Type) + ")"
		}
	case *ast.FuncLit:
		return g.funclit(x)
	case *ast.CallExpr:
		if x.Ellipsis != token.NoPos {
			return uns(e)
		}
		if id, ok := x.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "make", "new":
				a := []string{typ(x.Args[0])}
				for _, y := range x.Args[1:] {
					a = append(a, g.expr(y))
				}
				return id.Name + "__(" + strings.Join(a, ", ") + ")"
			case "append", "delete", "copy", "panic", "string", "min", "max", "int":
				return id.Name + "__(" + g.args(x.Args) + ")"
			}
		}
		switch x.Fun.(type) {
		case *ast.Ident, *ast.SelectorExpr, *ast.FuncLit:
			return g.expr(x.Fun) + "(" + g.args(x.Args) + ")"
		}
	}
	return uns(e)
}

func pystr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, "\\x%02x", s[i])
	}
	b.WriteByte('"')
	return b.String()
}

func (g *gen) args(xs []ast.Expr) string {
	var a []string
	for _, y := range xs {
		a = append(a, g.expr(y))
	}
	return strings.Join(a, ", ")
}

func (g *gen) lit(c *ast.CompositeLit, ref bool) string {
	switch c.Type.(type) {
	case *ast.Ident, *ast.SelectorExpr:
	default:
		return uns(c)
	}
	a := []string{typ(c.Type)}
	for _, el := range c.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			return uns(c)
		}
		k, ok := kv.Key.(*ast.Ident)
		if !ok {
			return uns(c)
		}
		a = append(a, k.Name+"="+g.expr(kv.Value))
	}
	if ref {
		return "new__(" + strings.Join(a, ", ") + ")"
	}
	return "struct__(" + strings.Join(a, ", ") + ")"
}

// a function literal: a nested def before the statement it stands in
func (g *gen) funclit(x *ast.FuncLit) string {
	o, n, res, loops, base, outer := g.out, g.ind, g.results, g.loops, g.base, g.outer
	g.used["func"]++
	name := fmt.Sprintf("func__%d", g.used["func"])
	g.out, g.results, g.loops, g.base, g.outer = &strings.Builder{}, nil, nil, len(g.scopes), map[string]bool{}
	g.ind++
	g.push()
	var ps []string
	for _, f := range x.Type.Params.List {
		for _, y := range f.Names {
			ps = append(ps, g.declare(y.Name))
		}
	}
	if x.Type.Results != nil {
		for _, f := range x.Type.Results.List {
			for _, y := range f.Names {
				r := g.declare(y.Name)
				g.results = append(g.results, r)
				g.w("%s = zero__(%s)", r, typ(f.Type))
			}
		}
	}
	g.push()
	g.stmts(x.Body.List)
	g.pop()
	g.pop()
	body, mine := g.out.String(), g.outer
	g.out, g.ind, g.results, g.loops, g.base, g.outer = o, n, res, loops, base, outer
	g.w("def %s(%s):", name, strings.Join(ps, ", "))
	g.ind++
	var names []string
	for y := range mine {
		names = append(names, y)
	}
	sort.Strings(names)
	if len(names) > 0 {
		g.w("nonlocal %s", strings.Join(names, ", "))
	}
	g.ind--
	g.out.WriteString(body)
	return name
}

// the name is assigned: it may be a variable of an enclosing function
func (g *gen) assigned(id string) {
	for i := len(g.scopes) - 1; i >= 1; i-- {
		if n, ok := g.scopes[i][id]; ok {
			if i < g.base {
				g.outer[n] = true
			}
			return
		}
	}
}

// the left-hand side of an assignment
func (g *gen) lhs(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return "_"
		}
		g.assigned(x.Name)
		return g.name(x.Name)
	case *ast.SelectorExpr:
		return g.expr(x.X) + "." + x.Sel.Name
	case *ast.IndexExpr:
		return g.expr(x.X) + "[" + g.expr(x.Index) + "]"
	}
	return ""
}

func (g *gen) assign(s *ast.AssignStmt) {
	var rhs string
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		switch y := s.Rhs[0].(type) {
		case *ast.IndexExpr:
			rhs = "index2__(" + g.expr(y.X) + ", " + g.expr(y.Index) + ")"
		case *ast.CallExpr:
			rhs = g.expr(y)
		default:
			g.w("%s", uns(s))
			return
		}
	} else {
		rhs = g.args(s.Rhs)
	}
	switch s.Tok {
	case token.ASSIGN, token.DEFINE:
		var l []string
		for _, x := range s.Lhs {
			if s.Tok == token.DEFINE {
				l = append(l, g.declare(x.(*ast.Ident).Name))
				continue
			}
			t := g.lhs(x)
			if t == "" {
				g.w("%s", uns(s))
				return
			}
			l = append(l, t)
		}
		g.w("%s = %s", strings.Join(l, ", "), rhs)
	case token.ADD_ASSIGN:
		g.w("%s += %s", g.lhs(s.Lhs[0]), rhs)
	case token.SUB_ASSIGN:
		g.w("%s -= %s", g.lhs(s.Lhs[0]), rhs)
	default:
		g.w("%s", uns(s))
	}
}

func (g *gen) block(b *ast.BlockStmt) {
	g.push()
	g.stmts(b.List)
	g.pop()
}

func (g *gen) stmts(l []ast.Stmt) {
	n := 0
	for i, s := range l {
		n++
		if d, ok := s.(*ast.DeferStmt); ok {
			g.w("try:")
			g.ind++
			g.stmts(l[i+1:])
			g.ind--
			g.w("finally:")
			g.ind++
			g.w("%s", g.expr(d.Call))
			g.ind--
			return
		}
		g.stmt(s)
	}
	if n == 0 {
		g.w("pass")
	}
}

func (g *gen) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case nil, *ast.EmptyStmt:
		g.w("pass")
	case *ast.BlockStmt:
		g.block(x)
	case *ast.ExprStmt:
		g.w("%s", g.expr(x.X))
	case *ast.AssignStmt:
		g.assign(x)
	case *ast.IncDecStmt:
		g.w("%s %s= 1", g.lhs(x.X), x.Tok.String()[:1])
	case *ast.DeclStmt:
		d, ok := x.Decl.(*ast.GenDecl)
		if ok && d.Tok == token.TYPE {
			g.w("pass")
			return
		}
		if !ok || (d.Tok != token.VAR && d.Tok != token.CONST) {
			g.w("%s", uns(s))
			return
		}
		for _, sp := range d.Specs {
			v := sp.(*ast.ValueSpec)
			if len(v.Values) > 1 && len(v.Values) != len(v.Names) {
				g.w("%s", uns(s))
				return
			}
			for i, n := range v.Names {
				if len(v.Values) == 0 {
					g.w("%s = zero__(%s)", g.declare(n.Name), typ(v.Type))
				} else {
					r := g.expr(v.Values[i])
					g.w("%s = %s", g.declare(n.Name), r)
				}
			}
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			if len(g.results) > 0 {
				g.w("return %s", strings.Join(g.results, ", "))
			} else {
				g.w("return")
			}
			return
		}
		g.w("return %s", g.args(x.Results))
	case *ast.IfStmt:
		g.push()
		if x.Init != nil {
			g.stmt(x.Init)
		}
		g.w("if %s:", g.expr(x.Cond))
		g.ind++
		g.block(x.Body)
		g.ind--
		if x.Else != nil {
			g.w("else:")
			g.ind++
			g.stmt(x.Else)
			g.ind--
		}
		g.pop()
	case *ast.SwitchStmt:
		g.push()
		if x.Init != nil {
			g.stmt(x.Init)
		}
		tag := ""
		if x.Tag != nil {
			g.used["switch"]++
			tag = fmt.Sprintf("switch__%d", g.used["switch"])
			g.w("%s = %s", tag, g.expr(x.Tag))
		}
		g.cases(x.Body.List, tag)
		g.pop()
	case *ast.ForStmt:
		g.push()
		if x.Init != nil {
			g.stmt(x.Init)
		}
		cond := "True"
		if x.Cond != nil {
			cond = g.expr(x.Cond)
		}
		g.w("while %s:", cond)
		g.ind++
		post := g.text(x.Post)
		g.loops = append(g.loops, post)
		g.block(x.Body)
		if post != "" {
			g.w("%s", post)
		}
		g.loops = g.loops[:len(g.loops)-1]
		g.ind--
		g.pop()
	case *ast.RangeStmt:
		g.push()
		k, v := "_", "_"
		if (x.Key != nil || x.Value != nil) && x.Tok != token.DEFINE {
			g.w("%s", uns(s))
			g.pop()
			return
		}
		over := g.expr(x.X)
		if x.Key != nil {
			k = g.declare(x.Key.(*ast.Ident).Name)
		}
		if x.Value != nil {
			v = g.declare(x.Value.(*ast.Ident).Name)
		}
		if k == "_" {
			g.w("for %s in values__(%s):", v, over)
		} else {
			g.w("for %s, %s in items__(%s):", k, v, over)
		}
		g.ind++
		g.loops = append(g.loops, "")
		g.block(x.Body)
		g.loops = g.loops[:len(g.loops)-1]
		g.ind--
		g.pop()
	case *ast.SendStmt:
		g.w("send__(%s, %s)", g.expr(x.Chan), g.expr(x.Value))
	case *ast.GoStmt:
		a := g.expr(x.Call.Fun)
		if len(x.Call.Args) > 0 {
			a += ", " + g.args(x.Call.Args)
		}
		g.w("go__(%s)", a)
	case *ast.BranchStmt:
		if x.Label != nil {
			g.w("%s", uns(s))
			return
		}
		switch x.Tok {
		case token.BREAK:
			g.w("break")
		case token.CONTINUE:
			if p := g.loops[len(g.loops)-1]; p != "" {
				g.w("%s", p)
			}
			g.w("continue")
		default:
			g.w("%s", uns(s))
		}
	default:
		g.w("%s", uns(s))
	}
}

// the text of a simple statement
func (g *gen) text(s ast.Stmt) string {
	if s == nil {
		return ""
	}
	o, n := g.out, g.ind
	g.out, g.ind = &strings.Builder{}, 0
	g.stmt(s)
	r := strings.TrimSpace(g.out.String())
	g.out, g.ind = o, n
	return r
}

func hasBreak(l []ast.Stmt) bool {
	found := false
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if y.Tok != token.CONTINUE {
					found = true
				}
			}
			return true
		})
	}
	return found
}

func (g *gen) cases(l []ast.Stmt, tag string) {
	kw := "if"
	var def *ast.CaseClause
	for _, s := range l {
		c := s.(*ast.CaseClause)
		if hasBreak(c.Body) {
			g.w("%s", uns(c))
			return
		}
		if c.List == nil {
			def = c
			continue
		}
		var t []string
		for _, e := range c.List {
			if tag == "" {
				t = append(t, g.expr(e))
			} else {
				t = append(t, tag+" == "+g.expr(e))
			}
		}
		g.w("%s %s:", kw, strings.Join(t, " or "))
		kw = "elif"
		g.ind++
		g.push()
		g.stmts(c.Body)
		g.pop()
		g.ind--
	}
	if def != nil {
		if kw == "if" {
			g.w("if True:")
		} else {
			g.w("else:")
		}
		g.ind++
		g.push()
		g.stmts(def.Body)
		g.pop()
		g.ind--
	}
}

func (g *gen) fn(d *ast.FuncDecl, recv string) {
	if d.Body == nil {
		return
	}
	g.scopes = []scope{g.imports, {}}
	g.used = map[string]int{}
	g.results = nil
	g.loops = nil
	g.base = 1
	g.outer = map[string]bool{}
	var ps []string
	if d.Recv != nil {
		n := "self__"
		if len(d.Recv.List[0].Names) > 0 {
			n = g.declare(d.Recv.List[0].Names[0].Name)
		}
		ps = append(ps, n)
	}
	for _, f := range d.Type.Params.List {
		for _, n := range f.Names {
			ps = append(ps, g.declare(n.Name))
		}
	}
	name := d.Name.Name
	g.w("def %s(%s):", name, strings.Join(ps, ", "))
	g.ind++
	if d.Type.Results != nil {
		for _, f := range d.Type.Results.List {
			for _, n := range f.Names {
				r := g.declare(n.Name)
				g.results = append(g.results, r)
				g.w("%s = zero__(%s)", r, typ(f.Type))
			}
		}
	}
	g.push()
	g.stmts(d.Body.List)
	g.pop()
	g.ind--
	g.w("")
	g.w("")
}

func main() {
	for _, p := range os.Args[1:] {
		f, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		g := &gen{out: &strings.Builder{}}
		g.imports = scope{}
		g.w("from golang import addr__, append__, bit__, copy__, deref__, delete__, go__, index2__, index__, int__, items__, make__, max__, min__, new__, new__, panic__, recv__, send__, slice__, string__, struct__, typed__, unsupported__, values__, zero__")
		for _, i := range f.Imports {
			p, _ := strconv.Unquote(i.Path.Value)
			base := p[strings.LastIndex(p, "/")+1:]
			as := base
			if i.Name != nil {
				as = i.Name.Name
			}
			g.imports[as] = as
			if strings.Contains(p, "/dask-gateway-proxy/") {
				g.w("import go_%s as %s", base, as)
			} else {
				g.w("import golib_%s as %s", strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(p), as)
			}
		}
		methods := map[string][]*ast.FuncDecl{}
		var types []string
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok == token.VAR || x.Tok == token.CONST {
					for _, sp := range x.Specs {
						v := sp.(*ast.ValueSpec)
						for i, n := range v.Names {
							g.scopes = []scope{g.imports, {}}
							g.used = map[string]int{}
							if i < len(v.Values) && len(v.Values) == len(v.Names) {
								g.w("%s = %s", n.Name, g.expr(v.Values[i]))
							} else if len(v.Values) == 0 && v.Type != nil {
								g.w("%s = zero__(%s)", n.Name, typ(v.Type))
							}
						}
					}
				}
				if x.Tok == token.TYPE {
					for _, s := range x.Specs {
						types = append(types, s.(*ast.TypeSpec).Name.Name)
					}
				}
			case *ast.FuncDecl:
				if x.Recv == nil {
					g.fn(x, "")
					continue
				}
				t := x.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					methods[id.Name] = append(methods[id.Name], x)
				}
			}
		}
		for _, t := range types {
			g.w("class %s:", t)
			g.ind++
			g.w("pass")
			g.w("")
			for _, m := range methods[t] {
				g.fn(m, t)
			}
			g.ind--
			g.w("")
		}
		fmt.Print(g.out.String())
	}
}
