package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/analysis"
	"golang.org/x/tools/go/ast/inspector"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/types/typeutil"
	"golang.org/x/tools/wegoinline"
)

// The functions that the code had when the checks were written. A function that
// is not among them may be a helper that a part of one of them was moved to. When
// a check has something to say, such helpers are put back into their callers, in
// memory, and the program that results, which does the same, is looked at too: a
// property that holds in one of the two holds in both.
//
//go:embed known_functions.txt
var knownText string

func knownFuncs() map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Split(knownText, "\n") {
		if l = strings.TrimSpace(l); l != "" && l[0] != '#' {
			m[l] = true
		}
	}
	return m
}

// declName names a declared function as known_functions.txt does.
func declName(pkg string, d *ast.FuncDecl) string {
	n := d.Name.Name
	if d.Recv != nil && len(d.Recv.List) == 1 {
		t := d.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			n = id.Name + "." + n
		}
	}
	return strings.TrimPrefix(pkg, modPath+"/") + "." + n
}

type helper struct {
	decl *ast.FuncDecl
	pkg  *packages.Package
	file string
}

type expander struct {
	dir     string
	overlay map[string][]byte
	known   map[string]bool
	skip    map[string]bool // calls that cannot be put back: caller and callee
	fresh   int
	calls   int
	names   map[string]bool
}

func loadSyntax(dir string, overlay map[string][]byte) ([]*packages.Package, error) {
	return packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: dir, Overlay: overlay}, "./...")
}

// load type-checks the program, dropping imports that are no longer used.
func (e *expander) load() ([]*packages.Package, bool) {
	for try := 0; try < 3; try++ {
		ps, err := loadSyntax(e.dir, e.overlay)
		if err != nil {
			return nil, false
		}
		clean, fixed := true, false
		for _, p := range ps {
			if len(p.Errors) == 0 {
				continue
			}
			clean = false
			for _, f := range p.Syntax {
				if e.dropImports(p, f) {
					fixed = true
				}
			}
		}
		if clean {
			return ps, true
		}
		if !fixed {
			if os.Getenv("EXPAND_DEBUG") != "" {
				for _, p := range ps {
					for _, er := range p.Errors {
						fmt.Println("expand:", er)
					}
				}
			}
			return nil, false
		}
	}
	return nil, false
}

func (e *expander) content(file string) []byte {
	if b, ok := e.overlay[file]; ok {
		return b
	}
	b, _ := os.ReadFile(file)
	return b
}

func (e *expander) dropImports(p *packages.Package, f *ast.File) bool {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if _, ok := p.TypesInfo.Uses[id].(*types.PkgName); ok {
					used[id.Name] = true
				}
			}
		}
		return true
	})
	file := p.Fset.File(f.FileStart).Name()
	var edits []analysis.TextEdit
	for _, im := range f.Imports {
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		} else if pn, ok := p.TypesInfo.Implicits[im].(*types.PkgName); ok {
			name = pn.Name()
		}
		if name == "" || name == "_" || name == "." || used[name] {
			continue
		}
		edits = append(edits, analysis.TextEdit{Pos: im.Pos(), End: im.End(), NewText: []byte("_ " + im.Path.Value)})
	}
	if len(edits) == 0 {
		return false
	}
	e.overlay[file] = applyEdits(p.Fset.File(f.FileStart), e.content(file), edits)
	return true
}

func applyEdits(tf *token.File, src []byte, edits []analysis.TextEdit) []byte {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].Pos < edits[j].Pos })
	var out bytes.Buffer
	at := 0
	for _, ed := range edits {
		lo := tf.Offset(ed.Pos)
		hi := lo
		if ed.End.IsValid() {
			hi = tf.Offset(ed.End)
		}
		if lo < at {
			continue
		}
		out.Write(src[at:lo])
		out.Write(ed.NewText)
		at = hi
	}
	out.Write(src[at:])
	return out.Bytes()
}

// expandHelpers gives the changed files of the program in which the functions
// that are not known are put back into their callers; nil when there are none.
func expandHelpers(dir string) (map[string][]byte, []string) {
	if d, err := filepath.Abs(dir); err == nil {
		dir = d
	}
	e := &expander{dir: dir, overlay: map[string][]byte{}, known: knownFuncs(), skip: map[string]bool{}, names: map[string]bool{}}
	for round := 0; round < 80; round++ {
		ps, ok := e.load()
		if !ok {
			return nil, nil
		}
		old := map[string][]byte{}
		for k, v := range e.overlay {
			old[k] = v
		}
		tried := e.round(ps)
		if len(tried) == 0 {
			break
		}
		if _, ok := e.load(); !ok {
			e.overlay = old
			for _, k := range tried {
				if os.Getenv("EXPAND_DEBUG") != "" {
					fmt.Println("expand: not", k)
				}
				e.skip[k] = true
			}
			continue
		}
		e.calls += len(tried)
	}
	if e.calls == 0 {
		return nil, nil
	}
	// helpers that nothing uses any more
	ps, ok := e.load()
	if !ok {
		return nil, nil
	}
	old := map[string][]byte{}
	for k, v := range e.overlay {
		old[k] = v
	}
	e.drop(ps)
	if _, ok := e.load(); !ok {
		e.overlay = old
	}
	if os.Getenv("EXPAND_DEBUG") == "2" {
		for _, f := range sortedKeys(e.overlay) {
			fmt.Printf("==== %s\n%s\n", f, e.overlay[f])
		}
	}
	return e.overlay, sortedKeys(e.names)
}

func (e *expander) helpers(ps []*packages.Package) map[types.Object]*helper {
	hs := map[types.Object]*helper{}
	for _, p := range ps {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Type.TypeParams != nil || fd.Name.Name == "main" || fd.Name.Name == "init" || e.known[declName(p.PkgPath, fd)] {
					continue
				}
				if o := p.TypesInfo.Defs[fd.Name]; o != nil {
					hs[o] = &helper{fd, p, p.Fset.File(f.FileStart).Name()}
				}
			}
		}
	}
	return hs
}

// round puts back one call per function that is not overlapped by another.
func (e *expander) round(ps []*packages.Package) []string {
	hs := e.helpers(ps)
	if len(hs) == 0 {
		return nil
	}
	// helpers that call no other helper come first
	inner := map[types.Object]bool{}
	for o, h := range hs {
		ast.Inspect(h.decl.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if f := typeutil.StaticCallee(h.pkg.TypesInfo, c); f != nil && hs[f] != nil && !e.skip[declName(h.pkg.PkgPath, h.decl)+" "+f.FullName()] {
					inner[o] = true
				}
			}
			return true
		})
	}
	callees := map[types.Object]*wegoinline.Callee{}
	var tried []string
	for _, p := range ps {
		for _, f := range p.Syntax {
			tf := p.Fset.File(f.FileStart)
			file := tf.Name()
			src := e.content(file)
			var edits []analysis.TextEdit
			imports := false
			root := inspector.New([]*ast.File{f}).Root()
			done := map[*ast.FuncDecl]bool{}
			for cur := range root.Preorder((*ast.CallExpr)(nil)) {
				call := cur.Node().(*ast.CallExpr)
				fn := typeutil.StaticCallee(p.TypesInfo, call)
				if fn == nil || hs[fn] == nil || inner[fn] {
					continue
				}
				var encl *ast.FuncDecl
				for c := range cur.Enclosing((*ast.FuncDecl)(nil)) {
					encl = c.Node().(*ast.FuncDecl)
				}
				if encl == nil || done[encl] || encl == hs[fn].decl {
					continue
				}
				key := declName(p.PkgPath, encl) + " " + fn.FullName()
				if e.skip[key] {
					continue
				}
				switch cur.Parent().Node().(type) {
				case *ast.GoStmt, *ast.DeferStmt:
					continue
				}
				h := hs[fn]
				if callees[fn] == nil {
					c, err := wegoinline.Analyze(h.pkg.Fset, h.pkg.Types, h.pkg.TypesInfo, h.decl, e.content(h.file))
					if err != nil {
						e.skip[key] = true
						continue
					}
					callees[fn] = c
				}
				eds, lit, err := wegoinline.Inline(p.Fset, p.Types, p.TypesInfo, cur, callees[fn])
				if err != nil || len(eds) == 0 {
					e.skip[key] = true
					if os.Getenv("EXPAND_DEBUG") != "" {
						fmt.Println("expand: inliner:", key, err)
					}
					continue
				}
				if lit {
					eds = e.unliteral(p, cur, src, tf, eds)
					if eds == nil {
						e.skip[key] = true
						continue
					}
				}
				if len(eds) > 2 || len(eds) > 1 && !lit {
					if imports {
						continue
					}
					imports = true
				}
				clash := false
				for _, a := range eds {
					for _, b := range edits {
						clash = clash || a.Pos < b.End && b.Pos < a.End || a.Pos == b.Pos
					}
				}
				if clash {
					continue
				}
				done[encl] = true
				edits = append(edits, eds...)
				tried = append(tried, key)
				e.names[strings.TrimPrefix(declName(h.pkg.PkgPath, h.decl), modPath+"/")] = true
			}
			if len(edits) > 0 {
				out := applyEdits(tf, src, edits)
				if b, err := format.Source(out); err == nil {
					out = b
				}
				e.overlay[file] = out
			}
		}
	}
	return tried
}

// unliteral rewrites a call of a function literal, which the inliner resorts to,
// as statements in front of the statement with the call.
func (e *expander) unliteral(p *packages.Package, cur inspector.Cursor, src []byte, tf *token.File, eds []analysis.TextEdit) []analysis.TextEdit {
	call := cur.Node().(*ast.CallExpr)
	k := -1
	for i, ed := range eds {
		if ed.Pos == call.Pos() && ed.End == call.End() {
			k = i
		}
	}
	if k < 0 {
		return nil
	}
	// the statement
	stmt := cur
	for {
		if _, ok := stmt.Node().(ast.Stmt); ok {
			break
		}
		switch n := stmt.Node().(type) {
		case *ast.FuncLit, *ast.FuncDecl, *ast.File:
			return nil
		case *ast.BinaryExpr:
			if n.Op == token.LAND || n.Op == token.LOR {
				if !(n.X.Pos() <= call.Pos() && call.End() <= n.X.End()) {
					return nil
				}
			}
		}
		stmt = stmt.Parent()
	}
	at := stmt
	switch s := stmt.Node().(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.DeclStmt, *ast.SendStmt, *ast.RangeStmt:
	case *ast.IfStmt:
		if s.Init != nil {
			return nil
		}
	case *ast.SwitchStmt:
		if s.Init != nil {
			return nil
		}
	default:
		return nil
	}
	// calls that come before it are not to come after it
	other := false
	ast.Inspect(stmt.Node(), func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if n != call && n.End() <= call.Pos() {
				if tv, ok := p.TypesInfo.Types[n.Fun]; !ok || !tv.IsType() && !tv.IsBuiltin() {
					other = true
				}
			}
		}
		return true
	})
	if other {
		return nil
	}
	inList := func(c inspector.Cursor) bool {
		switch q := c.Parent().Node().(type) {
		case *ast.BlockStmt:
			return true
		case *ast.CaseClause:
			for _, s := range q.Body {
				if s == c.Node() {
					return true
				}
			}
		case *ast.CommClause:
			for _, s := range q.Body {
				if s == c.Node() {
					return true
				}
			}
		}
		return false
	}
	wrap := false
	if !inList(at) {
		// the first statement of an if or a switch: if x := f(); ...
		up := at.Parent()
		switch q := up.Node().(type) {
		case *ast.IfStmt:
			if q.Init != at.Node() || !inList(up) {
				return nil
			}
		case *ast.SwitchStmt:
			if q.Init != at.Node() || !inList(up) {
				return nil
			}
		default:
			return nil
		}
		at = up
	}
	_ = wrap
	x, err := parser.ParseExpr(string(eds[k].NewText))
	if err != nil {
		return nil
	}
	lc, ok := x.(*ast.CallExpr)
	if !ok {
		return nil
	}
	lit, ok := lc.Fun.(*ast.FuncLit)
	if !ok || lc.Ellipsis.IsValid() {
		return nil
	}
	text := func(n ast.Node) string { return string(eds[k].NewText[n.Pos()-1 : n.End()-1]) }
	var pre strings.Builder
	e.fresh++
	// results
	var outs []string
	named := []string{}
	if lit.Type.Results != nil {
		for _, f := range lit.Type.Results.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				o := fmt.Sprintf("wego%dr%d", e.fresh, len(outs))
				outs = append(outs, o)
				fmt.Fprintf(&pre, "var %s %s\n", o, text(f.Type))
				if len(f.Names) > 0 {
					named = append(named, f.Names[i].Name)
				}
			}
		}
	}
	// arguments
	var params, temps []string
	i := 0
	for _, f := range lit.Type.Params.List {
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			return nil
		}
		for _, nm := range f.Names {
			if i >= len(lc.Args) {
				return nil
			}
			if nm.Name != "_" {
				t := fmt.Sprintf("wego%dp%d", e.fresh, i)
				fmt.Fprintf(&pre, "var %s %s = %s\n", t, text(f.Type), text(lc.Args[i]))
				params, temps = append(params, nm.Name), append(temps, t)
			} else {
				fmt.Fprintf(&pre, "_ = %s\n", text(lc.Args[i]))
			}
			i++
		}
		if len(f.Names) == 0 {
			return nil
		}
	}
	if i != len(lc.Args) {
		return nil
	}
	var body strings.Builder
	if len(params) > 0 {
		fmt.Fprintf(&body, "%s := %s\n", strings.Join(params, ", "), strings.Join(temps, ", "))
		for _, q := range params {
			fmt.Fprintf(&body, "_ = %s\n", q)
		}
	}
	if len(named) > 0 {
		j := 0
		for _, f := range lit.Type.Results.List {
			for _, nm := range f.Names {
				if nm.Name == "_" {
					return nil
				}
				fmt.Fprintf(&body, "var %s %s\n_ = %s\n", nm.Name, text(f.Type), nm.Name)
				j++
			}
		}
	}
	// returns
	label := fmt.Sprintf("wego%dL", e.fresh)
	var rets []*ast.ReturnStmt
	bad := false
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.DeferStmt, *ast.LabeledStmt:
			bad = true
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "recover" {
				bad = true
			}
		case *ast.ReturnStmt:
			rets = append(rets, n)
		}
		return true
	})
	if bad {
		return nil
	}
	trailing := len(rets) == 0 || len(rets) == 1 && len(lit.Body.List) > 0 && lit.Body.List[len(lit.Body.List)-1] == ast.Stmt(rets[0])
	lo := int(lit.Body.Lbrace) // offset after the brace
	pos := lo
	for _, rt := range rets {
		body.Write(eds[k].NewText[pos : rt.Pos()-1])
		var es []string
		for _, r := range rt.Results {
			es = append(es, text(r))
		}
		if len(rt.Results) == 0 {
			es = named
		}
		if !trailing {
			body.WriteString("{\n")
		}
		if len(outs) > 0 {
			fmt.Fprintf(&body, "%s = %s\n", strings.Join(outs, ", "), strings.Join(es, ", "))
		}
		if !trailing {
			fmt.Fprintf(&body, "break %s\n}", label)
		}
		pos = int(rt.End() - 1)
	}
	body.Write(eds[k].NewText[pos : lit.Body.Rbrace-1])
	if trailing {
		fmt.Fprintf(&pre, "{\n%s\n}\n", body.String())
	} else {
		fmt.Fprintf(&pre, "%s:\nswitch {\ndefault:\n%s\n}\n", label, body.String())
	}
	if _, ok := stmt.Node().(*ast.ExprStmt); ok && stmt.Node().(*ast.ExprStmt).X == ast.Expr(call) {
		for _, o := range outs {
			fmt.Fprintf(&pre, "_ = %s\n", o)
		}
		eds[k] = analysis.TextEdit{Pos: stmt.Node().Pos(), End: stmt.Node().End(), NewText: []byte(pre.String())}
		return eds
	}
	if len(outs) == 0 {
		return nil
	}
	eds[k].NewText = []byte(strings.Join(outs, ", "))
	return append(eds, analysis.TextEdit{Pos: at.Node().Pos(), End: at.Node().Pos(), NewText: []byte(pre.String())})
}

// drop removes the helpers that nothing uses.
func (e *expander) drop(ps []*packages.Package) {
	for again := true; again; {
		again = false
		used := map[types.Object]bool{}
		for _, p := range ps {
			for _, o := range p.TypesInfo.Uses {
				if f, ok := o.(*types.Func); ok {
					used[f.Origin()] = true
				}
			}
		}
		cut := map[string][]analysis.TextEdit{}
		files := map[string]*token.File{}
		for o, h := range e.helpers(ps) {
			if used[o] || !e.names[declName(h.pkg.PkgPath, h.decl)] {
				continue
			}
			cut[h.file] = append(cut[h.file], analysis.TextEdit{Pos: h.decl.Pos(), End: h.decl.End()})
			files[h.file] = h.pkg.Fset.File(h.decl.Pos())
		}
		for f, eds := range cut {
			e.overlay[f] = applyEdits(files[f], e.content(f), eds)
		}
		if len(cut) > 0 {
			var ok bool
			if ps, ok = e.load(); !ok {
				return
			}
			again = true
		}
	}
}
