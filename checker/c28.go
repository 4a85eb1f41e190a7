package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C28",
		Technique: "interprocedural path-sensitive provenance analysis over go/ssa: operands of the expression are followed through parsing, lookup, arithmetic and search",
		Explanation: "Console.Run is analysed interprocedurally with its operator functions. Values that come from the left and the right operand of a binary expression are marked from the syntax tree on, through their words and the stored embeddings found for them, down to the elements of their vectors. " +
			"Every element stored into the query vector must be left+right, or left-right, of the same index, on a path on which the operator is known to be + or -, for every index; the search must be given that vector and exclude the words of both operands; nothing is searched for on other paths.",
		Run: runC28,
	})
}

func isASTField(t types.Type, i int, names ...string) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "go/ast" || n.Obj().Name() != "BinaryExpr" {
		return ""
	}
	return fieldName(t, i)
}

func namedIs(t types.Type, pkgSuffix, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkgSuffix)
}

func runC28(r *Rep) {
	r.rule("combines", 2, "every element of the query vector is the sum, or the difference, of the elements of the operands, as the operator says")
	r.rule("complete", 1, "every element of the query vector is computed")
	r.rule("excludes", 1, "the words of both operands are excluded from the result")
	r.rule("searches-result", 1, "the vector that is searched for is the result of the operator")
	r.rule("both-operators", 2, "both operators are supported")
	p := r.P
	fn := p.method("pkg/search/console", "Console", "Run")
	search := p.method("pkg/search", "Searcher", "Search")
	if fn == nil || search == nil {
		r.bad("entry-points", "Console.Run", "Console.Run or Searcher.Search is not found")
		return
	}
	side := func(s *State, t *Term, what string) string {
		// the operand that a term is (what: n node, w word, e embedding, v element of the vector)
		t = s.norm(t)
		if tag := s.tags[t]; strings.HasPrefix(tag, what+":") {
			return tag[len(what)+1:]
		}
		return ""
	}
	within := func(s *State, t *Term, what string) string {
		if d := side(s, t, what); d != "" {
			return d
		}
		out := ""
		for _, l := range s.norm(t).leaves {
			if tag := s.tags[l]; strings.HasPrefix(tag, what+":") {
				d := tag[len(what)+1:]
				if out != "" && out != d {
					return ""
				}
				out = d
			}
		}
		return out
	}
	opLeaf := func(s *State) []*Term {
		var out []*Term
		for _, t := range sortedTags(s) {
			if s.tags[t] == "op" {
				out = append(out, t)
			}
		}
		return out
	}
	isOp := func(s *State, tok token.Token) bool {
		for _, t := range opLeaf(s) {
			if s.equal(t, mkInt(int64(tok))) {
				return true
			}
		}
		return false
	}
	seen := map[string]bool{}
	c := &Client{}
	c.Inline = func(k *Call) bool {
		return k.Fn != search && !strings.HasPrefix(qualName(k.Fn), modPath+"/pkg/search.Neighbors")
	}
	c.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return
			}
			l := mkLeaf(x.F, in, "")
			a := x.Val(in.X)
			if fa, ok := in.X.(*ssa.FieldAddr); ok {
				switch isASTField(fa.X.Type(), fa.Field) {
				case "X":
					delete(s.mem, a)
					s.tags[l] = "n:X"
				case "Y":
					delete(s.mem, a)
					s.tags[l] = "n:Y"
				case "Op":
					if s.read(a) == nil {
						s.tags[l] = "op"
					}
				}
			}
			if a.Kind == 'o' && a.Op == "indexaddr" && isFloat(in.Type()) {
				if d := within(s, a.Args[0], "e"); d != "" && s.read(a) == nil {
					s.tags[l] = "v:" + d
				}
			}
		case *ssa.Field:
			switch isASTField(in.X.Type(), in.Field) {
			case "X", "Y", "Op":
				r.bad("combines", fnName(x.F.Fn), "the expression is used in a way that is not followed (%s)", x.Pos())
			}
		case *ssa.Store:
			a := x.Val(in.Addr)
			if !(a.Kind == 'o' && a.Op == "indexaddr" && isFloat(in.Val.Type())) {
				return
			}
			if addrRoot(a) == nil || x.F.Fn.Pkg == nil || !strings.Contains(x.F.Fn.Pkg.Pkg.Path(), "search/console") {
				return
			}
			base := a.Args[0]
			v := s.norm(x.Val(in.Val))
			site := fnName(x.F.Fn)
			s.tags[base] = "result"
			s.auto["result"] = fmt.Sprint(base.id)
			if within(s, base, "e") != "" {
				r.bad("combines", site, "the stored vector of an operand is modified (%s)", x.Pos())
			}
			elem := func(t *Term) string { return side(s, t, "v") }
			sameIndex := func() bool {
				ok := true
				for _, t := range v.leaves {
					if strings.HasPrefix(s.tags[t], "v:") {
						if ld, isLd := t.Val.(*ssa.UnOp); isLd {
							ia, isIA := ld.X.(*ssa.IndexAddr)
							if !isIA || !s.equal(x.E.val(t.Frame, ia.Index, s), a.Args[1]) {
								ok = false
							}
						}
					}
				}
				return ok
			}
			good := false
			if v.Kind == 'o' && len(v.Args) == 2 {
				l, rr := elem(v.Args[0]), elem(v.Args[1])
				switch {
				case v.Op == "+" && (l == "X" && rr == "Y" || l == "Y" && rr == "X"):
					good = isOp(s, token.ADD)
					seen["+"] = seen["+"] || good
				case v.Op == "-" && l == "X" && rr == "Y":
					good = isOp(s, token.SUB)
					seen["-"] = seen["-"] || good
				}
			}
			key := site
			for _, tok := range []token.Token{token.ADD, token.SUB} {
				if isOp(s, tok) {
					key += " " + tok.String()
				}
			}
			r.must(good, "combines", key, "an element of the query vector becomes %s, where the operator may be another (%s)", v, x.Pos())
			if good {
				r.must(sameIndex(), "combines", key, "elements of different indices are combined (%s)", x.Pos())
			}
			ia, ok := in.Addr.(*ssa.IndexAddr)
			full := false
			if ok {
				if n, minus, _, ok := countLoop(ia.Index, in.Block(), nil); ok {
					full = s.equal(mkLin(linOf(again(x, n)).plus(linOf(mkInt(minus)), -1)), s.lenOf(base))
				}
			}
			r.must(full, "complete", site, "the loop is not seen to compute every element of the query vector (%s)", x.Pos())
		}
	}
	c.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) {
		if cond == nil || cond.Kind != 'o' || cond.Op != "==" {
			return
		}
		if x.S.boolOf(cond) != 1 {
			return
		}
		for i := 0; i < 2; i++ {
			w, f := cond.Args[i], cond.Args[1-i]
			d := side(x.S, w, "w")
			if d == "" {
				continue
			}
			// the word of a stored embedding
			switch {
			case f.Kind == 'o' && f.Op == "field" && namedIs(f.Args[0].Typ, "pkg/embedding", "Embedding"):
				for _, l := range f.leaves {
					x.S.tags[l] = "e:" + d
				}
			case f.Kind == 'l':
				if ld, ok := f.Val.(*ssa.UnOp); ok {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && namedIs(fa.X.Type(), "pkg/embedding", "Embedding") {
						x.S.tags[x.E.val(f.Frame, fa.X, x.S)] = "e:" + d
					}
				}
			}
		}
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		v, isCall := x.I.(*ssa.Call)
		if !isCall {
			return false, nil
		}
		if isPrompt(k.Name) || strings.HasPrefix(k.Name, "go/parser.Parse") {
			for t := range s.tags {
				delete(s.tags, t) // another expression
			}
			delete(s.auto, "result")
		}
		if k.Name == "go/ast.Ident.String" {
			if d := within(s, k.Args[0], "n"); d != "" {
				s.tags[mkLeaf(x.F, v, "")] = "w:" + d
			}
			return false, nil
		}
		if k.Fn != search {
			return false, nil
		}
		site := fnName(x.F.Fn)
		q := k.Args[1]
		vec := tNil
		if st := structOf(q.Typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Vector" {
					vec = s.norm(mkField(q, i, q.Typ))
				}
			}
		}
		if len(opLeaf(s)) == 0 && s.tags[vec] != "result" {
			return false, nil // a single word
		}
		r.must(s.tags[vec] == "result", "searches-result", site, "the search is for %s, which no operator computed (%s)", vec, x.Pos())
		words := map[string]bool{}
		ign := k.Args[3]
		for _, a := range sortedMem(s) {
			if a.Kind == 'o' && a.Op == "indexaddr" && (a.Args[0] == ign || ign.Kind == 'o' && ign.Op == "slice" && a.Args[0] == ign.Args[0]) {
				w := s.norm(s.mem[a])
				if d := side(s, w, "w"); d != "" {
					words[d] = true
				} else if d := within(s, w, "e"); d != "" {
					words[d] = true
				}
			}
		}
		var ws []string
		for w := range words {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		r.must(len(ws) == 2, "excludes", site, "only the words of the operands %v are seen to be excluded (%s)", ws, x.Pos())
		return false, nil
	}
	p.analyse(r, fn, newState(), c, "Console.Run")
	for _, op := range []string{"+", "-"} {
		r.must(seen[op], "both-operators", op, "no path computes a vector for %s", op)
	}
}
