package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func runC03(r *Rep) {
	r.rule(ruleErr, 15, "an error that may be non-nil when the entry point returns is reported by it")
	r.rule("scanner-consulted", 1, "a scanner is read to its end and asked for its error")
	p := r.P
	inl := errInline(p)
	run := func(fn *ssa.Function, what string, set func(ef *errFlow)) {
		if fn == nil {
			r.bad("entry-points", what, "%s is not found", what)
			return
		}
		ef := &errFlow{r: r, inline: inl}
		if set != nil {
			set(ef)
		}
		ef.run(fn, newState(), what)
	}
	r.rule("loaded-vector-valid", 1, "every vector that Load keeps has a word and at least one element")
	run(p.fn("pkg/embedding", "Load"), "embedding.Load", func(ef *errFlow) {
		ef.inline = func(k *Call) bool { return true }
		ef.onCall = func(x *Ctx, k *Call) (bool, *Term) {
			if k.Name == "builtin.append" && strings.HasSuffix(typKey(k.Args[0].Typ), "Embeddings") || k.Name == "builtin.append" && strings.HasSuffix(typKey(k.Args[0].Typ), "[]"+modPath+"/pkg/embedding.Embedding") {
				checkLoadedVector(ef.r, x, k)
			}
			return false, nil
		}
	})
	run(p.fn("pkg/search", "New"), "search.New", nil)
	r.rule("word-matched", 3, "a search succeeds only for words that were found among the vectors")
	for _, n := range []string{"SearchInternal", "SearchVector", "Search"} {
		fn := p.method("pkg/search", "Searcher", n)
		internal := n == "SearchInternal"
		run(fn, "Searcher."+n, func(ef *errFlow) {
			ef.inline = func(k *Call) bool {
				// a helper that looks for the word is followed
				return inl(k) || k.Fn != nil && k.Fn.Pkg == fn.Pkg && looksFor(k.Fn)
			}
			if internal {
				ef.matchWords(fn, 1)
			}
		})
	}
	run(p.fn("pkg/search/console", "New"), "console.New", nil)
	cr := p.method("pkg/search/console", "Console", "Run")
	says := p.reaches(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && printing(c.Common())
	})
	run(cr, "Console.Run", func(ef *errFlow) {
		ef.prints = true
		ef.inline = func(k *Call) bool {
			n := short(k.Name)
			return inl(k) && !strings.HasPrefix(n, "pkg/search.Searcher.Search") || strings.HasPrefix(n, "pkg/embedding") || k.Fn != nil && k.Fn.Pkg == cr.Pkg && says[k.Fn]
		}
		ef.consoleMatches()
	})
	for _, c := range p.commands(r) {
		if c.Trains {
			continue
		}
		ef := &errFlow{r: r, inline: cmdInline(p)}
		ef.run(c.Run, newState(), "the "+c.Name+" command")
	}
	r.rule("command-exit", 2, "main exits unsuccessfully on an error")
	runMainExit(r)
}

// checkLoadedVector: what is appended to the result of Load passed validation.
func checkLoadedVector(r *Rep, x *Ctx, k *Call) {
	s := x.S
	if len(k.Args) != 2 {
		return
	}
	site := fnName(x.F.Fn) + ": append"
	arr := k.Args[1]
	if arr.Kind != 'o' || arr.Op != "slice" {
		r.bad("loaded-vector-valid", site, "vectors are appended in bulk (%s), their validity is not decided", x.Pos())
		return
	}
	found := false
	for _, a := range sortedMem(s) {
		if !under(a, arr.Args[0]) && a != arr.Args[0] {
			continue
		}
		if a.Kind == 'o' && a.Op == "fieldaddr" {
			continue
		}
		v := s.read(a)
		if v == nil {
			continue
		}
		st := structOf(v.Typ)
		if st == nil {
			continue
		}
		found = true
		for i := 0; i < st.NumFields(); i++ {
			fv := s.norm(mkField(v, i, v.Typ))
			switch st.Field(i).Name() {
			case "Word":
				r.must(s.strEq(fv, mkStr("")) == 0 || fromFields(fv), "loaded-vector-valid", site+" Word", "Load keeps a vector whose word may be empty (%s)", x.Pos())
			case "Vector":
				r.must(s.atLeast(s.lenOf(fv), 1), "loaded-vector-valid", site+" Vector", "Load keeps a vector that may have no elements (%s)", x.Pos())
			}
		}
	}
	if !found {
		r.bad("loaded-vector-valid", site, "the vector that Load keeps is not known (%s)", x.Pos())
	}
}

func fromFields(t *Term) bool {
	for _, l := range t.leaves {
		if c, ok := l.Val.(*ssa.Call); ok && callName(c) == "strings.Fields" {
			return true
		}
		if u, ok := l.Val.(*ssa.UnOp); ok {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				if c, ok := ia.X.(*ssa.Call); ok && callName(c) == "strings.Fields" {
					return true
				}
			}
		}
	}
	return false
}

// matchWords: success needs at least n distinct terms that were compared equal
// with (or found by) a word.
func (ef *errFlow) matchWords(fn *ssa.Function, n int) {
	var word *Term
	ef.onEdge = func(x *Ctx, cond *Term, val bool) {
		if word == nil {
			for i, p := range fn.Params {
				if isString(p.Type()) {
					word = ef.e.Root.param(i)
				}
			}
		}
		noteMatch(x, cond, val, func(t *Term) bool { return t == word })
	}
	ef.onExit = func(x *Ctx, res []*Term, failing bool) {
		if failing {
			return
		}
		site := fnName(fn)
		if word == nil {
			ef.r.bad("word-matched", site, "the word to search is not found")
			return
		}
		ef.r.must(x.S.auto["match:"+chanKey(word)] != "", "word-matched", site, "%s can succeed (return at %s) although the word was not matched", ef.what, x.Pos())
	}
}

// noteMatch records that a word compared equal, or was found in a map.
func noteMatch(x *Ctx, cond *Term, val bool, interesting func(t *Term) bool) {
	s := x.S
	for cond.Kind == 'o' && cond.Op == "!" {
		cond, val = cond.Args[0], !val
	}
	if !val {
		return
	}
	if cond.Kind == 'o' && cond.Op == "==" && cond.Field == 4 {
		for i := 0; i < 2; i++ {
			a, b := s.norm(cond.Args[i]), s.norm(cond.Args[1-i])
			if b.Kind != 'c' && interesting(a) {
				s.auto["match:"+chanKey(a)] = "1"
			}
		}
	}
	// v, ok := m[word]
	if cond.Kind == 'o' && cond.Op == "extract" && cond.Field == 1 && len(cond.Args) == 1 {
		if lk, ok := cond.Args[0].Val.(*ssa.Lookup); ok {
			a := x.E.val(cond.Args[0].Frame, lk.Index, s)
			if interesting(a) {
				s.auto["match:"+chanKey(a)] = "1"
			}
		}
	}
}

// consoleMatches: in the console every operand of an expression was matched
// before its vector is used in a search.
func (ef *errFlow) consoleMatches() {
	ef.onEdge = func(x *Ctx, cond *Term, val bool) {
		noteMatch(x, cond, val, func(t *Term) bool {
			// the text of an identifier
			for _, l := range t.leaves {
				if c, ok := l.Val.(*ssa.Call); ok && callName(c) == "go/ast.Ident.String" {
					return true
				}
			}
			return t.Kind == 'l' && strings.Contains(t.String(), "Name")
		})
	}
	base := ef.onCall
	ef.onCall = func(x *Ctx, k *Call) (bool, *Term) {
		n := short(k.Name)
		switch n {
		case "pkg/search.Searcher.Search":
			c := 0
			for a := range x.S.auto {
				if strings.HasPrefix(a, "match:") {
					c++
				}
			}
			ef.r.must(c >= 2, "word-matched", fnName(x.F.Fn)+": Search", "the console searches for an expression although %d of its 2 words were matched (%s)", c, x.Pos())
		case "github.com/peterh/liner.State.Prompt":
			for a := range x.S.auto {
				if strings.HasPrefix(a, "match:") {
					delete(x.S.auto, a)
				}
			}
		case "pkg/search.Searcher.SearchInternal":
			ef.r.ok("word-matched", fnName(x.F.Fn)+": SearchInternal")
		}
		if base != nil {
			return base(x, k)
		}
		return false, nil
	}
}

// looksFor: a function that is given a word and gives what it finds for it.
func looksFor(f *ssa.Function) bool {
	if f.Signature.Results().Len() == 0 {
		return false
	}
	for _, q := range f.Params {
		if isString(q.Type()) {
			return true
		}
	}
	return false
}
