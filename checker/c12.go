package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C12",
		Technique: "path-sensitive abstract interpretation over go/ssa: provenance of every element stored into the result, per vector type and dynamic type of the optimizer or solver; loop-coverage rule",
		Explanation: "WordVector of every model is analysed for the types single and agg and for every type that its optimizer or solver can have. Each value stored into a row of the result is resolved to the cells of the parameter matrices that were added up: " +
			"the row of the same word (single), plus the row of its context vector (agg: the second half of the shared matrix for GloVe and LexVec, the optimizer's matrix for word2vec with negative sampling). The stores must cover every column of every row, the result must have one row per word and the configured number of columns, and must be a new matrix; nothing else may be written. Matrix.New, Slice, Row and Col are checked to be what the analysis takes them for.",
		Run: runC12,
	})
}

func runC12(r *Rep) {
	r.rule("elements", 10, "every element of the result is the sum of the elements that the vector type stands for, of the same word and column")
	r.rule("shape", 3, "the result has one row per word and the configured number of columns")
	r.rule("fresh", 3, "the result shares no memory with the parameters")
	p := r.P
	matrixRules(r)
	for _, m := range p.models(r) {
		st := structOf(m.Typ)
		own := -1
		var dyn []int
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if isMatrix(ft) {
				if own >= 0 {
					r.bad("entry-points", m.Name, "%s has more than one parameter matrix", m.Name)
				}
				own = i
			}
			if n := namedOf(ft); n != nil && n.Obj().Pkg() == m.Pkg.Pkg {
				if _, ok := ft.Underlying().(*types.Interface); ok {
					dyn = append(dyn, i)
				}
			}
		}
		if own < 0 {
			r.bad("entry-points", m.Name, "%s has no parameter matrix", m.Name)
			continue
		}
		type setup struct {
			name string
			s    *State
			cell map[int]*Term // what the fields hold
			ctx  *Term         // address of the context matrix
		}
		base := newState()
		setups := []setup{{m.Name, base, map[int]*Term{}, nil}}
		for _, i := range dyn {
			it := st.Field(i).Type().Underlying().(*types.Interface)
			var next []setup
			for _, t := range p.implementers(it) {
				for _, su := range setups {
					s := su.s.clone()
					o := mkSym("dynamic "+typKey(t), t)
					s.nils[o] = false
					cell := map[int]*Term{i: mkOp("iface", t, o)}
					for k, v := range su.cell {
						cell[k] = v
					}
					n := setup{su.name + " " + st.Field(i).Name() + "=" + namedOf(t).Obj().Name(), s, cell, su.ctx}
					if os := structOf(t); os != nil {
						for j := 0; j < os.NumFields(); j++ {
							// the matrix of word2vec's optimizer holds the context vectors, that of GloVe's solver does not
							if isMatrix(os.Field(j).Type()) && m.Name == "word2vec" {
								n.ctx = mkFieldAddr(o, j, namedOf(t))
							}
						}
					}
					next = append(next, n)
				}
			}
			if len(next) == 0 {
				r.bad("entry-points", m.Name, "no type implements %s", st.Field(i).Name())
			}
			setups = next
		}
		for _, su := range setups {
			for _, typ := range []string{"single", "agg"} {
				want := "own"
				if typ == "agg" {
					if m.Name != "word2vec" {
						want = "own+second"
					} else if su.ctx != nil {
						want = "ctx+own"
					}
				}
				wordVector(r, m, su.name+" "+typ, typ, su.s.clone(), su.cell, su.ctx, own, want)
			}
		}
	}
}

func wordVector(r *Rep, m *modelType, what, typ string, s0 *State, cell map[int]*Term, ctxAddr *Term, own int, want string) {
	p := r.P
	ri, mt := matrixField(p, "Row")
	ci, _ := matrixField(p, "Col")
	dimTerm := m.opt("Dim")
	if dimTerm == nil || ri < 0 || ci < 0 {
		r.bad("entry-points", m.Name, "%s has no option Dim", m.Name)
		return
	}
	c := &Client{Inline: func(k *Call) bool { return p.inRepo(k.Fn) }}
	var isOwn, isCtx func(s *State, t *Term) bool
	// what a cell of some matrix is, relative to the element that is written
	part := func(x *Ctx, a, dst, row, j *Term) string {
		s := x.S
		mm, id, jj, ok := elemOfRow(s, a)
		if !ok || j != nil && !s.equal(jj, j) {
			return "?"
		}
		return rowPart(s, isOwn, isCtx, mm, id, dst, row)
	}
	compose := func(s *State, dst, row *Term, parts []string) string {
		sort.Strings(parts)
		var out []string
		self := 0
		for _, q := range parts {
			if q == "self" {
				self++
				continue
			}
			out = append(out, q)
		}
		k := termID(dst) + " " + termID(row) + " "
		if self > 0 {
			if old := s.auto["content"]; strings.HasPrefix(old, k) {
				out = append(out, strings.Split(strings.TrimPrefix(old, k), "+")...)
			}
		}
		if self > 1 {
			out = append(out, "?")
		}
		var o2 []string
		for _, q := range out {
			if q != "" {
				o2 = append(o2, q)
			}
		}
		sort.Strings(o2)
		return k + strings.Join(o2, "+")
	}
	filled := func(x *Ctx, v string) {
		// one row has its content: does it belong to a loop over the rows?
		x.S.auto["content"] = v
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if ok, t := matrixModel(p, x, k); ok {
			if mm, _, isRow := rowOf(x.S, t); isRow && mkLen(t) == x.S.lenOf(t) {
				if col := x.S.read(mkFieldAddr(mm, ci, mt)); col != nil {
					x.S.env[mkLen(t)] = x.S.norm(col)
				}
			}
			return ok, t
		}
		if k.Name == "builtin.copy" {
			dst, row, ok := rowOf(x.S, k.Args[0])
			src, id, ok2 := rowOf(x.S, k.Args[1])
			if ok {
				q := "?"
				if ok2 {
					q = rowPart(x.S, isOwn, isCtx, src, id, dst, row)
				}
				if k.Args[0].Op == "slice" {
					q = "?"
				}
				filled(x, compose(x.S, dst, row, []string{q}))
				rowDone(x, m, r, what, want, ri, mt)
			}
		}
		return false, nil
	}
	c.Instr = func(x *Ctx) {
		in, ok := x.I.(*ssa.Store)
		if !ok || !isFloat(in.Val.Type()) {
			return
		}
		s := x.S
		a := s.norm(x.Val(in.Addr))
		dst, row, j, ok := elemOfRow(s, a)
		if !ok {
			if a.Kind == 'o' && a.Op == "indexaddr" {
				r.bad("elements", what, "a value is stored into %s, which is no row of a matrix (%s)", a, x.Pos())
			}
			return
		}
		if !freshRoot(dst) {
			r.bad("fresh", m.Name, "WordVector stores into %s, which it did not make (%s)", dst, x.Pos())
			return
		}
		cells, good := cellsOf(x, x.Val(in.Val))
		var parts []string
		for _, cell := range cells {
			parts = append(parts, part(x, cell, dst, row, j))
		}
		if !good {
			parts = append(parts, "?")
		}
		cnt := counterOf(x, j)
		if cnt == nil || !s.equal(cnt.limit(x), dimTerm) {
			r.bad("elements", what, "the stores of a row do not cover its columns 0 to Dim-1, each once (%s)", x.Pos())
			return
		}
		s.auto["col "+cntKey(cnt)] = compose(s, dst, row, parts)
	}
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		roundDone(x, from, to, "col ", func(v string) {
			filled(x, v)
			rowDone(x, m, r, what, want, ri, mt)
		})
		roundDone(x, from, to, "row ", func(v string) { x.S.auto["rows"] = v })
		if to.Dominates(from) && naturalLoop(to) != nil && x.S.auto["content"] != "" {
			// the next row starts empty
			for _, in := range to.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					l := mkLeaf(x.F, ph, "")
					if f := strings.Fields(x.S.auto["content"]); len(f) > 1 && (f[1] == termID(l) || f[1] == termID(mkLin(linOf(l).plus(linOf(mkInt(1)), 1)))) {
						delete(x.S.auto, "content")
					}
				} else {
					break
				}
			}
		}
	}
	c.Exit = func(x *Ctx, res []*Term) {
		s := x.S
		mat := s.norm(res[0])
		row, col := s.read(mkFieldAddr(mat, ri, mt)), s.read(mkFieldAddr(mat, ci, mt))
		good := row != nil && col != nil && isDicLen(s.norm(row)) && s.equal(col, dimTerm)
		r.must(good, "shape", what, "the result does not have one row per word of the vocabulary and Dim columns (%s)", x.Pos())
		r.must(freshRoot(mat), "fresh", m.Name, "the result is not a matrix made for it (%s)", x.Pos())
		f := strings.Fields(s.auto["rows"])
		empty := row != nil && s.atMost(row, 0) || s.atMost(dimTerm, 0)
		good = len(f) == 2 && f[0] == termID(mat) && f[1] == want
		r.must(good || empty, "elements", what, "the rows of the result are not all filled with %s (%s)", want, x.Pos())
	}
	e := newEngine(p, c)
	f := e.rootFrame(m.WV)
	recv := f.param(0)
	n := namedOf(m.Typ)
	for i, v := range cell {
		s0.mem[mkFieldAddr(recv, i, n)] = v
	}
	mtp := types.NewPointer(mt)
	ownVal := s0.content(mkFieldAddr(recv, own, n), mtp)
	isOwn = func(s *State, t *Term) bool { return s.norm(t) == ownVal }
	isCtx = func(s *State, t *Term) bool { return false }
	if ctxAddr != nil {
		ctxVal := s0.content(ctxAddr, mtp)
		isCtx = func(s *State, t *Term) bool { return s.norm(t) == ctxVal }
	}
	s := s0
	for i, pa := range m.WV.Params {
		if i > 0 && isString(pa.Type()) {
			s.addStr(f.param(i), mkStr(typ), true)
		}
	}
	m.setMin(s, "Dim", 1)
	e.Run(f, s)
	e.RunSpawned()
	r.absorb(e, "WordVector of "+what)
}

// rowPart names a row of a matrix relative to the row that is written.
func rowPart(s *State, isOwn, isCtx func(s *State, t *Term) bool, mm, id, dst, row *Term) string {
	d := linOf(s.norm(id)).plus(linOf(s.norm(row)), -1)
	same := s.equal(id, row)
	second := len(d.at) == 1 && d.co[0] == 1 && d.c == 0 && isDicLen(s.norm(d.at[0]))
	switch {
	case s.norm(mm) == s.norm(dst) && same:
		return "self"
	case isOwn(s, mm) && same:
		return "own"
	case isOwn(s, mm) && second:
		return "second"
	case isCtx(s, mm) && same:
		return "ctx"
	}
	return "?"
}

// rowDone notes that the current row has its content, in the round of the loop over the rows.
func rowDone(x *Ctx, m *modelType, r *Rep, what, want string, ri int, mt types.Type) {
	s := x.S
	f := strings.Fields(s.auto["content"])
	if len(f) < 2 {
		return
	}
	expr := ""
	if len(f) > 2 {
		expr = f[2]
	}
	for _, t := range terms.byID(f[1]) {
		if cnt := counterOf(x, t); cnt != nil {
			for _, d := range terms.byID(f[0]) {
				if rows := s.read(mkFieldAddr(d, ri, mt)); rows != nil && s.equal(cnt.limit(x), rows) {
					s.auto["row "+cntKey(cnt)] = f[0] + " " + expr
					return
				}
			}
		}
	}
	r.bad("elements", what, "a row is filled outside of a loop over all rows (%s)", x.Pos())
}
