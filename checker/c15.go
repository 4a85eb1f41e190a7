package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C15",
		Technique: "path-sensitive abstract interpretation over go/ssa with order, length and string facts; inductive invariant of the insertion loop checked for one symbolic iteration",
		Explanation: "Searcher.Search is analysed with its helpers: for a k that is not positive every path must return an error before anything of size k is made; the slice returned has at most k entries, and a scan that goes on only past entries with a word has shown that none of them is blank; " +
			"a neighbor is made only for a word that a lookup in the complete set of excluded words did not find. The loops that store into the result are analysed from an arbitrary state for one iteration, which must keep the invariant that proves the order (an entry is only replaced by a more similar one, and what is carried on is at most as similar) and that entry i has rank i+1. The word that SearchInternal looked up, and the operands of the console, must be among the excluded words.",
		Run: runC15,
	})
}

func isNeighbor(t types.Type) bool { return namedIs(t, "pkg/search", "Neighbor") }

func isNeighborSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isNeighbor(sl.Elem())
}

// neighborElem gives the slice and index of an address of, or in, an entry of a result list.
func neighborElem(a *Term) (elem *Term, field string, ok bool) {
	if a.Kind == 'o' && a.Op == "fieldaddr" {
		elem, field = a.Args[0], fieldName(a.Typ, a.Field)
	} else {
		elem = a
	}
	if elem.Kind != 'o' || elem.Op != "indexaddr" {
		return nil, "", false
	}
	return elem, field, true
}

// fieldCell gives the address of a named field of the struct at a.
func fieldCell(a *Term, t types.Type, name string) *Term {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldAddr(a, i, t)
		}
	}
	return nil
}

func fieldValue(v *Term, t types.Type, name string) *Term {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkField(v, i, t)
		}
	}
	return nil
}

// content reads a cell, naming what is not known.
func (s *State) content(a *Term, typ types.Type) *Term {
	if v := s.read(a); v != nil {
		return s.norm(v)
	}
	v := memVal(a, typ)
	s.mem[a] = v
	return v
}

type loopKey struct {
	fn *ssa.Function
	h  *ssa.BasicBlock
}

// innermost gives the innermost loop around a block, outwards through the callers.
func innermost(f *Frame, b *ssa.BasicBlock) (*Frame, *ssa.BasicBlock) {
	for f != nil {
		var best *ssa.BasicBlock
		n := 0
		for _, h := range f.Fn.Blocks {
			if body := naturalLoop(h); body != nil && body[b] && (best == nil || len(body) < n) {
				best, n = h, len(body)
			}
		}
		if best != nil {
			return f, best
		}
		if f.Site == nil {
			return nil, nil
		}
		b = f.Site.Block()
		f = f.Parent
	}
	return nil, nil
}

func runC15(r *Rep) { c15(r, nil) }

// c15 decides the order of the results. With lost, it is also decided whether an
// insertion keeps every entry but one that is carried beyond the last.
func c15(r, lost *Rep) {
	r.rule("k-positive", 1, "a k that is not positive is an error")
	r.rule("at-most-k", 1, "at most k entries are returned")
	r.rule("no-blank", 1, "no entry that is returned is blank")
	r.rule("excluded", 1, "only words that are not excluded become entries")
	r.rule("order", 1, "storing an entry keeps the list ordered by descending similarity")
	r.rule("rank", 1, "an entry has the rank of its position")
	r.rule("excludes", 2, "the query word and the operands are excluded")
	p := r.P
	search := p.method("pkg/search", "Searcher", "Search")
	internal := p.method("pkg/search", "Searcher", "SearchInternal")
	if search == nil || internal == nil {
		r.bad("entry-points", "Search", "Searcher.Search or SearchInternal is not found")
		return
	}
	inPkg := func(k *Call) bool {
		return k.Fn != nil && k.Fn.Pkg != nil && strings.HasSuffix(k.Fn.Pkg.Pkg.Path(), "/pkg/search")
	}
	var kPar, ignPar *ssa.Parameter
	for _, pa := range search.Params {
		switch {
		case typKey(pa.Type()) == "int":
			kPar = pa
		case typKey(pa.Type()) == "[]string":
			ignPar = pa
		}
	}
	if kPar == nil || ignPar == nil {
		r.bad("entry-points", "Search", "the parameters of Search are not recognised")
		return
	}
	site := fnName(search)

	// 1. k <= 0
	{
		c := &Client{Inline: inPkg}
		c.Exit = func(x *Ctx, res []*Term) {
			r.must(p.errFate(search, x.S, res) == 1, "k-positive", site, "Search can return without an error although k is not positive (%s)", x.Pos())
		}
		c.Instr = func(x *Ctx) {
			switch in := x.I.(type) {
			case *ssa.MakeSlice:
				if !x.S.atLeast(x.Val(in.Len), 0) || !x.S.atLeast(x.Val(in.Cap), 0) {
					r.bad("k-positive", site, "Search can make a slice of a negative length (%s)", x.Pos())
				}
			case *ssa.IndexAddr:
				if isNeighborSlice(in.X.Type()) {
					r.bad("k-positive", site, "Search can use its result list although k is not positive (%s)", x.Pos())
				}
			}
		}
		e := newEngine(p, c)
		f := e.rootFrame(search)
		s := newState()
		k := mkLeaf(f, kPar, "")
		s.addLin(linOf(k), ival{hasHi: true, hi: 0})
		e.Run(f, s)
		r.absorb(e, site+" k<=0")
	}

	// 2. k >= 1
	loops := map[loopKey]bool{}
	lookups := map[string][2]*Term{}
	strict := true
	{
		c := &Client{Inline: inPkg, Pin: func(v ssa.Value) bool { return v == ssa.Value(kPar) }}
		ignore := func(x *Ctx) *Term { return mkLeaf(x.E.Root, ignPar, "") }
		// the term that an element of a slice of strings was loaded from
		elemOfIgnore := func(x *Ctx, v ssa.Value) (ssa.Value, bool) {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return nil, false
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok || x.S.norm(x.Val(ia.X)) != ignore(x) {
				return nil, false
			}
			return ia.Index, true
		}
		loopName := func(x *Ctx, h *ssa.BasicBlock) string { return fmt.Sprint(x.F.id, ":", h.Index) }
		c.Instr = func(x *Ctx) {
			s := x.S
			switch in := x.I.(type) {
			case *ssa.Lookup:
				q := [2]*Term{x.Val(in.X), s.norm(x.Val(in.Index))}
				n := fmt.Sprintf("lookup %d %d", q[0].id, q[1].id)
				lookups[n] = q
				s.tags[mkLeaf(x.F, in, "")] = n
			case *ssa.MapUpdate:
				if idx, ok := elemOfIgnore(x, in.Key); ok {
					if b := x.Val(in.Value); isBool(in.Value.Type()) && s.boolOf(b) != 1 {
						return
					}
					if _, _, h, ok := countLoop(idx, in.Block(), nil); ok {
						s.auto["put "+loopName(x, h)] = fmt.Sprint(x.Val(in.Map).id)
					}
				}
			case *ssa.Store:
				a := s.norm(x.Val(in.Addr))
				v := x.Val(in.Val)
				elem, field, isElem := neighborElem(a)
				if isElem && (field == "" && isNeighbor(in.Val.Type()) || field != "" && isNeighbor(a.Typ)) {
					f, h := innermost(x.F, in.Block())
					if f == nil {
						r.bad("order", site, "an entry is stored outside of a loop (%s)", x.Pos())
						return
					}
					loops[loopKey{f.Fn, h}] = true
					_ = elem
					return
				}
				// making a neighbor
				if a.Kind == 'o' && a.Op == "fieldaddr" && isNeighbor(a.Typ) && fieldName(a.Typ, a.Field) == "Word" {
					w := s.norm(v)
					if str, ok := constStr(w); ok && str == "" {
						return
					}
					r.must(s.tags[w] == "allowed", "excluded", site, "a neighbor is made for %s, which is not known to be none of the excluded words (%s)", w, x.Pos())
				}
			}
		}
		c.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) {
			s := x.S
			// the set of excluded words does not have it
			for _, t := range []*Term{cond, s.norm(cond)} {
				for t.Kind == 'o' && t.Op == "!" {
					t = t.Args[0]
				}
				l, comma := t, false
				if t.Kind == 'o' && t.Op == "extract" && t.Field == 1 {
					l, comma = t.Args[0], true
				}
				lk, _ := l.Val.(*ssa.Lookup)
				if l.Kind != 'l' || lk == nil || lk.CommaOk != comma || !isString(lk.Index.Type()) {
					continue
				}
				if q, ok := lookups[s.tags[l]]; ok && s.boolOf(t) == 0 && s.auto["complete"] == fmt.Sprint(q[0].id) {
					s.tags[s.norm(q[1])] = "allowed"
				}
			}
			// an entry has a word
			if cond.Kind == 'o' && cond.Op == "==" && s.boolOf(cond) == 0 {
				for i, t := range cond.Args {
					if str, ok := constStr(cond.Args[1-i]); !ok || str != "" {
						continue
					}
					if elem := wordOfEntry(x, t); elem != nil {
						s.auto["nonblank"] = fmt.Sprint(elem.id)
						s.tags[s.norm(elem.Args[1])] = "has word"
					}
				}
			}
			// a comparison with an excluded word fails
			if cond.Kind == 'o' && cond.Op == "==" && s.boolOf(cond) == 0 {
				if iff, ok := x.I.(*ssa.If); ok {
					if b, ok := iff.Cond.(*ssa.BinOp); ok && isString(b.X.Type()) {
						for _, xy := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
							if idx, ok := elemOfIgnore(x, xy[0]); ok {
								if _, _, h, ok := countLoop(idx, iff.Block(), nil); ok {
									s.auto["put "+loopName(x, h)] = fmt.Sprint(s.norm(x.Val(xy[1])).id)
								}
							}
						}
					}
				}
			}
		}
		c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
			s := x.S
			if to.Dominates(from) {
				for t, tag := range s.tags {
					if tag == "has word" {
						delete(s.tags, t)
					}
				}
			}
			for _, in := range loopsOver(x.F.Fn) {
				n := loopName(x, in.header)
				over := func(t *Term) bool {
					return s.equal(mkLin(linOf(again(x, in.bound)).plus(linOf(mkInt(in.minus)), -1)), s.lenOf(t))
				}
				if isNeighborSlice(in.base.Type()) {
					switch {
					case to == in.header && !in.body[from]:
						s.auto["scan "+n] = "all"
					case to == in.header:
						if s.auto["nonblank"] != fmt.Sprint(mkIndexAddr(x.Val(in.base), x.Val(in.idx), in.elem.Type()).id) {
							s.auto["scan "+n] = "some"
						}
						delete(s.auto, "nonblank")
					case in.body[from] && !in.body[to]:
						if s.auto["scan "+n] == "all" {
							if from == in.header {
								if over(x.Val(in.base)) {
									s.auto["clean all"] = "yes"
								}
							} else {
								s.tags[s.norm(x.Val(in.idx))] = "clean"
							}
						}
						delete(s.auto, "scan "+n)
					}
					continue
				}
				if typKey(in.base.Type().Underlying()) == "[]string" {
					switch {
					case to == in.header && !in.body[from]:
						s.auto["fill "+n] = ""
					case to == in.header:
						put := s.auto["put "+n]
						if old := s.auto["fill "+n]; old != "" && old != put || put == "" {
							put = "none"
						}
						s.auto["fill "+n] = put
						delete(s.auto, "put "+n)
					case from == in.header && !in.body[to]:
						if m := s.auto["fill "+n]; over(ignore(x)) && s.norm(x.Val(in.base)) == ignore(x) {
							// with no words there is nothing to exclude, whatever the set is
							if m == "" {
								for _, b := range x.F.Fn.Blocks {
									for _, i := range b.Instrs {
										if mu, ok := i.(*ssa.MapUpdate); ok && in.body[b] {
											m = fmt.Sprint(x.Val(mu.Map).id)
										}
									}
								}
							}
							s.auto["complete"] = m
							for t := range s.env {
								if fmt.Sprint(s.norm(t).id) == m && isString(s.norm(t).Typ) {
									s.tags[s.norm(t)] = "allowed"
								}
							}
							for _, pa := range x.F.Fn.Params {
								if t := s.norm(x.Val(pa)); isString(pa.Type()) && (fmt.Sprint(t.id) == m || m == "") {
									s.tags[t] = "allowed"
								}
							}
						}
						delete(s.auto, "fill "+n)
					}
				}
			}
		}
		c.Call = func(x *Ctx, k *Call) (bool, *Term) {
			if k.Name == "builtin.append" && isNeighborSlice(k.Com.Args[0].Type()) {
				r.bad("order", site, "an entry is appended to the result, whose order is not known (%s)", x.Pos())
			}
			if (k.Name == "builtin.delete" || k.Name == "builtin.clear") && x.S.auto["complete"] != "" {
				r.bad("excluded", site, "the set of excluded words is changed (%s)", x.Pos())
			}
			return false, nil
		}
		c.Exit = func(x *Ctx, res []*Term) {
			s := x.S
			if p.errFate(search, s, res) == 1 {
				return
			}
			out := s.norm(res[0])
			n := s.lenOf(out)
			r.must(s.lessEq(n, mkLeaf(x.E.Root, kPar, "")), "at-most-k", site, "Search can return more than k entries (%s)", x.Pos())
			if s.atMost(n, 0) {
				r.ok("no-blank", site)
				return
			}
			lo, hi := mkInt(0), n
			if out.Kind == 'o' && out.Op == "slice" {
				lo = out.Args[1]
			}
			good := s.auto["clean all"] == "yes" || s.tags[s.norm(hi)] == "clean"
			for t, tag := range s.tags {
				good = good || tag == "clean" && s.equal(t, hi)
			}
			if !good && strict {
				// the last one is not blank, and blank ones come last
				for t, tag := range s.tags {
					good = good || tag == "has word" && s.equal(mkLin(linOf(t).plus(linOf(mkInt(1)), 1)), hi)
				}
			}
			if n, ok := constInt(s.norm(lo)); !ok || n != 0 {
				good = false
			}
			r.must(good, "no-blank", site, "Search can return entries that it has not seen to have a word (%s)", x.Pos())
		}
		e := newEngine(p, c)
		f := e.rootFrame(search)
		s := newState()
		s.addLin(linOf(mkLeaf(f, kPar, "")), ival{hasLo: true, lo: 1})
		e.Run(f, s)
		r.absorb(e, site)
	}

	// 3. one iteration of each loop that stores entries, from any state
	for l := range loops {
		insertion(r, lost, l, inPkg)
	}

	// 4. the callers
	c := &Client{Inline: func(k *Call) bool { return inPkg(k) && k.Fn != search }}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if k.Fn != search {
			return false, nil
		}
		s := x.S
		ign := s.norm(k.Args[len(k.Args)-1])
		good := false
		for _, a := range sortedMem(s) {
			if a.Kind == 'o' && a.Op == "indexaddr" && (a.Args[0] == ign || ign.Kind == 'o' && ign.Op == "slice" && a.Args[0] == ign.Args[0]) {
				w := s.norm(s.mem[a])
				for _, pa := range internal.Params {
					if isString(pa.Type()) && (w == mkLeaf(x.E.Root, pa, "") || s.strEq(w, mkLeaf(x.E.Root, pa, "")) == 1) {
						good = true
					}
				}
			}
		}
		r.must(good, "excludes", fnName(internal), "the query word is not seen to be excluded (%s)", x.Pos())
		return false, nil
	}
	p.analyse(r, internal, newState(), c, fnName(internal))
	tmp := newRep("C28", p)
	runC28(tmp)
	for _, k := range tmp.order {
		o := tmp.obl[k]
		if o.Rule == "excludes" {
			r.must(o.OK, "excludes", o.Construct, "%s", o.Msg)
		}
	}
}

// wordOfEntry gives the entry whose word a term is.
func wordOfEntry(x *Ctx, t *Term) *Term {
	load := func(t *Term) *Term {
		if t.Kind != 'l' || t.Frame == nil {
			return nil
		}
		ld, ok := t.Val.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return nil
		}
		return x.S.norm(x.E.val(t.Frame, ld.X, x.S))
	}
	var elem *Term
	if t.Kind == 'o' && t.Op == "field" && isNeighbor(t.Typ) && fieldName(t.Typ, t.Field) == "Word" {
		elem = load(t.Args[0])
	} else if a := load(t); a != nil && a.Kind == 'o' && a.Op == "fieldaddr" && isNeighbor(a.Typ) && fieldName(a.Typ, a.Field) == "Word" {
		elem = a.Args[0]
	}
	if elem == nil || elem.Kind != 'o' || elem.Op != "indexaddr" {
		return nil
	}
	return elem
}

// overLoop is a loop that counts through the elements of a slice.
type overLoop struct {
	header      *ssa.BasicBlock
	body        map[*ssa.BasicBlock]bool
	idx         ssa.Value
	bound, base ssa.Value
	elem        ssa.Value // the address of the element
	minus       int64
}

var overLoops = map[*ssa.Function][]*overLoop{}

// loopsOver finds the loops of fn that count through slices; early exits are allowed.
func loopsOver(fn *ssa.Function) []*overLoop {
	if ls, ok := overLoops[fn]; ok {
		return ls
	}
	var out []*overLoop
	seen := map[[2]interface{}]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			n, minus, h, ok := countLoop(ia.Index, b, func(from, to *ssa.BasicBlock) bool { return true })
			if !ok || seen[[2]interface{}{h, typKey(ia.X.Type())}] {
				continue
			}
			seen[[2]interface{}{h, typKey(ia.X.Type())}] = true
			out = append(out, &overLoop{h, naturalLoop(h), ia.Index, n, ia.X, ia, minus})
		}
	}
	overLoops[fn] = out
	return out
}

// insertion analyses one iteration of a loop that stores entries.
func insertion(r, lost *Rep, l loopKey, inline func(k *Call) bool) {
	p := r.P
	site := fnName(l.fn)
	body := naturalLoop(l.h)
	var nt types.Type
	type slot struct{ elem, sim0, word0 *Term }
	var slots []*slot
	num := func(s *State, a *Term, f string) *Term {
		c := fieldCell(a, nt, f)
		var t types.Type = types.Typ[types.Float64]
		if f == "Word" {
			t = types.Typ[types.String]
		} else if f == "Rank" {
			t = types.Typ[types.Uint]
		}
		return s.content(c, t)
	}
	c := &Client{Inline: inline}
	c.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.IndexAddr:
			// remember what an entry held before the iteration touched it
			if !isNeighborSlice(in.X.Type()) {
				return
			}
			nt = elemOf(in.X.Type())
			a := mkIndexAddr(x.Val(in.X), x.Val(in.Index), in.Type())
			for _, o := range slots {
				if o.elem.id == a.id {
					return
				}
			}
			slots = append(slots, &slot{a, memVal(fieldCell(a, nt, "Similarity"), types.Typ[types.Float64]), memVal(fieldCell(a, nt, "Word"), types.Typ[types.String])})
			for _, f := range []string{"Similarity", "Word", "Rank"} {
				num(s, a, f)
			}
		}
	}
	var carriers []*Term
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		if x.F.Parent != nil || body[from] == body[to] && to != l.h {
			return
		}
		s := x.S
		defer func() { s.dead = true }()
		for _, o := range slots {
			sim, word, rank := num(s, o.elem, "Similarity"), num(s, o.elem, "Word"), num(s, o.elem, "Rank")
			idx := o.elem.Args[1]
			if sim == o.sim0 && word == o.word0 {
				if rank != memVal(fieldCell(o.elem, nt, "Rank"), types.Typ[types.Uint]) && !isRankOf(rank, idx) {
					r.bad("rank", site, "the rank of entry %s becomes %s (%s)", idx, rank, x.Pos())
				}
			} else {
				r.must(isRankOf(rank, idx), "rank", site, "the rank of entry %s becomes %s (%s)", idx, rank, x.Pos())
				m := s.relOf(sim, o.sim0)
				r.must(m&relLT == 0, "order", site, "an entry can be replaced by one that is less similar (%s)", x.Pos())
			}
			// what is carried on
			carrier, kept := false, false
			for _, a := range carriers {
				v, w := num(s, a, "Similarity"), num(s, a, "Word")
				v0, w0 := memVal(fieldCell(a, nt, "Similarity"), types.Typ[types.Float64]), memVal(fieldCell(a, nt, "Word"), types.Typ[types.String])
				kept = kept || sim == o.sim0 && word == o.word0 && v == v0 && w == w0 || sim == v0 && word == w0 && v == o.sim0 && w == o.word0
				if s.relOf(v, sim)&relGT != 0 {
					continue
				}
				// its word goes with its similarity
				carrier = carrier || v == o.sim0 && w == o.word0 ||
					v == memVal(fieldCell(a, nt, "Similarity"), types.Typ[types.Float64]) && w == memVal(fieldCell(a, nt, "Word"), types.Typ[types.String])
			}
			if lost != nil {
				lost.must(kept, "exchange", site, "entry %s and the one that is inserted are not kept both (%s)", idx, x.Pos())
			}
			r.must(carrier, "order", site, "after entry %s what is carried on to the next one may be more similar than it (%s)", idx, x.Pos())
		}
	}
	c.Exit = func(x *Ctx, res []*Term) {}
	e := newEngine(p, c)
	f := e.rootFrame(l.fn)
	s := newState()
	// the carried entry is a variable of the function
	for _, b := range l.fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && isNeighbor(al.Type()) && !body[b] {
				nt = al.Type().Underlying().(*types.Pointer).Elem()
				carriers = append(carriers, mkLeaf(f, al, ""))
				for _, n := range []string{"Similarity", "Word", "Rank"} {
					num(s, mkLeaf(f, al, ""), n)
				}
			}
		}
	}
	for i, pa := range l.fn.Params {
		if pt, ok := pa.Type().Underlying().(*types.Pointer); ok && isNeighbor(pt.Elem()) {
			nt = pt.Elem()
			carriers = append(carriers, f.param(i))
			for _, n := range []string{"Similarity", "Word", "Rank"} {
				num(s, f.param(i), n)
			}
		}
	}
	e.push(f, l.h, 0, s)
	e.drain()
	r.absorb(e, site+" loop")
	// the loop goes through all entries in order
	full := false
	for _, o := range loopsOver(l.fn) {
		if o.header == l.h && isNeighborSlice(o.base.Type()) {
			full = true
			for _, b := range l.fn.Blocks {
				if body[b] && b != l.h {
					for _, t := range b.Succs {
						if !body[t] && !endsFunction(t, body) {
							full = false
						}
					}
				}
			}
			x := &Ctx{e, f, l.h.Instrs[0], newState()}
			full = full && x.S.equal(mkLin(linOf(again(x, o.bound)).plus(linOf(mkInt(o.minus)), -1)), x.S.lenOf(x.Val(o.base)))
		}
	}
	r.must(full, "order", site+" loop", "the loop that stores entries is not seen to go through all of them from the first to the last")
	if lost != nil {
		lost.must(full && len(slots) == 1, "exchange", site+" loop", "the insertion does not go through all entries from the first to the last, one in each round")
	}
	r.must(len(slots) == 1, "order", site+" loop", "an iteration uses %d entries instead of one", len(slots))
}

// isRankOf reports whether a rank is index+1.
func isRankOf(rank, idx *Term) bool {
	u := types.Typ[types.Uint]
	one := mkConv(types.Typ[types.Int], u, mkInt(1))
	want := []*Term{
		mkBin(token.ADD, u, u, mkConv(types.Typ[types.Int], u, idx), one),
		mkConv(types.Typ[types.Int], u, mkLin(linOf(idx).plus(linOf(mkInt(1)), 1))),
	}
	for _, w := range want {
		if w == rank {
			return true
		}
	}
	return false
}
