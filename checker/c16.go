package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C16",
		Technique: "interprocedural path-sensitive analysis over go/ssa with linear constraints on lengths and indices",
		Explanation: "Searcher.Search, SearchInternal, SearchVector, search.New and Console.Run are analysed interprocedurally with linear constraints on the lengths of slices. " +
			"Wherever elements of two vectors are multiplied, added or subtracted, the lengths of the two must be known to be equal, and every index into a vector must be known to be in range; on a path on which two lengths (or the dimensions of two embeddings) are known to differ the function that found out must return an error; " +
			"and search.New may succeed only after a loop over all its embeddings that goes on only when the dimension of the embedding equals that of the first.",
		Run: runC16,
	})
}

func isVec(t *Term) bool {
	return t != nil && t.Typ != nil && typKey(t.Typ.Underlying()) == "[]float64"
}

// vecOf gives the slice that a float was loaded from in this state.
func loadedFrom(x *Ctx, v ssa.Value) (base, idx *Term, ok bool) {
	u, isU := v.(*ssa.UnOp)
	if !isU || u.Op != token.MUL {
		return nil, nil, false
	}
	ia, isIA := u.X.(*ssa.IndexAddr)
	if !isIA {
		return nil, nil, false
	}
	a := x.Val(ia)
	if a.Kind == 'o' && a.Op == "indexaddr" {
		return a.Args[0], a.Args[1], true
	}
	return x.Val(ia.X), x.Val(ia.Index), true
}

func inRange(s *State, idx, base *Term) bool {
	return s.atLeast(idx, 0) && s.less(idx, s.lenOf(base))
}

func runC16(r *Rep) {
	r.rule("equal-lengths", 2, "vectors are combined element by element only when their lengths are equal")
	r.rule("in-range", 3, "every element of a vector that is accessed exists")
	r.rule("mismatch-error", 2, "a difference between dimensions is an error")
	r.rule("uniform", 1, "a searcher is created only from embeddings of one dimension")
	r.rule("dim-is-length", 1, "an embedding is valid only if its dimension is the length of its vector")
	p := r.P
	inPkg := func(f *ssa.Function) bool {
		if f == nil {
			return false
		}
		q := qualName(f)
		return strings.Contains(q, modPath+"/pkg/search") || strings.Contains(q, modPath+"/pkg/embedding")
	}
	var m *modular
	client := func(r *Rep, fn *ssa.Function) *Client {
		entry := fnName(fn)
		c := &Client{}
		srcOf := func(x *Ctx, v ssa.Value) (*Term, *Term, bool) {
			// through parameters: the element may have been passed to a function
			t := x.S.norm(x.Val(v))
			if t.Kind == 'l' {
				if ld, ok := t.Val.(*ssa.UnOp); ok {
					if t.Frame == x.F {
						return loadedFrom(x, ld)
					}
					y := &Ctx{x.E, t.Frame, x.I, x.S}
					return loadedFrom(y, ld)
				}
			}
			return nil, nil, false
		}
		c.Instr = func(x *Ctx) {
			switch in := x.I.(type) {
			case *ssa.BinOp:
				if !isFloat(in.Type()) {
					return
				}
				a, _, ok1 := srcOf(x, in.X)
				b, _, ok2 := srcOf(x, in.Y)
				if ok1 && ok2 && a != b && isVec(a) || ok1 && ok2 && a != b {
					r.must(x.S.equal(x.S.lenOf(a), x.S.lenOf(b)), "equal-lengths", fnName(x.F.Fn), "elements of two vectors are combined whose lengths may differ (%s)", x.Pos())
				}
			case *ssa.IndexAddr:
				if typKey(in.X.Type().Underlying()) != "[]float64" || !inPkg(x.F.Fn) {
					return
				}
				b, i := x.Val(in.X), x.Val(in.Index)
				r.must(inRange(x.S, i, b), "in-range", fnName(x.F.Fn), "the index %s may be outside of %s (%s)", i, b, x.Pos())
			}
		}
		// a function that needs vectors of one length is called with such
		c.Call = func(x *Ctx, k *Call) (bool, *Term) {
			if inPkg(x.F.Fn) {
				var first *Term
				for _, a := range k.Com.Args {
					if v, _, ok := srcOf(x, a); ok && isFloat(a.Type()) {
						if first == nil {
							first = v
						}
						if v != first {
							r.must(x.S.equal(x.S.lenOf(v), x.S.lenOf(first)), "equal-lengths", fnName(x.F.Fn), "elements of two vectors whose lengths may differ are handed over together (%s)", x.Pos())
						}
					}
				}
			}
			if k.Fn == nil || !inPkg(k.Fn) || !m.has[k.Fn] || m.status(k.Fn) != modPre {
				return false, nil
			}
			var first *Term
			for i, pa := range k.Fn.Params {
				if !isFloatSliceType(pa.Type()) {
					continue
				}
				if first == nil {
					first = k.Args[i]
					continue
				}
				r.must(x.S.equal(x.S.lenOf(first), x.S.lenOf(k.Args[i])), "equal-lengths", fnName(x.F.Fn), "%s is called with vectors whose lengths may differ (%s)", fnName(k.Fn), x.Pos())
			}
			return false, nil
		}
		c.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) {
			if cond == nil {
				return
			}
			lens := dimsIn(x, cond)
			for i, u := range lens {
				for _, w := range lens[:i] {
					d := linOf(x.S.norm(u.t)).plus(linOf(x.S.norm(w.t)), -1)
					v := x.S.ivalOf(d)
					differ := v.hasLo && v.lo > 0 || v.hasHi && v.hi < 0
					for _, n := range v.neq {
						differ = differ || n == 0
					}
					if differ && u.of != w.of && x.S.auto["mismatch"] == "" {
						x.S.auto["mismatch"] = fnName(x.F.Fn)
						r.ok("mismatch-error", entry+" "+fnName(x.F.Fn))
					}
					if x.S.equal(u.t, w.t) {
						for _, lp := range embLoops(x.F.Fn) {
							if lp.is(u) && w.first || lp.is(w) && u.first {
								x.S.auto["same "+lp.name()] = "yes"
							}
						}
					}
				}
			}
		}
		done := func(x *Ctx, res []*Term) {
			if m := x.S.auto["mismatch"]; m != "" && inPkg(x.F.Fn) {
				fail := p.errFate(x.F.Fn, x.S, res)
				if !sigHasError(x.F.Fn.Signature) {
					return
				}
				r.must(fail == 1, "mismatch-error", entry+" "+m, "%s can return without an error although the dimensions differ (%s)", fnName(x.F.Fn), x.Pos())
				delete(x.S.auto, "mismatch")
			}
		}
		c.Ret = done
		c.Exit = done
		// a round of a loop over embeddings that goes on knows that this one has the dimension of the first
		c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
			if to.Dominates(from) {
				if x.S.auto["mismatch"] != "" {
					r.bad("mismatch-error", entry+" "+x.S.auto["mismatch"], "the search goes on with another vector although the dimensions differ (%s)", x.Pos())
				}
			}
			for _, lp := range embLoops(x.F.Fn) {
				n := lp.name()
				switch {
				case to == lp.header && !lp.body[from]:
					x.S.auto["loop "+n] = "all"
				case to == lp.header:
					if x.S.auto["same "+n] != "yes" {
						x.S.auto["loop "+n] = "some"
					}
				case from == lp.header && !lp.body[to]:
					if x.S.auto["loop "+n] == "all" && x.S.equal(mkLin(linOf(again(x, lp.bound)).plus(linOf(mkInt(lp.minus)), -1)), x.S.lenOf(x.Val(lp.base))) {
						x.S.auto["uniform"] = fmt.Sprint(x.Val(lp.base).id)
					}
					delete(x.S.auto, "loop "+n)
				}
				if to == lp.header {
					delete(x.S.auto, "same "+n)
				}
			}
		}
		return c
	}
	m = newModular(p, r, func(in ssa.Instruction) bool {
		ia, ok := in.(*ssa.IndexAddr)
		return ok && typKey(ia.X.Type().Underlying()) == "[]float64" && inPkg(in.Parent())
	})
	m.in = inPkg
	m.client = client
	m.pre = func(f *Frame, s *State) bool {
		var first *Term
		n := 0
		for i, pa := range f.Fn.Params {
			if !isFloatSliceType(pa.Type()) {
				continue
			}
			if n++; n == 1 {
				first = f.param(i)
				continue
			}
			s.addLin(linOf(s.lenOf(first)).plus(linOf(s.lenOf(f.param(i))), -1), ival{hasLo: true, hasHi: true})
		}
		return n > 1
	}
	for _, name := range []string{"Search", "SearchInternal", "SearchVector"} {
		if fn := p.method("pkg/search", "Searcher", name); fn != nil {
			m.root(fn)
		} else {
			r.bad("entry-points", name, "Searcher.%s is not found", name)
		}
	}
	if fn := p.method("pkg/search/console", "Console", "Run"); fn != nil {
		m.root(fn)
	} else {
		r.bad("entry-points", "Console.Run", "Console.Run is not found")
	}
	if fn := p.method("pkg/embedding", "Embedding", "Validate"); fn != nil {
		c := &Client{Inline: func(k *Call) bool { return inPkg(k.Fn) }}
		c.Exit = func(x *Ctx, res []*Term) {
			if p.errFate(fn, x.S, res) == 1 {
				return
			}
			e := mkLeaf(x.E.Root, fn.Params[0], "")
			st := structOf(fn.Params[0].Type())
			var dim, n *Term
			for i := 0; st != nil && i < st.NumFields(); i++ {
				switch f := mkField(e, i, fn.Params[0].Type()); st.Field(i).Name() {
				case "Dim":
					dim = f
				case "Vector":
					n = x.S.lenOf(f)
				}
			}
			good := dim != nil && n != nil && x.S.equal(dim, n) && x.S.atLeast(n, 1)
			r.must(good, "dim-is-length", fnName(fn), "an embedding whose dimension is not the length of its vector, or zero, can be valid (%s)", x.Pos())
		}
		p.analyse(r, fn, newState(), c, fnName(fn))
	} else {
		r.bad("entry-points", "Embedding.Validate", "Embedding.Validate is not found")
	}
	pk := p.Pkgs[modPath+"/pkg/search"]
	if pk == nil || pk.Func("New") == nil {
		r.bad("entry-points", "search.New", "search.New is not found")
		return
	}
	fn := pk.Func("New")
	m.client = func(r *Rep, f *ssa.Function) *Client {
		c := client(r, f)
		if f != fn {
			return c
		}
		exit := c.Exit
		c.Exit = func(x *Ctx, res []*Term) {
			exit(x, res)
			if p.errFate(fn, x.S, res) == 1 {
				return
			}
			embs := mkLeaf(x.E.Root, fn.Params[0], "")
			good := x.S.auto["uniform"] == fmt.Sprint(embs.id) || x.S.atMost(x.S.lenOf(embs), 1)
			r.must(good, "uniform", "search.New", "New can succeed (%s) without having compared the dimension of every embedding with that of the first", x.Pos())
		}
		return c
	}
	m.root(fn)
}

// dimension of an embedding or length of a vector
type dimTerm struct {
	t     *Term
	of    *Term     // the object it belongs to
	elem  ssa.Value // the index of the embedding in its slice, where known
	first bool
}

// dimsIn lists the dimensions and lengths of vectors that a condition compares.
func dimsIn(x *Ctx, cond *Term) []dimTerm {
	var out []dimTerm
	seen := map[*Term]bool{}
	elem := func(d *dimTerm, addr ssa.Value, f *Frame) {
		if ia, ok := addr.(*ssa.IndexAddr); ok {
			d.elem = ia.Index
			d.first = intConst(ia.Index, 0)
		}
	}
	of := func(d *dimTerm, o *Term) {
		d.of = o
		if o.Kind == 'o' && (o.Op == "field") {
			of2 := o.Args[0]
			if namedIs(o.Typ, "pkg/embedding", "Embedding") {
				d.of = of2
				o = of2
			}
		}
		if o.Kind == 'l' {
			if ld, ok := o.Val.(*ssa.UnOp); ok {
				elem(d, ld.X, o.Frame)
				if fa, ok := ld.X.(*ssa.FieldAddr); ok {
					elem(d, fa.X, o.Frame)
				}
			}
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		d := dimTerm{t: t}
		switch {
		case t.Kind == 'o' && t.Op == "len" && isFloatSliceTerm(t.Args[0]):
			of(&d, t.Args[0])
			out = append(out, d)
			return
		case t.Kind == 'o' && t.Op == "field" && namedIs(t.Typ, "pkg/embedding", "Embedding") && fieldName(t.Typ, t.Field) == "Dim":
			of(&d, t)
			out = append(out, d)
			return
		case t.Kind == 'l':
			if ld, ok := t.Val.(*ssa.UnOp); ok {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && namedIs(fa.X.Type(), "pkg/embedding", "Embedding") && fieldName(fa.X.Type(), fa.Field) == "Dim" {
					d.of = t
					elem(&d, fa.X, t.Frame)
					out = append(out, d)
				}
			}
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(cond)
	return out
}

// isFloatSliceTerm reports whether a term stands for a slice of floats.
func isFloatSliceTerm(t *Term) bool {
	if t.Kind == 'o' && t.Op == "field" {
		if st := structOf(t.Typ); st != nil && t.Field < st.NumFields() {
			return isFloatSliceType(st.Field(t.Field).Type())
		}
	}
	return isFloatSlice(t)
}

// embLoop is a loop over all embeddings of a slice.
type embLoop struct {
	header      *ssa.BasicBlock
	body        map[*ssa.BasicBlock]bool
	idx         ssa.Value
	bound, base ssa.Value
	minus       int64
}

func (l *embLoop) name() string { return fmt.Sprint(l.header.Index, l.header.Parent().Name()) }

func (l *embLoop) is(d dimTerm) bool { return d.elem == l.idx }

var embLoopsOf = map[*ssa.Function][]*embLoop{}

func embLoops(fn *ssa.Function) []*embLoop {
	if ls, ok := embLoopsOf[fn]; ok {
		return ls
	}
	var out []*embLoop
	seen := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !namedIs(elemOf(ia.X.Type()), "pkg/embedding", "Embedding") {
				continue
			}
			n, minus, h, ok := countLoop(ia.Index, b, nil)
			if !ok { // the first need not be compared with itself
				n, minus, h, ok = countFrom(1, ia.Index, b, nil)
			}
			if ok && !seen[h] {
				seen[h] = true
				out = append(out, &embLoop{h, naturalLoop(h), ia.Index, n, ia.X, minus})
			}
		}
	}
	embLoopsOf[fn] = out
	return out
}

func elemOf(t types.Type) types.Type {
	switch t := t.Underlying().(type) {
	case *types.Slice:
		return t.Elem()
	case *types.Array:
		return t.Elem()
	case *types.Pointer:
		return elemOf(t.Elem())
	}
	return t
}
