package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C27",
		Technique: "typestate analysis (zero or being summed up, used) of scratch vectors by path-sensitive abstract interpretation over go/ssa, modular over the call graph",
		Explanation: "Every vector that is taken from a pool or made on the spot, and is then added to element by element, is followed through the functions it is passed to. It is zero only after a loop that stores zero into each of its elements, or when it was just made; " +
			"adding to it is allowed when it is zero or is still being summed up, and a use of what it holds ends that: adding again without zeroing is a violation, as is adding to a vector fresh from a pool, of which nothing is known. Rows of a matrix and vectors held in other structures are parameters, to which anything may be added.",
		Run: runC27,
	})
}

// tokenTypes lists the struct types that are sent through channels.
func (p *Prog) tokenTypes() map[string]bool {
	out := map[string]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if sd, ok := in.(*ssa.Send); ok {
					t := sd.X.Type()
					if pt, ok := t.Underlying().(*types.Pointer); ok {
						t = pt.Elem()
					}
					if structOf(t) != nil {
						out[typKey(t)] = true
					}
				}
			}
		}
	}
	return out
}

// fieldRead gives the field that a value is read from.
func fieldRead(v ssa.Value) (fieldID, bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			return fieldIDOf(fa), true
		}
	case *ssa.Field:
		return fieldID{typKey(v.X.Type()), fieldName(v.X.Type(), v.Field)}, true
	}
	return fieldID{}, false
}

type scratch struct {
	p      *Prog
	tokens map[string]bool
}

// is reports whether a vector may be a scratch vector.
func (c *scratch) is(v ssa.Value) bool {
	for _, q := range c.p.sources(v) {
		if id, ok := fieldRead(q); ok {
			if c.tokens[id.typ] {
				return true
			}
			continue
		}
		if k, ok := q.(*ssa.Call); ok {
			if f := k.Call.StaticCallee(); f != nil && f == c.p.method("pkg/model/modelutil/matrix", "Matrix", "Slice") {
				continue
			}
		}
		return true
	}
	return false
}

// size describes the length that all vectors that v may be were made with.
func (c *scratch) size(v ssa.Value) string {
	seen := map[string]bool{}
	out, ok := "", true
	add := func(s string) {
		if s == "" || out != "" && out != s {
			ok = false
		}
		out = s
	}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, q := range c.p.sourcesThrough(v, func(*ssa.Function) bool { return true }) {
			if id, isF := fieldRead(q); isF && c.tokens[id.typ] {
				if !seen[id.String()] {
					seen[id.String()] = true
					for _, st := range c.fieldStores(id) {
						walk(st)
					}
				}
				continue
			}
			switch u := q.(type) {
			case *ssa.MakeSlice:
				add(c.count(u.Len))
				continue
			case *ssa.UnOp:
				if u.Op == token.ARROW {
					if k := "chan " + typKey(u.Type()); !seen[k] {
						seen[k] = true
						for _, sd := range c.sent(u.Type()) {
							walk(sd)
						}
					}
					continue
				}
			}
			ok = false
		}
	}
	walk(v)
	if !ok {
		return ""
	}
	return out
}

// count describes a number of elements.
func (c *scratch) count(v ssa.Value) string {
	out := ""
	for _, q := range c.p.sources(v) {
		s := ""
		if id, ok := fieldRead(q); ok {
			s = id.String()
		} else if k, ok := q.(*ssa.Call); ok {
			if b, isB := k.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" && isFloatSliceType(k.Call.Args[0].Type()) {
				s = c.size(k.Call.Args[0])
			}
		}
		if s == "" || out != "" && out != s {
			return ""
		}
		out = s
	}
	return out
}

func (c *scratch) fieldStores(id fieldID) (out []ssa.Value) {
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldIDOf(fa) == id {
						out = append(out, st.Val)
					}
				}
			}
		}
	}
	return
}

func (c *scratch) sent(t types.Type) (out []ssa.Value) {
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if sd, ok := in.(*ssa.Send); ok && types.Identical(sd.X.Type(), t) {
					out = append(out, sd.X)
				}
			}
		}
	}
	return
}

// addsTo recognises an element update that adds to what is there: x[i] = x[i] + e.
func addsTo(st *ssa.Store) (load *ssa.UnOp, ok bool) {
	ia, isIA := st.Addr.(*ssa.IndexAddr)
	if !isIA || !isFloatSliceType(ia.X.Type()) {
		return nil, false
	}
	var find func(v ssa.Value) *ssa.UnOp
	find = func(v ssa.Value) *ssa.UnOp {
		switch v := v.(type) {
		case *ssa.BinOp:
			if v.Op == token.ADD || v.Op == token.SUB {
				if l := find(v.X); l != nil {
					return l
				}
				if v.Op == token.ADD {
					return find(v.Y)
				}
			}
		case *ssa.UnOp:
			if jb, isJ := v.X.(*ssa.IndexAddr); isJ && v.Op == token.MUL && sameExpr(jb.X, ia.X) && sameExpr(jb.Index, ia.Index) {
				return v
			}
		}
		return nil
	}
	load = find(st.Val)
	return load, load != nil
}

// sameExpr reports that two values are the same, or read from the same variable.
func sameExpr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch u := a.(type) {
	case *ssa.UnOp:
		w, ok := b.(*ssa.UnOp)
		return ok && u.Op == w.Op && u.Op != token.ARROW && sameExpr(u.X, w.X)
	case *ssa.FieldAddr:
		w, ok := b.(*ssa.FieldAddr)
		return ok && u.Field == w.Field && sameExpr(u.X, w.X)
	case *ssa.IndexAddr:
		w, ok := b.(*ssa.IndexAddr)
		return ok && sameExpr(u.X, w.X) && sameExpr(u.Index, w.Index)
	}
	return false
}

// addLoads lists the loads that only feed such an update.
func addLoads(f *ssa.Function) map[*ssa.UnOp]bool {
	out := map[*ssa.UnOp]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if l, ok := addsTo(st); ok && len(*l.Referrers()) == 1 {
					out[l] = true
				}
			}
		}
	}
	return out
}

func runC27(r *Rep) {
	r.rule("accumulate", 2, "what is added to is zero, or was zero when the sum was begun")
	p := r.P
	sc := &scratch{p: p, tokens: p.tokenTypes()}
	sums := map[*ssa.Function]map[*ssa.UnOp]bool{}
	for _, f := range p.Funcs {
		sums[f] = addLoads(f)
	}
	var mod *modular
	mod = newModular(p, r, func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		if _, ok := addsTo(st); !ok {
			return false
		}
		return sc.is(st.Addr.(*ssa.IndexAddr).X)
	})
	mod.in = func(f *ssa.Function) bool {
		return p.inRepo(f) && !strings.Contains(qualName(f), "/pkg/corpus/") && !isMatrixNew(f) && !isVerboseDo(qualName(f))
	}
	mod.client = func(r *Rep, fn *ssa.Function) *Client {
		c := &Client{}
		const open = "zero or being summed up"
		c.Call = func(x *Ctx, k *Call) (bool, *Term) {
			s := x.S
			if isVerboseDo(k.Name) {
				return true, nil
			}
			if k.Name == "builtin.clear" && len(k.Args) == 1 {
				s.tags[s.norm(k.Args[0])] = open
			}
			if k.Name == "builtin.copy" && len(k.Args) == 2 {
				// a copy replaces what was there, and reads the other
				delete(s.tags, s.norm(k.Args[0]))
				delete(s.tags, s.norm(k.Args[1]))
			}
			return matrixModel(p, x, k)
		}
		c.Instr = func(x *Ctx) {
			s := x.S
			switch in := x.I.(type) {
			case *ssa.MakeSlice:
				if isFloatSliceType(in.Type()) {
					s.tags[mkLeaf(x.F, in, "")] = open
				}
			case *ssa.Send:
				for t := range s.tags {
					if s.tags[t] == open {
						delete(s.tags, t)
					}
				}
			case *ssa.UnOp:
				ia, ok := in.X.(*ssa.IndexAddr)
				if !ok || in.Op != token.MUL || !isFloatSliceType(ia.X.Type()) || sums[x.F.Fn][in] {
					return
				}
				// what it holds is used: the sum is over
				delete(s.tags, s.norm(x.Val(ia.X)))
			case *ssa.Store:
				ia, ok := in.Addr.(*ssa.IndexAddr)
				if !ok || !isFloatSliceType(ia.X.Type()) {
					return
				}
				b := s.norm(x.Val(ia.X))
				if _, _, isRow := rowOf(s, b); isRow || !sc.is(ia.X) {
					return
				}
				if _, adds := addsTo(in); !adds {
					if f, isC := constFloat(s.norm(x.Val(in.Val))); !isC || f != 0 {
						// overwritten by something else: what it holds is not a sum
						delete(s.tags, b)
					}
					return
				}
				r.must(s.tags[b] == open, "accumulate", fnName(x.F.Fn), "a vector is added to although it was not set to zero, or has been used since (%s)", x.Pos())
			}
		}
		c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
			body := naturalLoop(from)
			if body == nil || body[to] {
				return
			}
			s := x.S
			for blk := range body {
				for _, in := range blk.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					ia, ok := st.Addr.(*ssa.IndexAddr)
					if !ok || !isFloatSliceType(ia.X.Type()) {
						continue
					}
					cst, ok := st.Val.(*ssa.Const)
					if !ok {
						continue
					}
					if f, ok := constFloat(mkConst(normConst(cst.Value, cst.Type()), cst.Type())); !ok || f != 0 {
						continue
					}
					bound, minus, h, ok := countLoop(ia.Index, blk, nil)
					if !ok || h != from {
						continue
					}
					b := s.norm(again(x, ia.X))
					n := mkLin(linOf(again(x, bound)).plus(linOf(mkInt(minus)), -1))
					whole := s.equal(n, s.lenOf(b))
					if bo, ok := bound.(*ssa.BinOp); ok && minus == -1 && bo.Op == token.SUB && intConst(bo.Y, 1) {
						bound, minus = bo.X, 0
					}
					if !whole && minus == 0 {
						sz := sc.size(ia.X)
						whole = sz != "" && sz == sc.count(bound)
					}
					if whole {
						s.tags[b] = open
					}
				}
			}
		}
		return c
	}
	for _, m := range p.models(r) {
		mod.root(m.Train)
	}
}
