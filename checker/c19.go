package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C19",
		Technique: "interval and difference-bound abstract interpretation of Train with its goroutines over go/ssa; float-to-integer conversions yield any integer, so that infinities and NaN are included",
		Explanation: "Train of every model is analysed in both corpus modes with the goroutines it starts. At every access to an element or a part of the text, of the training items and of the sigmoid table the index must be proved to be at least zero and below the length, on every path. " +
			"Nothing is assumed about positions, windows and vector values: the conversion of a float to an index may give any integer. The length of the table is what the functions that fill the field establish.",
		Run: runC19,
	})
}

func runC19(r *Rep) {
	r.rule("document", 3, "a position in the text that is accessed exists")
	r.rule("table", 1, "an entry of a precomputed table that is accessed exists")
	p := r.P
	u := &unitCheck{r: r, p: p, rows: map[fieldID]int64{}, stored: map[fieldID]string{}, used: map[fieldID]string{}}
	tables := p.constTables(r)
	// the parameters that are used as a position in a text that is passed along
	positions := func(fn *ssa.Function) (doc int, pos []int) {
		doc = -1
		for i, q := range fn.Params {
			if isIntSlice(q.Type()) && u.docSource(q) == "" {
				doc = i
			}
		}
		if doc < 0 {
			return
		}
		for i, q := range fn.Params {
			if !isSignedInt(q.Type()) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ia, ok := in.(*ssa.IndexAddr); ok && ia.X == fn.Params[doc] && ia.Index == q {
						pos = append(pos, i)
					}
				}
			}
		}
		return
	}
	var mod *modular
	mod = newModular(p, r, func(in ssa.Instruction) bool {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok || !isSlice(ia.X.Type()) {
			return false
		}
		if isIntSlice(ia.X.Type()) && u.docSource(ia.X) == "" {
			return true
		}
		id, ok := p.fieldOfValue(ia.X)
		_, isTable := tables[id]
		return ok && isTable
	})
	mod.in = func(f *ssa.Function) bool {
		return p.inRepo(f) && !strings.Contains(qualName(f), "/pkg/corpus/") && !isMatrixNew(f) && !isVerboseDo(qualName(f))
	}
	mod.pre = func(f *Frame, s *State) bool {
		doc, pos := positions(f.Fn)
		for _, i := range pos {
			l := linOf(f.param(i))
			s.addLin(l, ival{hasLo: true})
			s.addLin(l.plus(linOf(s.lenOf(f.param(doc))), -1), ival{hasHi: true, hi: -1})
		}
		return len(pos) > 0
	}
	mod.client = func(r *Rep, fn *ssa.Function) *Client {
		c := &Client{}
		c.Call = func(x *Ctx, k *Call) (bool, *Term) {
			if isVerboseDo(k.Name) {
				return true, nil
			}
			if k.Fn == nil && strings.HasSuffix(k.Name, "corpus.Corpus.IndexedDoc") || k.Fn != nil && k.Fn.Name() == "IndexedDoc" {
				l := mkLeaf(x.F, x.I.(ssa.Value), "")
				return true, mkOp("document", types.NewSlice(types.Typ[types.Int]), l)
			}
			if k.Fn != nil && mod.has[k.Fn] && mod.status(k.Fn) == modPre {
				doc, pos := positions(k.Fn)
				for _, i := range pos {
					good := i < len(k.Args) && doc < len(k.Args) && inRange(x.S, k.Args[i], k.Args[doc])
					r.must(good, "document", fnName(x.F.Fn)+" calls "+fnName(k.Fn), "%s is called with a position that may not exist in its text (%s)", fnName(k.Fn), x.Pos())
				}
			}
			return false, nil
		}
		c.Instr = func(x *Ctx) {
			s := x.S
			switch in := x.I.(type) {
			case *ssa.IndexAddr:
				b := s.norm(x.Val(in.X))
				if !isSlice(in.X.Type()) {
					return
				}
				idx := s.norm(x.Val(in.Index))
				if u.isDoc(x, b) {
					r.must(inRange(s, idx, b), "document", fnName(x.F.Fn), "position %s of the text may not exist (%s)", idx, x.Pos())
					return
				}
				if id, ok := u.fieldOf(x, b); ok {
					n, isTable := tables[id]
					if !isTable {
						return
					}
					if n > 0 {
						s.addLin(linOf(s.lenOf(b)), ival{hasLo: true, lo: n})
					}
					r.must(inRange(s, idx, b), "table", fnName(x.F.Fn), "entry %s of %s may not exist (%s)", idx, id, x.Pos())
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					t := s.norm(x.Val(in.Call.Args[0]))
					if id, ok := u.fieldOf(x, t); ok && tables[id] > 0 {
						s.addLin(linOf(s.lenOf(t)), ival{hasLo: true, lo: tables[id]})
					}
				}
			}
		}
		return c
	}
	for _, m := range p.models(r) {
		mod.root(m.Train)
	}
}

// constTables finds the fields that hold a precomputed table: a slice of
// floats that is filled where it is made and is indexed by something computed
// from a float. The length is the least that is ever stored.
func (p *Prog) constTables(r *Rep) map[fieldID]int64 {
	out := map[fieldID]int64{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || !isFloatSliceType(ia.X.Type()) {
					continue
				}
				if id, ok := p.fieldOfValue(ia.X); ok && p.fromFloat(ia.Index) {
					out[id] = 0
				}
			}
		}
	}
	for id := range out {
		n := int64(-1)
		for _, f := range p.Funcs {
			stores := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldIDOf(fa) == id {
							stores = true
						}
					}
				}
			}
			if !stores {
				continue
			}
			c := &Client{Inline: func(k *Call) bool { return true }}
			c.Instr = func(x *Ctx) {
				st, ok := x.I.(*ssa.Store)
				if !ok {
					return
				}
				if a, ok := fieldOfAddr(x.S.norm(x.Val(st.Addr))); ok && a == id {
					iv := x.S.ivalOf(linOf(x.S.lenOf(x.S.norm(x.Val(st.Val)))))
					lo := int64(0)
					if iv.hasLo {
						lo = iv.lo
					}
					if n < 0 || lo < n {
						n = lo
					}
				}
			}
			e := newEngine(p, c)
			e.Run(e.rootFrame(f), newState())
			r.absorb(e, shortFn(f))
		}
		if n > 0 {
			out[id] = n
		}
	}
	return out
}

// fromFloat reports an integer that is computed from a float.
func (p *Prog) fromFloat(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, q := range p.sourcesThrough(v, func(f *ssa.Function) bool { return true }) {
			switch u := q.(type) {
			case *ssa.Convert:
				if isFloat(u.X.Type()) || walk(u.X) {
					return true
				}
			case *ssa.BinOp:
				if walk(u.X) || walk(u.Y) {
					return true
				}
			case *ssa.Call:
				for _, a := range u.Call.Args {
					if _, ok := u.Call.Value.(*ssa.Builtin); ok && walk(a) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(v)
}
