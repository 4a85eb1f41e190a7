package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C33",
		Technique: "symbolic value numbering over go/ssa with polynomial normal forms; sums of loops recognised as closed forms",
		Explanation: "Every value that becomes the similarity of a result is computed as a normal form on every path of Searcher.Search: it must be the sum of the products of the elements of the query's and the item's vector, over all of them, divided by both norms, or zero where a norm is known to be zero. " +
			"Wherever an embedding is made its norm must be the root of the sum of the squares of all elements of the very vector it is made with, as they are then.",
		Run: runC33,
	})
}

const embType = modPath + "/pkg/embedding.Embedding"

// embPart gives the vector's (or norm's) counterpart of a field of an embedding.
func embPart(x *kx, from, to string) *kx {
	if x.op == "f:"+embType+"."+from {
		return mkx("f:"+embType+"."+to, x.args[0])
	}
	if x.op == "ld" && x.args[0].op == "fa:"+embType+"."+from {
		args := append([]*kx{mkx("fa:"+embType+"."+to, x.args[0].args[0])}, x.args[1:]...)
		return mkx("ld", args...)
	}
	return nil
}

// walkEvents calls f for each event with the conditions of its path.
func walkEvents(paths []*kpath, f func(e kevent, guards []*kx, p *kpath)) {
	seen := map[*kloop]bool{}
	var walk func(ps []*kpath, pre []*kx)
	walk = func(ps []*kpath, pre []*kx) {
		for _, p := range ps {
			gs := append(append([]*kx{}, pre...), p.guards...)
			for _, e := range p.events {
				if e.kind == "loop" {
					if seen[e.loop] {
						continue
					}
					seen[e.loop] = true
					walk(e.loop.paths, gs)
					continue
				}
				f(e, gs, p)
			}
		}
	}
	walk(paths, nil)
}

// allPaths lists the paths of a function and of its loops.
func allPaths(paths []*kpath) (out []*kpath) {
	seen := map[*kloop]bool{}
	var walk func(ps []*kpath)
	walk = func(ps []*kpath) {
		for _, p := range ps {
			out = append(out, p)
			for _, e := range p.events {
				if e.kind == "loop" && !seen[e.loop] {
					seen[e.loop] = true
					walk(e.loop.paths)
				}
			}
		}
	}
	walk(paths)
	return
}

// kernelOf analyses a function with symbolic parameters.
func kernelOf(r *Rep, fn *ssa.Function, set func(k *kern)) ([]*kpath, *kern) {
	k := newKern(r.P)
	k.call = kModels(r.P)
	k.inline = func(f *ssa.Function) bool {
		// a helper that only fills a map is followed: it changes nothing else
		return numericFunc(f) || r.P.readsOnly(f, map[*ssa.Function]bool{}, true) && !r.P.readsOnly(f, map[*ssa.Function]bool{}, false)
	}
	if set != nil {
		set(k)
	}
	var args []*kx
	for _, q := range fn.Params {
		noteStruct(q.Type())
		args = append(args, mkx("param:"+q.Name()))
	}
	for range fn.FreeVars {
		return nil, nil
	}
	outs, abort := k.Run(fn, args, nil)
	for f := range k.fns {
		r.fns[f] = true
	}
	r.steps += k.steps
	r.runs++
	if abort != "" {
		r.bad("analysis-completes", fnName(fn), "the analysis of %s does not finish: %s", fnName(fn), abort)
		return nil, nil
	}
	r.ok("analysis-completes", fnName(fn))
	return outs, k
}

// numericFunc reports that a function computes numbers, vectors or structs with
// numbers, or works on vectors that it is given.
func numericFunc(f *ssa.Function) bool {
	var has func(t types.Type, d int) bool
	has = func(t types.Type, d int) bool {
		if d > 3 {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Info()&types.IsFloat != 0
		case *types.Slice:
			return has(u.Elem(), d+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if has(u.Field(i).Type(), d+1) {
					return true
				}
			}
		}
		return false
	}
	for _, q := range f.Params {
		if has(q.Type(), 0) {
			return true
		}
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if has(res.At(i).Type(), 0) {
			return true
		}
	}
	return false
}

// storesField reports that a function stores to a field.
func storesField(f *ssa.Function, typ string, names ...string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				id := fieldIDOf(fa)
				for _, n := range names {
					if id.typ == typ && strings.HasSuffix(id.String(), "."+n) {
						return true
					}
				}
			}
		}
	}
	return false
}

func runC33(r *Rep) {
	r.rule("similarity", 1, "the similarity of a result is the cosine of the query's and the item's vector")
	r.rule("norm", 3, "the norm of an embedding is that of its vector")
	p := r.P
	search := p.method("pkg/search", "Searcher", "Search")
	if search == nil {
		r.bad("entry-points", "search", "Searcher.Search is not found")
		return
	}
	nType := modPath + "/pkg/search.Neighbor"
	isQuery := func(x *kx) bool {
		q := false
		x.each(func(y *kx) { q = q || strings.HasPrefix(y.op, "param:") && y.op != "param:"+search.Params[0].Name() })
		return q
	}
	normOf := func(v *kx, n *kx) bool {
		// the stored norm, or the norm computed on the spot
		if e := embPart(v, "Vector", "Norm"); e == n {
			return true
		}
		b := mkx("κ")
		return kEq(n, kSqrt(kSum(n, b, kMul(mkx("ld", mkx("ia", v, b)), mkx("ld", mkx("ia", v, b))))))
	}
	if paths, k := kernelOf(r, search, nil); k != nil {
		n := 0
		walkEvents(paths, func(e kevent, gs []*kx, _ *kpath) {
			if e.kind != "set" && e.kind != "write" || e.addr.op != "fa:"+nType+".Similarity" {
				return
			}
			v := e.val
			// moved from one result to another
			moved := false
			if v.n == nil && (v.op == "ld" || v.op == "cell" || v.op == "last") {
				v.each(func(y *kx) { moved = moved || y.op == "fa:"+nType+".Similarity" })
			}
			if moved {
				return
			}
			n++
			if v.isInt(0) {
				zero := false
				for _, g := range gs {
					if g.op != "eq" {
						continue
					}
					// a norm, or a product of norms
					if m := g.args[0].num().n.single(); m != nil {
						norms := len(m.f) > 0
						for _, q := range m.f {
							norms = norms && embPart(q.a, "Norm", "Vector") != nil
						}
						zero = zero || norms
					}
				}
				r.must(zero, "similarity", fnName(search), "the similarity is zero although no norm is known to be zero (%s)", e.pos)
				return
			}
			r.must(isCosine(v, isQuery, normOf), "similarity", fnName(search), "the similarity is %s, which is not the cosine of the vectors (%s)", v, e.pos)
		})
		r.must(n > 0, "similarity", fnName(search), "no similarity is computed in Search")
	}
	for _, f := range p.Funcs {
		if !p.inRepo(f) || f.Parent() != nil || !storesField(f, embType, "Vector", "Norm") {
			continue
		}
		paths, k := kernelOf(r, f, nil)
		if k == nil {
			continue
		}
		for _, q := range allPaths(paths) {
			for _, e := range q.events {
				a := e.addr
				if e.kind != "set" && e.kind != "write" || a.op != "fa:"+embType+".Vector" {
					continue
				}
				vec := q.st.mem[a]
				if vec == nil {
					continue
				}
				if vec.op == "nil" || copiedOnly(k.allocs[a.args[0].op]) {
					continue
				}
				// a copy of another embedding
				norm := q.st.mem[mkx("fa:"+embType+".Norm", a.args[0])]
				if norm != nil && embPart(vec, "Vector", "Norm") == norm {
					continue
				}
				b := mkx("κ")
				t := q.st.clone()
				t.guards = append(t.guards, mkRel("ile", kNeg(b)), mkRel("ile", kAdd(kSub(b, k.length(vec)), kInt(1))))
				el := k.load(t, k.elem(vec, b), types.Typ[types.Float64])

				want := kSqrt(kSum(k.length(vec), b, kMul(el, el)))
				r.must(norm != nil && kEq(norm, want), "norm", fnName(f), "an embedding is made in %s whose norm is %v instead of %v", fnName(f), norm, want)
			}
		}
	}
}

// copiedOnly reports that a variable is only filled and then copied to others.
func copiedOnly(a *ssa.Alloc) bool {
	if a == nil {
		return false
	}
	n := 0
	for _, in := range *a.Referrers() {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			for _, u := range *in.Referrers() {
				if st, ok := u.(*ssa.Store); !ok || st.Addr != in {
					return false
				}
			}
		case *ssa.UnOp:
			for _, u := range *in.Referrers() {
				st, ok := u.(*ssa.Store)
				if !ok {
					return false
				}
				if _, ok := st.Addr.(*ssa.Alloc); !ok {
					return false
				}
				n++
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return n > 0
}

// isCosine decides whether v is the sum of products of two vectors over both norms.
func isCosine(v *kx, isQuery func(*kx) bool, normOf func(v, n *kx) bool) bool {
	f := v.num()
	m := f.n.single()
	if m == nil || !f.isPoly() || m.c.Cmp(big.NewRat(1, 1)) != 0 {
		return false
	}
	var vecs []*kx
	var norms []*kx
	for _, q := range m.f {
		switch {
		case q.a.op == "sum" && q.e == 2 && vecs == nil:
			in := q.a.args[1].num().n.single()
			if in == nil || len(in.f) != 2 || in.c.Cmp(big.NewRat(1, 1)) != 0 {
				return false
			}
			for _, g := range in.f {
				if g.e != 2 || g.a.op != "ld" || g.a.args[0].op != "ia" || !strings.HasPrefix(g.a.args[0].args[1].op, "κ") {
					return false
				}
				vecs = append(vecs, g.a.args[0].args[0])
			}
			if n := q.a.args[0]; n.op != "len" || n.args[0] != vecs[0] && n.args[0] != vecs[1] {
				return false
			}
		case q.e == -2:
			norms = append(norms, q.a)
		case q.e == -1:
			norms = append(norms, kSqrt(q.a))
		default:
			return false
		}
	}
	if len(vecs) != 2 || len(norms) != 2 || isQuery(vecs[0]) == isQuery(vecs[1]) {
		return false
	}
	return normOf(vecs[0], norms[0]) && normOf(vecs[1], norms[1]) || normOf(vecs[0], norms[1]) && normOf(vecs[1], norms[0])
}
