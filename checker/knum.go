package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kworld knows what the fields of a model's structs are: hyperparameters, sizes and
// matrices that are assigned once, in terms of options and the size of the vocabulary.
type kworld struct {
	r     *Rep
	m     *modelType
	field map[string]*kx
	bad   map[string]bool
	extra func(k *kern, in ssa.CallInstruction, fn *ssa.Function, name string, args []*kx) (*kx, bool)
	more  func(x *kx) *kx
	hook  func(k *kern, s *kstate, in ssa.CallInstruction, fn *ssa.Function, name string, args []*kx) (*kx, bool)
}

func numWorld(r *Rep, m *modelType) *kworld {
	w := &kworld{r: r, m: m, field: map[string]*kx{}, bad: map[string]bool{}}
	for n := 0; n < 3; n++ {
		before := len(w.field)
		for _, f := range r.P.Funcs {
			if f.Pkg != m.Pkg || len(f.Blocks) == 0 || !w.setsFields(f) {
				continue
			}
			paths, _, abort := w.run(f)
			if abort != "" {
				w.giveUp(f)
				continue
			}
			walkEvents(paths, func(e kevent, _ []*kx, _ *kpath) {
				if e.kind != "set" && e.kind != "write" || !strings.HasPrefix(e.addr.op, "fa:") || strings.HasPrefix(e.addr.op, w.optPrefix()) {
					return
				}
				key := e.addr.op
				v := e.val
				if v.op == "nil" {
					return
				}
				if !static(v) {
					w.bad[key] = true
					return
				}
				if strings.HasPrefix(v.op, "matrix#") {
					v = mkx("matrix:"+key, v.args[0], v.args[1])
				}
				if old := w.field[key]; old != nil && old != v {
					w.bad[key] = true
				}
				w.field[key] = v
			})
		}
		for key := range w.bad {
			delete(w.field, key)
		}
		if len(w.field) == before && n > 0 {
			break
		}
	}
	return w
}

func (w *kworld) optPrefix() string { return "fa:" + typKey(w.m.Opts) + "." }

// giveUp drops the fields that a function assigns.
func (w *kworld) giveUp(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					w.bad["fa:"+fieldIDOf(fa).typ+"."+fieldIDOf(fa).field] = true
				}
			}
		}
	}
}

func (w *kworld) setsFields(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				if n := namedOf(fa.X.Type()); n != nil && n.Obj().Pkg() == w.m.Pkg.Pkg && n != w.m.Opts {
					t := st.Val.Type()
					if isNumericType(t) || isMatrix(t) {
						return true
					}
				}
			}
		}
	}
	return false
}

// static reports that a value is made of options, constants and sizes.
func static(x *kx) bool {
	ok := true
	var walk func(y *kx)
	walk = func(y *kx) {
		if y.n != nil {
			for _, p := range []poly{y.n.n, y.n.d} {
				for _, m := range p {
					for _, q := range m.f {
						walk(q.a)
					}
				}
			}
			return
		}
		switch {
		case strings.HasPrefix(y.op, "opt:"), y.op == "V":
		case strings.HasPrefix(y.op, "matrix"):
			for _, a := range y.args {
				walk(a)
			}
		default:
			ok = false
		}
	}
	walk(x)
	return ok
}

// norm gives loads of fields the meaning that they have.
func (w *kworld) norm(x *kx) *kx {
	key := ""
	switch {
	case x.op == "ld" && strings.HasPrefix(x.args[0].op, "fa:"):
		key = x.args[0].op
	case strings.HasPrefix(x.op, "f:"):
		key = "fa:" + x.op[2:]
	case x.op == "cols" && strings.HasPrefix(x.args[0].op, "matrix"):
		return x.args[0].args[1]
	case x.op == "rows" && strings.HasPrefix(x.args[0].op, "matrix"):
		return x.args[0].args[0]
	}
	if key != "" {
		if strings.HasPrefix(key, w.optPrefix()) {
			return mkx("opt:" + key[len(w.optPrefix()):])
		}
		if v := w.field[key]; v != nil && !w.bad[key] {
			return v
		}
	}
	if w.more != nil {
		return w.more(x)
	}
	return nil
}

// impls resolves interfaces that the models declare.
func (w *kworld) impls(c *ssa.CallCommon) []*ssa.Function {
	n := namedOf(c.Value.Type())
	if n == nil || n.Obj().Pkg() != w.m.Pkg.Pkg {
		return nil
	}
	it, _ := n.Underlying().(*types.Interface)
	if it == nil {
		return nil
	}
	var out []*ssa.Function
	for _, t := range w.r.P.implementers(it) {
		if f := w.r.P.methodOf(t, c.Method.Name()); f != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func (w *kworld) kern() *kern {
	k := newKern(w.r.P)
	models := kModels(w.r.P)
	k.call = func(k *kern, fr *kframe, s *kstate, in ssa.CallInstruction, fn *ssa.Function, name string, args []*kx) (*kx, bool) {
		if w.hook != nil {
			if x, ok := w.hook(k, s, in, fn, name, args); ok {
				return x, true
			}
		}
		if w.extra != nil {
			if x, ok := w.extra(k, in, fn, name, args); ok {
				return x, true
			}
		}
		if fn != nil && fn == w.r.P.fn("pkg/model/modelutil/matrix", "New") {
			x := k.freshAt(fr, in.(ssa.Value), "matrix")
			return mkx(x.op, args[0], args[1]), true
		}
		return models(k, fr, s, in, fn, name, args)
	}
	k.norm = w.norm
	k.impl = w.impls
	k.inline = func(f *ssa.Function) bool {
		return f.Pkg == w.m.Pkg || numericFunc(f) || f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath+"/pkg/model/modelutil")
	}
	return k
}

// run follows a function of the model with symbolic parameters.
func (w *kworld) run(fn *ssa.Function) ([]*kpath, *kern, string) {
	k := w.kern()
	var args, bind []*kx
	for _, q := range fn.Params {
		noteStruct(q.Type())
		args = append(args, mkx("param:"+q.Name()))
	}
	for _, q := range fn.FreeVars {
		bind = append(bind, mkx("free:"+q.Name()))
	}
	outs, abort := k.RunBound(fn, args, bind)
	for f := range k.fns {
		w.r.fns[f] = true
	}
	w.r.steps += k.steps
	w.r.runs++
	return outs, k, abort
}

// follow is run for a function that has to be understood.
func (w *kworld) follow(fn *ssa.Function) ([]*kpath, bool) {
	outs, _, abort := w.run(fn)
	if abort != "" {
		w.r.bad("analysis-completes", fnName(fn), "the analysis of %s does not finish: %s", fnName(fn), abort)
		return nil, false
	}
	w.r.ok("analysis-completes", fnName(fn))
	return outs, true
}

// callers lists the functions of the model's package that call fn.
func (w *kworld) callers(fn *ssa.Function) (out []*ssa.Function) {
	for _, f := range w.r.P.Funcs {
		if f.Pkg != w.m.Pkg || f == fn {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
					has = true
				}
			}
		}
		if has {
			out = append(out, f)
		}
	}
	return
}

// goFuncs lists the functions that Train starts as goroutines.
func (w *kworld) goFuncs() []*ssa.Function {
	seen, found := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != nil && f.Pkg != w.m.Pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range w.r.P.callees(c.Common()) {
					if _, ok := in.(*ssa.Go); ok && !found[g] {
						found[g] = true
						out = append(out, g)
					}
					if w.r.P.inRepo(g) {
						walk(g)
					}
				}
			}
		}
	}
	walk(w.m.Train)
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// kupd is a change of elements of a vector on one path: of one element, or of one
// element in each round of a loop.
type kupd struct {
	base     *kx // row(matrix, id) or another slice
	idx      *kx
	k, n     *kx // the loop, if any
	old, val *kx
	guards   []*kx
	pos      string
	partial  bool // not on every path of the round
}

// updatesOf lists the updates that a path makes itself, and the loops on it that
// do more than update elements.
func updatesOf(p *kpath, isVec func(base *kx) bool) (ups []*kupd, loops []*kloop) {
	direct := func(q *kpath, k, n *kx) (out []*kupd) {
		for _, e := range q.events {
			if e.kind != "write" || e.addr.op != "ia" || !isVec(e.addr.args[0]) {
				continue
			}
			again := false
			for _, u := range out {
				if u.base == e.addr.args[0] && u.idx == e.addr.args[1] {
					u.val = e.val
					again = true
				}
			}
			if !again {
				out = append(out, &kupd{base: e.addr.args[0], idx: e.addr.args[1], k: k, n: n, old: e.old, val: e.val, guards: q.guards, pos: e.pos})
			}
		}
		return
	}
	for i, e := range p.events {
		switch {
		case e.kind == "loop":
			l := e.loop
			nested, writes := false, false
			for _, q := range l.paths {
				for _, f := range q.events {
					if f.kind == "loop" {
						nested = nested || hasUpdates(f.loop, isVec)
					}
					writes = writes || f.kind == "write" && f.addr.op == "ia" && isVec(f.addr.args[0])
				}
			}
			if nested || l.breaks && writes {
				loops = append(loops, l)
				continue
			}
			for _, q := range l.paths {
				us := direct(q, l.k, l.n)
				for _, u := range us {
					u.partial = len(l.paths) > 1
				}
				ups = append(ups, us...)
			}
		case e.kind == "write" && e.addr.op == "ia" && isVec(e.addr.args[0]):
			one := *p
			one.events = p.events[i : i+1]
			for _, u := range direct(&one, nil, nil) {
				again := false
				for _, v := range ups {
					if v.k == nil && v.base == u.base && v.idx == u.idx {
						v.val = u.val
						again = true
					}
				}
				if !again {
					ups = append(ups, u)
				}
			}
		}
	}
	return
}

func hasUpdates(l *kloop, isVec func(base *kx) bool) bool {
	for _, q := range l.paths {
		for _, e := range q.events {
			if e.kind == "write" && e.addr.op == "ia" && isVec(e.addr.args[0]) || e.kind == "loop" && hasUpdates(e.loop, isVec) {
				return true
			}
		}
	}
	return false
}

func isRow(b *kx) bool { return b.op == "row" }

// over says whether an update is of all elements lo..hi-1, one in each round.
func (u *kupd) over(lo, hi *kx) bool {
	if u.k == nil || u.n == nil || u.partial || !kHasCoef(u.idx, u.k, 1) {
		return false
	}
	from := kReplace(u.idx, u.k, kInt(0))
	return kEq(from, lo) && kEq(kAdd(from, u.n), hi)
}

// at gives an expression of the update for element i.
func (u *kupd) at(x, i *kx) *kx {
	if u.k == nil {
		return x
	}
	return kReplace(x, u.k, kSub(i, kReplace(u.idx, u.k, kInt(0))))
}
