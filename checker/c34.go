package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:          "C34",
		Technique:   "symbolic value numbering over go/ssa with polynomial normal forms, memory by access path, one arbitrary round per loop",
		Explanation: "The items that GloVe trains on are computed as normal forms of the counted pair and its count, and every change that one arbitrary item makes to a parameter matrix is compared, as a normal form of the values before, with the step of the weighted least-squares objective (plain, or scaled by the accumulated squares of AdaGrad).",
		Run:         runC34,
	})
}

func runC34(r *Rep) {
	r.rule("item", 4, "an item holds the ids of a counted pair, the logarithm of its count and its weight")
	r.rule("each-pair", 1, "there is one item for each counted pair")
	r.rule("each-item", 1, "a worker trains every item of its part, once in each direction")
	r.rule("step", 2, "a step changes the two rows by the gradient of the squared error, taken before the step")
	r.rule("others", 1, "nothing but the rows of the pair changes")
	p := r.P
	for _, m := range p.models(r) {
		if m.Name != "glove" {
			continue
		}
		gloveItems(r, m)
		return
	}
	r.bad("entry-points", "glove", "GloVe is not found")
}

// gloveRoles says which field of an item holds what.
type gloveRoles struct {
	typ               string
	l1, l2, f, weight string
}

func gloveItems(r *Rep, m *modelType) {
	p := r.P
	w := numWorld(r, m)
	// items: structs of a slice that a worker is given
	var item *types.Named
	workers := w.goFuncs()
	seen := map[*ssa.Function]bool{}
	var look func(f *ssa.Function)
	look = func(f *ssa.Function) {
		if seen[f] || f.Pkg != m.Pkg {
			return
		}
		seen[f] = true
		for _, q := range f.Params {
			if s, ok := q.Type().Underlying().(*types.Slice); ok {
				if n := namedOf(s.Elem()); n != nil && n.Obj().Pkg() == m.Pkg.Pkg {
					item = n
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c.Common()) {
						look(g)
					}
				}
			}
		}
	}
	for _, f := range workers {
		look(f)
	}
	if item == nil {
		r.bad("entry-points", "item", "no worker is given items")
		return
	}
	noteStruct(item)
	st, _ := item.Underlying().(*types.Struct)
	if st == nil {
		r.bad("entry-points", "item", "items are no structs")
		return
	}
	key := typKey(item)
	var names []string
	for i := 0; i < st.NumFields(); i++ {
		names = append(names, st.Field(i).Name())
	}
	roles := &gloveRoles{typ: key}
	makers := 0
	made := map[*ssa.Function]bool{}
	var climb func(f *ssa.Function, d int)
	climb = func(f *ssa.Function, d int) {
		var up []*ssa.Function
		// a helper makes one item, or fills what it is given
		if d < 4 && (!rangesMap(f) || givenItems(f, item)) {
			up = p.callersOf(f)
		}
		for _, g := range up {
			if g.Pkg != m.Pkg || g.Parent() != nil {
				up = nil
				break
			}
		}
		if len(up) == 0 {
			made[f] = true
		}
		for _, g := range up {
			climb(g, d+1)
		}
	}
	for _, f := range p.Funcs {
		if f.Pkg == m.Pkg && f.Parent() == nil && storesField(f, key, names...) {
			climb(f, 0)
		}
	}
	for _, f := range p.Funcs {
		if !made[f] {
			continue
		}
		paths, ok := w.follow(f)
		if !ok {
			continue
		}
		makers++
		gloveMake(r, fnName(f), roles, names, paths)
	}
	r.must(makers > 0, "each-pair", "items", "nothing makes items")
	if roles.l1 == "" || roles.l2 == "" || roles.f == "" || roles.weight == "" {
		return
	}
	done := 0
	for _, f := range workers {
		if !p.inRepo(f) {
			continue
		}
		paths, _, abort := w.run(f)
		if abort != "" {
			// an observer, say
			if givenItems(f, item) {
				r.bad("analysis-completes", fnName(f), "the analysis of %s does not finish: %s", fnName(f), abort)
			}
			continue
		}
		some := false
		for _, q := range allPaths(paths) {
			for _, e := range q.events {
				some = some || e.kind == "write" && isRow(rootBase(e.addr))
			}
		}
		if !some {
			r.must(!givenItems(f, item), "each-item", fnName(f), "the worker changes no parameters")
			continue
		}
		done++
		gloveWorker(r, fnName(f), w, roles, paths)
	}
	r.must(done > 0, "each-item", "workers", "no goroutine of Train changes parameters")
}

// rangesMap reports that a function goes over a map.
func rangesMap(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if rg, ok := in.(*ssa.Range); ok && isMapType(rg.X.Type()) {
				return true
			}
		}
	}
	return false
}

// givenItems reports that a function has a parameter with items.
func givenItems(f *ssa.Function, item *types.Named) bool {
	for _, q := range f.Params {
		if s, ok := q.Type().Underlying().(*types.Slice); ok && namedOf(s.Elem()) == item {
			return true
		}
	}
	return false
}

func gloveMake(r *Rep, site string, roles *gloveRoles, names []string, paths []*kpath) {
	pre := "fa:" + roles.typ + "."
	loops := map[*kloop]bool{}
	var walk func(ps []*kpath)
	walk = func(ps []*kpath) {
		for _, q := range ps {
			for _, e := range q.events {
				if e.kind == "loop" && !loops[e.loop] {
					loops[e.loop] = true
					walk(e.loop.paths)
				}
			}
		}
	}
	walk(paths)
	found := false
	for l := range loops {
		has := false
		for _, q := range l.paths {
			for _, e := range q.events {
				has = has || (e.kind == "write" || e.kind == "set") && strings.HasPrefix(e.addr.op, pre)
			}
		}
		if !has {
			continue
		}
		found = true
		r.must(l.over != nil && !l.breaks, "each-pair", site, "items are not made in a loop over all counted pairs")
		if l.over == nil {
			continue
		}
		r.must(countedPairs(l.over), "each-pair", site, "items are made of %v, which need not be all counted pairs", l.over)
		pair := l.rngKey
		count := mkx("map", l.over, pair)
		for _, q := range l.paths {
			if q.end != "next" {
				continue
			}
			// the item that goes into the result
			vals := map[string]*kx{}
			var at *kx
			n := 0
			for _, e := range q.events {
				switch {
				case e.kind == "write" && strings.HasPrefix(e.addr.op, pre) && e.addr.args[0].op == "ia" && !strings.HasPrefix(e.addr.args[0].args[0].op, "alloc#"):
					if at != e.addr.args[0] {
						at = e.addr.args[0]
						n++
					}
					vals[e.addr.op[len(pre):]] = e.val
				case e.kind == "append" && len(e.args) == 2:
					n++
					from := l.init[e.args[0]]
					r.must(from != nil && (from.op == "nil" || strings.HasPrefix(from.op, "make#") && from.args[0].isInt(0)), "each-pair", site, "items are added to %v, which is not empty at first", from)
					for _, f := range names {
						if v := appended(q, e, pre+f); v != nil {
							vals[f] = v
						}
					}
				}
			}
			r.must(n == 1, "each-pair", site, "a round over the counted pairs makes %d items", n)
			if n != 1 {
				continue
			}
			if at != nil {
				base := at.args[0]
				full := strings.HasPrefix(base.op, "make#") && kEq(base.args[0], mkx("len", l.over))
				r.must(full && at.args[1] == l.k, "each-pair", site, "item %v of %v is assigned in round %v: not one item for each pair", at.args[1], base, l.k)
			}
			for _, f := range names {
				v := vals[f]
				if v == nil {
					r.bad("item", site, "field %s of an item is not set", f)
					continue
				}
				role := ""
				switch {
				case v == mkx("first", pair):
					role = "l1"
				case v == mkx("second", pair):
					role = "l2"
				case v == kLog(count):
					role = "f"
				case isGloveWeight(v, count, q.guards):
					role = "weight"
				}
				slot := map[string]*string{"l1": &roles.l1, "l2": &roles.l2, "f": &roles.f, "weight": &roles.weight}[role]
				switch {
				case slot == nil:
					r.bad("item", site, "field %s of an item is %v, which is neither an id of the pair, nor the logarithm of its count, nor its weight", f, v)
				case *slot != "" && *slot != f:
					r.bad("item", site, "fields %s and %s of an item both hold the %s", *slot, f, role)
				default:
					*slot = f
					r.ok("item", site+" "+role)
				}
			}
		}
	}
	if !found {
		r.bad("each-pair", site, "items are not made in a loop over the counted pairs")
	}
	for role, s := range map[string]string{"first id": roles.l1, "second id": roles.l2, "logarithm of the count": roles.f, "weight": roles.weight} {
		r.must(s != "", "item", site+" "+role, "no field of an item holds the %s", role)
	}
}

// countedPairs reports that a map is the one of the counted pairs, or given by the caller.
func countedPairs(m *kx) bool {
	if m.op == "ld" {
		m = m.args[0]
	}
	return strings.HasPrefix(m.op, "param:") || strings.HasPrefix(m.op, "free:") ||
		strings.HasPrefix(m.op, "res:") && strings.Contains(m.op, "Cooccurrence") || strings.HasPrefix(m.op, "fa:") && strings.Contains(m.op, "Cooccurrence")
}

// appended gives the field of the struct that append adds.
func appended(q *kpath, e kevent, field string) *kx {
	base := e.args[1]
	if base.op == "slice" {
		base = base.args[0]
	}
	a := mkx(field, mkx("ia", base, kInt(0)))
	return q.st.mem[a]
}

// isGloveWeight decides whether v is (count/Xmax)^Alpha below Xmax and 1 above.
func isGloveWeight(v, count *kx, guards []*kx) bool {
	xmax, alpha := mkx("opt:Xmax"), mkx("opt:Alpha")
	share := kDiv(count, xmax)
	curve := kPow(share, alpha)
	switch {
	case v.isInt(1):
		return kImplied(guards, mkRel("le", kSub(xmax, count)))
	case kEq(v, curve):
		return kImplied(guards, mkRel("le", kSub(count, xmax)))
	case v == mkMinMax("min", kInt(1), curve), v == kPow(mkMinMax("min", kInt(1), share), alpha):
		return true
	}
	return false
}

func gloveWorker(r *Rep, site string, w *kworld, roles *gloveRoles, paths []*kpath) {
	pre := "fa:" + roles.typ + "."
	found := false
	var visit func(ps []*kpath)
	visit = func(ps []*kpath) {
		for _, q := range ps {
			for _, e := range q.events {
				if e.kind == "write" && isRow(rootBase(e.addr)) {
					r.bad("others", site, "a row is changed outside the loop over the items (%s)", e.pos)
				}
				if e.kind != "loop" || !hasUpdates(e.loop, isRow) {
					continue
				}
				l := e.loop
				found = true
				r.must(!l.breaks, "each-item", site, "the loop over the items ends early on some path")
				for _, q := range l.paths {
					if q.end == "next" {
						gloveRound(r, site, w, roles, pre, l, q)
					}
				}
			}
		}
	}
	visit(paths)
	r.must(found, "each-item", site, "no loop trains the items")
}

func gloveRound(r *Rep, site string, w *kworld, roles *gloveRoles, pre string, l *kloop, q *kpath) int {
	// the item of this round
	var it *kx
	for _, e := range q.events {
		for _, x := range append(append([]*kx{}, e.args...), e.addr, e.val) {
			if x == nil {
				continue
			}
			x.each(func(y *kx) {
				if y.op == pre+roles.l1 && it == nil {
					it = y.args[0]
				}
			})
		}
		if e.kind == "loop" {
			for _, p := range e.loop.paths {
				for _, f := range p.events {
					if f.addr != nil {
						f.addr.each(func(y *kx) {
							if y.op == pre+roles.l1 && it == nil {
								it = y.args[0]
							}
						})
					}
				}
			}
		}
	}
	if it == nil || it.op != "ia" {
		r.bad("each-item", site, "a round trains no item")
		return 0
	}
	items := it.args[0]
	r.must(it.args[1] == l.k && l.n != nil && kEq(l.n, mkx("len", items)), "each-item", site, "the items trained are not those of the whole part: %v of %v rounds", it.args[1], l.n)
	field := func(f string) *kx { return mkx("ld", mkx(pre+f, it)) }
	V := mkx("V")
	l1, l2 := field(roles.l1), field(roles.l2)
	ups, loops := updatesOf(q, isRow)
	for range loops {
		r.bad("others", site, "rows are changed in a loop that is not one over their elements")
	}
	dim := mkx("opt:Dim")
	used := map[*kupd]bool{}
	// the solver: which matrices change
	mats := map[*kx]bool{}
	for _, u := range ups {
		mats[u.base.args[0]] = true
	}
	param := w.param()
	if param == nil {
		r.bad("entry-points", "parameters", "the parameter matrix is not known")
		return 0
	}
	var grad *kx
	for m := range mats {
		if m != param {
			if grad != nil {
				r.bad("others", site, "rows of several matrices change: %v and %v", m, grad)
			}
			grad = m
		}
	}
	solver := "plain"
	if grad != nil {
		solver = "adaptive"
		r.must(kEq(grad.args[len(grad.args)-1], kAdd(dim, kInt(1))), "step", solver, "the accumulated squares have %v columns", grad.args[1])
	}
	// the one update of a region of a row
	region := func(mat, id, lo, hi *kx, what string) *kupd {
		var got *kupd
		for _, u := range ups {
			if u.base != mkx("row", mat, id) {
				continue
			}
			one := u.k == nil && kEq(u.idx, lo) && kEq(kAdd(lo, kInt(1)), hi)
			if !one && !u.over(lo, hi) {
				continue
			}
			if got != nil {
				r.bad("step", solver, "%s of row %v is changed twice in a step (%s)", what, id, u.pos)
				return nil
			}
			got = u
			used[u] = true
		}
		if got == nil {
			r.bad("step", solver, "%s of row %v does not change in a step of each item", what, id)
		}
		return got
	}
	n := 0
	for _, pr := range [][2]*kx{{l1, kAdd(l2, V)}, {kAdd(l1, V), l2}} {
		a, b := pr[0], pr[1]
		ua, ub := region(param, a, kInt(0), dim, "the vector"), region(param, b, kInt(0), dim, "the vector")
		ba, bb := region(param, a, dim, kAdd(dim, kInt(1)), "the bias"), region(param, b, dim, kAdd(dim, kInt(1)), "the bias")
		if ua == nil || ub == nil || ba == nil || bb == nil {
			continue
		}
		κ, i := mkx("κ"), mkx("i")
		D := kSum(dim, κ, kMul(ua.at(ua.old, κ), ub.at(ub.old, κ)))
		D = kAdd(D, kAdd(ba.old, bb.old))
		D = kSub(D, field(roles.f))
		D = kMul(D, kMul(field(roles.weight), mkx("opt:Initlr")))
		good := true
		check := func(u *kupd, g *kupd, t *kx, what string) {
			d := kSub(u.at(u.val, i), u.at(u.old, i))
			if grad == nil {
				if !kEq(d, kNeg(t)) {
					good = false
					r.bad("step", solver, "%s changes by %v instead of %v (%s)", what, d, kNeg(t), u.pos)
				}
				return
			}
			if g == nil {
				good = false
				return
			}
			old, now := g.at(g.old, i), g.at(g.val, i)
			if !kEq(kSub(now, old), kMul(t, t)) {
				good = false
				r.bad("step", solver, "the accumulated squares of %s change by %v instead of %v (%s)", what, kSub(now, old), kMul(t, t), g.pos)
			}
			if !kEq(d, kNeg(kDiv(t, kSqrt(old)))) && !kEq(d, kNeg(kDiv(t, kSqrt(now)))) {
				good = false
				r.bad("step", solver, "%s changes by %v instead of %v over the root of the accumulated squares (%s)", what, d, kNeg(t), u.pos)
			}
		}
		var ga, gb, gba, gbb *kupd
		if grad != nil {
			ga, gb = region(grad, a, kInt(0), dim, "the accumulated squares"), region(grad, b, kInt(0), dim, "the accumulated squares")
			gba, gbb = region(grad, a, dim, kAdd(dim, kInt(1)), "the accumulated square of the bias"), region(grad, b, dim, kAdd(dim, kInt(1)), "the accumulated square of the bias")
		}
		check(ua, ga, kMul(D, ub.at(ub.old, i)), "a word's vector")
		check(ub, gb, kMul(D, ua.at(ua.old, i)), "a context's vector")
		check(ba, gba, D, "a word's bias")
		check(bb, gbb, D, "a context's bias")
		if good {
			n++
			r.ok("step", solver)
		}
	}
	for _, u := range ups {
		r.must(used[u], "others", site, "element %v of %v changes, which is no part of a step (%s)", u.idx, u.base, u.pos)
	}
	return n
}

// param is the matrix that vectors are saved from.
func (w *kworld) param() *kx {
	seen := map[*kx]bool{}
	var out *kx
	for key, v := range w.field {
		if !strings.HasPrefix(v.op, "matrix:") {
			continue
		}
		if strings.HasPrefix(key, "fa:"+typKey(namedOf(w.m.Typ))+".") && !seen[v] {
			seen[v] = true
			out = v
		}
	}
	if len(seen) != 1 {
		return nil
	}
	return out
}
