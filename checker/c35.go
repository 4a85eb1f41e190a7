package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:          "C35",
		Technique:   "symbolic value numbering over go/ssa with polynomial normal forms, memory by access path, one arbitrary round per loop",
		Explanation: "The measure stored for a counted pair is computed as a normal form of the counts for each relation type, and each change that a worker makes to parameter rows is compared, as a normal form of the values before, with the gradient step towards the measure of the two words that the rows belong to.",
		Run:         runC35,
	})
}

func runC35(r *Rep) {
	r.rule("measure", 4, "the measure of a pair is that of the chosen relation type")
	r.rule("each-pair", 1, "every counted pair has its measure; what is not stored counts as 0")
	r.rule("step", 2, "a step changes the word's and the context's row by the gradient of the squared error, taken before the step")
	r.rule("samples", 1, "as many random words as asked for follow each word of the window")
	r.rule("others", 1, "nothing but the rows of the pair changes")
	for _, m := range r.P.models(r) {
		if m.Name == "lexvec" {
			lexvecMeasures(r, m)
			lexvecSteps(r, m)
			return
		}
	}
	r.bad("entry-points", "lexvec", "LexVec is not found")
}

func isPairMap(t types.Type) bool {
	mt, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k, ok1 := mt.Key().Underlying().(*types.Basic)
	v, ok2 := mt.Elem().Underlying().(*types.Basic)
	return ok1 && ok2 && k.Kind() == types.Uint64 && v.Kind() == types.Float64
}

func lexvecMeasures(r *Rep, m *modelType) {
	p := r.P
	w := numWorld(r, m)
	seen := map[string]bool{}
	makers := 0
	asked := map[*ssa.Function]bool{}
	todo := append([]*ssa.Function{}, p.Funcs...)
	for i := 0; i < len(todo); i++ {
		f := todo[i]
		if f.Pkg != m.Pkg || f.Parent() != nil {
			continue
		}
		stores := asked[f]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok && isPairMap(u.Map.Type()) {
					stores = true
				}
			}
		}
		if !stores {
			continue
		}
		site := fnName(f)
		paths, ok := w.follow(f)
		if !ok {
			continue
		}
		// a helper's store is seen where the helper is called in a loop
		{
			top := false
			for _, q := range paths {
				for _, e := range q.events {
					top = top || e.kind == "map"
				}
			}
			if cs := w.callers(f); top && len(cs) > 0 {
				for _, c := range cs {
					if !asked[c] {
						asked[c] = true
						todo = append(todo, c)
					}
				}
				continue
			}
		}
		makers++
		done := map[*kloop]bool{}
		n := 0
		var visit func(ps []*kpath)
		visit = func(ps []*kpath) {
			for _, q := range ps {
				for _, e := range q.events {
					if e.kind == "map" {
						r.bad("each-pair", site, "a measure is stored outside a loop over the counted pairs (%s)", e.pos)
					}
					if e.kind != "loop" || done[e.loop] {
						continue
					}
					done[e.loop] = true
					has := false
					for _, q := range e.loop.paths {
						for _, f := range q.events {
							has = has || f.kind == "map"
						}
					}
					if !has {
						visit(e.loop.paths)
						continue
					}
					n++
					lexvecLoop(r, site, e.loop, seen)
				}
			}
		}
		visit(paths)
		r.must(n > 0, "each-pair", site, "no loop over the counted pairs stores measures")
	}
	r.must(makers > 0, "each-pair", "measures", "nothing stores measures")
	for _, t := range []string{"ppmi", "pmi", "co", "logco"} {
		r.must(seen[t], "measure", "relation "+t, "no measure is stored for the relation type %q", t)
	}
}

func lexvecLoop(r *Rep, site string, l *kloop, seen map[string]bool) {
	if l.over == nil {
		r.bad("each-pair", site, "measures are not stored in a loop over all counted pairs")
		return
	}
	r.must(countedPairs(l.over), "each-pair", site, "measures are stored for %v, which need not be all counted pairs", l.over)
	pair := l.rngKey
	co := mkx("map", l.over, pair)
	S := mkx("opt:Smooth")
	pmi := func(x, y string) *kx {
		v := kSub(kLog(co), kLog(mkx("freq", mkx(x, pair))))
		v = kSub(v, kMul(S, kLog(mkx("freq", mkx(y, pair)))))
		return kAdd(v, kMul(S, kLog(mkx("words"))))
	}
	pmis := []*kx{pmi("first", "second"), pmi("second", "first")}
	for _, q := range l.paths {
		if q.end != "next" {
			continue
		}
		rel := ""
		for _, g := range q.guards {
			if g.op == "same" {
				for i, a := range g.args {
					if a.op == "opt:RelationType" && strings.HasPrefix(g.args[1-i].op, "str:") {
						rel = strings.Trim(g.args[1-i].op[4:], `"`)
					}
				}
			}
		}
		// a counted pair has a count
		if kImplied(q.guards, mkRel("eq", co)) || kImplied(q.guards, mkRel("le", co)) {
			continue
		}
		var val *kx
		n := 0
		for _, e := range q.events {
			if e.kind == "map" {
				n++
				val = e.val
				r.must(e.key == pair, "each-pair", site, "a measure is stored for %v instead of the pair that it is of (%s)", e.key, e.pos)
			}
		}
		if n > 1 {
			r.bad("each-pair", site, "a counted pair gets %d measures on some path (relation type %q)", n, rel)
			continue
		}
		if n == 0 {
			// what is not stored is 0 for those who look it up
			val = kInt(0)
		}
		good := false
		is := func(x *kx) bool {
			return kEq(val, x) || val.isInt(0) && kImplied(q.guards, mkRel("eq", x))
		}
		switch rel {
		case "ppmi":
			for _, v := range pmis {
				switch {
				case val.isInt(0):
					good = good || kImplied(q.guards, mkRel("le", v))
				case kEq(val, v):
					good = good || kImplied(q.guards, mkRel("le", kNeg(v)))
				case val == mkMinMax("max", kInt(0), v):
					good = true
				}
			}
		case "pmi":
			good = is(pmis[0]) || is(pmis[1])
		case "co":
			good = is(co)
		case "logco":
			good = is(kLog(co))
		default:
			r.bad("measure", site, "a measure is stored for an unknown relation type: %v", val)
			continue
		}
		seen[rel] = true
		r.must(good, "measure", "relation "+rel, "the measure of a pair is %v for the relation type %q", val, rel)
	}
}

// lexvecWorld gives the cell of the learning rate a name.
func rateWorld(r *Rep, m *modelType) *kworld {
	w := numWorld(r, m)
	w.extra = func(k *kern, in ssa.CallInstruction, fn *ssa.Function, name string, args []*kx) (*kx, bool) {
		if strings.HasPrefix(name, "sync/atomic.") && strings.HasSuffix(name, ".Load") && len(args) == 1 {
			x := mkx("rate", args[0], mkx(k.p.posOf(in)))
			if len(k.rounds) > 0 {
				x = mkx("rate", append([]*kx{args[0], mkx(k.p.posOf(in))}, k.rounds...)...)
			}
			return x, true
		}
		return nil, false
	}
	return w
}

// rateOf finds the learning rate in an expression.
func rateOf(x *kx) *kx {
	var out *kx
	n := 0
	x.each(func(y *kx) {
		if y.op == "rate" {
			if out == nil || out.op != "call:math.Float64frombits" {
				out = y
			}
			n++
		}
		if y.op == "call:math.Float64frombits" {
			out = y
		}
	})
	return out
}

type lexStep struct {
	x, y *kx // the words
	pos  string
}

func lexvecSteps(r *Rep, m *modelType) {
	w := rateWorld(r, m)
	param := w.param()
	if param == nil {
		r.bad("entry-points", "parameters", "the parameter matrix is not known")
		return
	}
	done := 0
	for _, f := range w.goFuncs() {
		if !r.P.inRepo(f) {
			continue
		}
		paths, _, abort := w.run(f)
		site := fnName(f)
		if abort != "" {
			r.bad("analysis-completes", site, "the analysis of %s does not finish: %s", site, abort)
			continue
		}
		some := false
		for _, q := range allPaths(paths) {
			for _, e := range q.events {
				some = some || e.kind == "write" && isRow(rootBase(e.addr))
			}
		}
		if !some {
			continue
		}
		done++
		positives := 0
		seen := map[*kloop]bool{}
		// a path makes one step for a word of the window, followed by those for random words
		var visit func(q *kpath, in *kloop, outer *lexStep)
		visit = func(q *kpath, in *kloop, outer *lexStep) {
			ups, loops := updatesOf(q, isRow)
			steps := lexvecUpdates(r, site, w, param, ups)
			if outer != nil {
				if r.must(len(steps) == 1, "samples", site, "a round over the random words makes %d steps", len(steps)) && len(steps) == 1 {
					s := steps[0]
					r.must(s.x == outer.x, "samples", site, "a random word is trained with %v instead of %v (%s)", s.x, outer.x, s.pos)
					r.must(s.y.op == "random" && s.y.args[1] == mkx("V") && s.y.args[0].has(in.k), "samples", site, "%v is trained, which is no random word drawn for this step (%s)", s.y, s.pos)
				}
				r.must(len(loops) == 0, "samples", site, "there are further steps in the loop over the random words")
				return
			}
			var cur *lexStep
			if len(steps) > 0 {
				positives++
				r.must(len(steps) == 1, "step", "window", "%d words are trained at once", len(steps))
				cur = steps[0]
				good := cur.x.op == "ld" && cur.y.op == "ld" && cur.x.args[0].op == "ia" && cur.y.args[0].op == "ia" && cur.x.args[0].args[0] == cur.y.args[0].args[0]
				r.must(good, "step", "window", "%v and %v are trained, which are not words of one text (%s)", cur.x, cur.y, cur.pos)
				n := 0
				for _, l := range loops {
					n++
					r.must(!l.breaks && l.n != nil && kEq(l.n, mkx("opt:NegativeSampleSize")), "samples", site, "there are %v random words for each word of the window, or fewer", l.n)
				}
				r.must(n == 1, "samples", site, "%d loops over random words follow a word of the window", n)
			}
			for _, l := range loops {
				if seen[l] {
					continue
				}
				seen[l] = true
				for _, p := range l.paths {
					if p.end == "next" || p.end == "exit" {
						visit(p, l, cur)
					}
				}
			}
		}
		for _, q := range paths {
			visit(q, nil, nil)
		}
		r.must(positives > 0, "step", "window", "no step is made for a word of the window")
	}
	r.must(done > 0, "step", "workers", "no goroutine of Train changes parameters")
}

// lexvecUpdates checks the updates of a path and lists the steps that they make up.
func lexvecUpdates(r *Rep, site string, w *kworld, param *kx, ups []*kupd) (steps []*lexStep) {
	dim, V := mkx("opt:Dim"), mkx("V")
	κ, i := mkx("κ"), mkx("i")
	for len(ups) > 0 {
		var group, rest []*kupd
		for _, u := range ups {
			if u.k == ups[0].k {
				group = append(group, u)
			} else {
				rest = append(rest, u)
			}
		}
		ups = rest
		if len(group) != 2 || !group[0].over(kInt(0), dim) || !group[1].over(kInt(0), dim) {
			r.bad("step", site, "a step does not change all elements of two rows (%s)", group[0].pos)
			continue
		}
		var got *lexStep
		var want *kx
		for _, ab := range [][2]*kupd{{group[0], group[1]}, {group[1], group[0]}} {
			a, b := ab[0], ab[1]
			if a.base.args[0] != param || b.base.args[0] != param {
				r.bad("others", site, "another matrix changes (%s)", a.pos)
				continue
			}
			x, y := a.base.args[1], kSub(b.base.args[1], V)
			if x.n != nil || y.n != nil {
				continue
			}
			p, q := x, y
			if p.key > q.key {
				p, q = q, p
			}
			// the map of the measures
			var items *kx
			a.val.each(func(z *kx) {
				if z.op == "map" && z.args[1] == mkx("pair", p, q) {
					items = z
				}
			})
			rate := rateOf(a.val)
			if items == nil || rate == nil {
				continue
			}
			D := kMul(rate, kSub(kSum(dim, κ, kMul(a.at(a.old, κ), b.at(b.old, κ))), items))
			da, db := kSub(a.at(a.val, i), a.at(a.old, i)), kSub(b.at(b.val, i), b.at(b.old, i))
			want = kNeg(kMul(D, b.at(b.old, i)))
			if kEq(da, want) && kEq(db, kNeg(kMul(D, a.at(a.old, i)))) {
				got = &lexStep{x, y, a.pos}
			}
		}
		if got == nil {
			r.bad("step", site, "the rows %v and %v do not change by the gradient towards the measure of the pair (%s)", group[0].base.args[1], group[1].base.args[1], group[0].pos)
			continue
		}
		r.ok("step", "gradient")
		r.ok("others", site)
		steps = append(steps, got)
	}
	return
}
