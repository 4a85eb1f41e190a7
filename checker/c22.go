package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C22",
		Technique: "abstract interpretation over go/ssa of one arbitrary iteration per loop; the indices a loop handles are derived as exact linear constraints; quotient sums are matched to lemmas",
		Explanation: "The function that computes the bounds must write 0 first, the number of items last, and between them, for exactly the indices 1 to workers-1, values that grow and stay within the number of items: the previous bound plus a quotient, a proportional share, or a clamped multiple. " +
			"Every function that trains in memory must start one worker for each i from 0 to workers-1 exactly, giving it the items from bound i to bound i+1 of the data whose length was divided, in every iteration. Every worker must have one loop that handles each index of its part exactly once.",
		Run: runC22,
	})
}

func runC22(r *Rep) {
	r.rule("bounds", 1, "the bounds of the parts grow from 0 to the number of items")
	r.rule("adjacent", 2, "worker i gets the items from bound i to bound i+1, for each i")
	r.rule("every-item", 2, "a worker handles every item of its part once")
	p := r.P
	ipt := p.fn("pkg/model/modelutil", "IndexPerThread")
	if ipt == nil {
		r.bad("bounds", "pkg/model/modelutil", "IndexPerThread is not found")
		return
	}
	partBounds(r, ipt)
	workers := map[*ssa.Function]int{}
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == ipt {
					handOut(r, fn, ipt, workers)
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		if i, ok := workers[fn]; ok {
			everyItem(r, fn, i)
		}
	}
}

// stripTrunc removes conversions that do not change a quotient of integers.
func stripTrunc(t *Term) *Term {
	for t.Kind == 'o' {
		switch {
		case strings.HasPrefix(t.Op, "conv:"), t.Op == "call:math.Trunc", t.Op == "call:math.Floor":
			// numbers of items are far below 2^53
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

func partBounds(r *Rep, fn *ssa.Function) {
	p := r.P
	site := fnName(fn)
	if len(fn.Params) != 2 {
		r.bad("bounds", site, "the numbers of workers and items are not its two arguments")
		return
	}
	vs := newVisits("bound")
	bad := ""
	note := func(s string) {
		if bad == "" {
			bad = s
		}
	}
	prev := map[*Term]*Term{} // loaded element -> its index
	direct := map[string]bool{}
	recur := map[string]bool{}
	var slice *Term
	c := &Client{
		Inline: func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) },
		Pin: func(v ssa.Value) bool {
			q, ok := v.(*ssa.Parameter)
			return ok && q.Parent() == fn
		},
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
		Next: vs.next,
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if k.Name == "builtin.min" && len(k.Args) == 2 {
			return true, mkOp("min", types.Typ[types.Int], k.Args...)
		}
		return false, nil
	}
	T, N := func(e *Engine) *Term { return mkLeaf(e.Root, fn.Params[0], "") }, func(e *Engine) *Term { return mkLeaf(e.Root, fn.Params[1], "") }
	c.Instr = func(x *Ctx) {
		s := x.S
		t, n := T(x.E), N(x.E)
		switch in := x.I.(type) {
		case *ssa.UnOp:
			if ia, ok := in.X.(*ssa.IndexAddr); ok && in.Op == token.MUL && isIntSlice(ia.X.Type()) {
				prev[mkLeaf(x.F, in, "")] = s.norm(x.Val(ia.Index))
			}
		case *ssa.Store:
			ia, ok := in.Addr.(*ssa.IndexAddr)
			if !ok || !isIntSlice(ia.X.Type()) {
				return
			}
			base := s.norm(x.Val(ia.X))
			if slice == nil {
				slice = base
			}
			if base != slice {
				note("more than one slice is filled (" + x.Pos() + ")")
				return
			}
			j, v := s.norm(x.Val(ia.Index)), s.norm(x.Val(in.Val))
			f, _ := innermost(x.F, x.I.Block())
			if f == nil {
				switch {
				case s.equal(j, mkInt(0)):
					if !s.equal(v, mkInt(0)) {
						note("bound 0 is " + v.String() + " (" + x.Pos() + ")")
					}
				case s.equal(j, t):
					if v != n {
						note("the last bound is " + v.String() + " (" + x.Pos() + ")")
					}
					s.auto["last"] = "y"
				default:
					note("bound " + j.String() + " is set outside of a loop (" + x.Pos() + ")")
				}
				return
			}
			if !inPlaceSum(in) {
				s.auto["used "+strings.TrimPrefix(vs.record(x, j), "visit ")] = "y"
			}
			key := ""
			for _, k := range vs.order {
				if s.auto["seen "+k] != "" && vs.m[k].f == x.F {
					key = k
				}
			}
			if key == "" {
				note("a bound is changed before it is set (" + x.Pos() + ")")
				return
			}
			// a share of the items
			share := func(v *Term) bool {
				v = stripTrunc(v)
				if v == n {
					return true
				}
				if v.Kind == 'o' && v.Op == "/" && stripTrunc(v.Args[1]) == t {
					m := stripTrunc(v.Args[0])
					if m.Kind == 'o' && m.Op == "*" {
						a, b := stripTrunc(m.Args[0]), stripTrunc(m.Args[1])
						return a == n && b == j || a == j && b == n
					}
					return m == mkLin(linOf(n).times(0)) // 0
				}
				return false
			}
			if share(v) && v != n {
				direct[key] = true
				return
			}
			// a multiple that is clamped
			if v == n {
				return
			}
			clamped := false
			if v.Kind == 'o' && v.Op == "min" && (v.Args[0] == n || v.Args[1] == n) {
				clamped = true
				if v = v.Args[0]; v == n {
					v = v.Args[1]
				}
			}
			if v.Kind == 'o' && v.Op == "*" {
				a, b := v.Args[0], v.Args[1]
				if a == j {
					a, b = b, a
				}
				w := vs.m[key]
				if b == j && w.leaf != nil && !a.has(w.leaf) && !inLoopLeaf(a, w.f, w.h) && (clamped || s.lessEq(v, n)) {
					if lo := s.ivalOf(linOf(a)); lo.hasLo && lo.lo >= 0 || ceilShare(a, t, n) {
						return
					}
				}
			}
			recur[key] = true
			// the previous bound and a quotient
			l := linOf(v)
			var last *Term
			var quots []*Term
			for i, a := range l.at {
				switch {
				case l.co[i] != 1:
					note("bound " + j.String() + " is " + v.String() + " (" + x.Pos() + ")")
					return
				case prev[a] != nil && s.equal(prev[a], mkLin(linOf(j).plus(lin{c: 1}, -1))):
					last = a
				case isSum(a, in):
					last = a
				default:
					quots = append(quots, a)
				}
			}
			if last == nil || len(quots) != 1 {
				note("bound " + j.String() + " is " + v.String() + ", which is not the previous bound and a share (" + x.Pos() + ")")
				return
			}
			q := stripTrunc(quots[0])
			if q.Kind != 'o' || q.Op != "/" || stripTrunc(q.Args[1]) != t {
				note("bound " + j.String() + " exceeds the previous one by " + q.String() + " (" + x.Pos() + ")")
				return
			}
			e := linOf(stripTrunc(q.Args[0])).plus(linOf(n), -1)
			within := func(f lin) bool { // e <= f
				iv := s.ivalOf(e.plus(f, -1))
				return iv.hasHi && iv.hi <= 0
			}
			pos := s.ivalOf(e)
			okE := pos.hasLo && pos.lo >= 0 && (within(linOf(j)) || within(linOf(t).plus(linOf(j), -1)))
			switch {
			case okE && l.c == 0:
				// the sum of (n+e)/t over distinct e from 0 to t-1 is n
			case l.c == 1 && len(e.at) == 0 && e.c == 0:
				// one more for the first n%t parts
				few := false
				for _, f := range s.lins {
					for _, a := range f.f.at {
						if a.Kind == 'o' && a.Op == "%" && a.Args[0] == n && a.Args[1] == t {
							iv := s.ivalOf(linOf(j).plus(linOf(a), -1))
							few = few || iv.hasHi && iv.hi <= 0
						}
					}
				}
				if !few {
					note("bound " + j.String() + " exceeds the previous one by " + v.String() + " for too many parts (" + x.Pos() + ")")
				}
			default:
				note("bound " + j.String() + " exceeds the previous one by " + mkLin(l.plus(linOf(last), -1)).String() + ", the sum may exceed the number of items (" + x.Pos() + ")")
			}
		}
	}
	exits := 0
	full := false
	type out struct {
		last bool
		ok   bool
	}
	var outs []out
	c.Exit = func(x *Ctx, res []*Term) {
		exits++
		t := T(x.E)
		good := len(res) == 1 && slice != nil && x.S.norm(res[0]) == slice && x.S.equal(x.S.lenOf(slice), mkLin(linOf(t).plus(lin{c: 1}, 1)))
		outs = append(outs, out{x.S.auto["last"] != "", good})
	}
	e := newEngine(p, c)
	s := newState()
	s.addLin(linOf(T(e0(e, fn))), ival{hasLo: true, lo: 1})
	s.addLin(linOf(N(e)), ival{hasLo: true})
	e.Run(e.Root, s)
	r.absorb(e, site)
	vs.settle(e)
	t := linOf(T(e))
	n := 0
	for _, k := range vs.order {
		v := vs.m[k]
		n++
		inner := v.is(vs.interval(1, t))
		upTo := false
		if direct[k] && !recur[k] {
			for lo := int64(0); lo <= 1; lo++ {
				if v.is(vs.interval(lo, t.plus(lin{c: 1}, 1))) {
					upTo, full = true, true
				}
			}
			upTo = upTo || v.is(vs.interval(0, t))
		}
		if v.undec != "" {
			note(v.undec)
		} else if !inner && !upTo {
			note("the bounds {" + v.dom.String() + "} are set")
		}
	}
	r.must(n == 1, "bounds", site, "%d instructions set bounds in loops", n)
	for _, o := range outs {
		if !o.last && !full {
			note("the last bound may not be set")
		}
		if !o.ok {
			note("the bounds are not returned, or their number is not that of the workers and one")
		}
	}
	r.must(bad == "" && exits > 0, "bounds", site, "%s", bad)
}

// e0 creates the root frame of the engine.
func e0(e *Engine, fn *ssa.Function) *Engine {
	e.Root = e.rootFrame(fn)
	return e
}

// inPlaceSum recognises x[i] += e, for the element that the last bound was stored in.
func inPlaceSum(st *ssa.Store) bool {
	b, ok := st.Val.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	u, ok := b.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	x, ok1 := u.X.(*ssa.IndexAddr)
	y, ok2 := st.Addr.(*ssa.IndexAddr)
	return ok1 && ok2 && x.X == y.X && x.Index == y.Index
}

// isSum reports a variable that starts at 0 and is set to what is stored.
func isSum(a *Term, st *ssa.Store) bool {
	ph, ok := a.Val.(*ssa.Phi)
	if !ok || a.Kind != 'l' {
		return false
	}
	h := ph.Block()
	body := naturalLoop(h)
	if body == nil || !body[st.Block()] {
		return false
	}
	for i, q := range h.Preds {
		if body[q] {
			if ph.Edges[i] != st.Val {
				return false
			}
		} else if !intConst(ph.Edges[i], 0) {
			return false
		}
	}
	return true
}

// ceilShare recognises (n+t-1)/t.
func ceilShare(a, t, n *Term) bool {
	a = stripTrunc(a)
	return a.Kind == 'o' && a.Op == "/" && stripTrunc(a.Args[1]) == t && len(linOf(stripTrunc(a.Args[0])).plus(linOf(n), -1).plus(linOf(t), -1).at) <= 1
}

// handOut: the function starts workers on the parts.
func handOut(r *Rep, fn, ipt *ssa.Function, workers map[*ssa.Function]int) {
	p := r.P
	site := fnName(fn)
	vs := newVisits("worker")
	var T *Term
	var facts []linCon
	closures := map[*ssa.Function]string{}
	gone := false
	starts := p.reaches(func(in ssa.Instruction) bool {
		_, ok := in.(*ssa.Go)
		return ok
	})
	c := &Client{
		Inline: func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) && starts[k.Fn] },
		Once:   func(*Frame, *ssa.BasicBlock) bool { return true },
		Next:   vs.next,
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if isVerboseDo(k.Name) {
			return true, nil
		}
		if k.Fn == ipt {
			t := mkOp("bounds", types.NewSlice(types.Typ[types.Int]), k.Args[0], k.Args[1])
			if T != nil && T != k.Args[0] {
				r.bad("adjacent", site, "the number of workers differs (%s)", x.Pos())
			}
			T = k.Args[0]
			facts = append(facts, linCon{linOf(mkLen(t)).plus(linOf(T), -1), ival{hasLo: true, lo: 1, hasHi: true, hi: 1}})
			return true, t
		}
		return false, nil
	}
	// part i of the bounds b
	bound := func(s *State, t *Term) (b, i *Term) {
		t = s.norm(t)
		if t.Kind == 'o' && t.Op == "part" {
			return t.Args[0], t.Args[1]
		}
		return nil, nil
	}
	piece := func(x *Ctx, lo, hi, base *Term) *Term {
		s := x.S
		b1, i1 := bound(s, lo)
		b2, i2 := bound(s, hi)
		if b1 == nil && b2 == nil {
			return nil
		}
		if b1 == nil || b1 != b2 || !s.equal(i2, mkLin(linOf(i1).plus(lin{c: 1}, 1))) {
			r.bad("adjacent", site, "a worker gets the items from %s to %s (%s)", lo, hi, x.Pos())
			return nil
		}
		if base != nil {
			r.must(s.equal(s.lenOf(base), b1.Args[1]), "adjacent", site, "%s is divided, and its length is not the number of items that the bounds are for (%s)", base, x.Pos())
		}
		return i1
	}
	c.Instr = func(x *Ctx) {
		if u, ok := x.I.(*ssa.UnOp); ok && u.Op == token.MUL {
			a := x.S.norm(x.Val(u.X))
			if a.Kind == 'o' && a.Op == "indexaddr" && a.Args[0].Kind == 'o' && a.Args[0].Op == "bounds" && x.S.read(a) == nil {
				x.S.write(a, mkOp("part", types.Typ[types.Int], a.Args[0], a.Args[1]))
			}
		}
		if sl, ok := x.I.(*ssa.Slice); ok && x.F.goFrame() != nil && sl.Low != nil && sl.High != nil {
			if g := x.F.goFrame().Fn; closures[g] == "open" {
				if piece(x, x.Val(sl.Low), x.Val(sl.High), x.S.norm(x.Val(sl.X))) != nil {
					closures[g] = "closed"
				}
			}
		}
		// the part that a closure gives to a worker
		if call, ok := x.I.(*ssa.Call); ok && x.F == x.F.goFrame() && x.F.Fn.Parent() != nil {
			if _, isWorker := workers[x.F.Fn]; isWorker {
				return
			}
			for _, g := range p.callees(&call.Call) {
				off := len(g.Params) - len(call.Call.Args)
				for i, a := range call.Call.Args {
					t := x.S.norm(x.Val(a))
					if t.Kind == 'o' && t.Op == "slice" && i+off >= 0 && p.inRepo(g) {
						if b, _ := bound(x.S, t.Args[1]); b != nil {
							workers[g] = i + off
						}
					}
				}
			}
		}
	}
	c.Go = func(x *Ctx, k *Call) {
		s := x.S
		for n, a := range k.Args {
			if a == nil {
				continue
			}
			a = s.norm(a)
			if a.Kind == 'o' && a.Op == "slice" {
				if i := piece(x, a.Args[1], a.Args[2], a.Args[0]); i != nil {
					gone = true
					vs.use(s)
					tag := vs.record(x, i)
					s.auto["used "+strings.TrimPrefix(tag, "visit ")] = "y"
					if k.Fn != nil {
						workers[k.Fn] = n
					}
				}
			}
		}
		var los, his []*Term
		for _, b := range k.Bind {
			if b == nil {
				continue
			}
			v := s.norm(b)
			if c := s.read(v); c != nil {
				v = s.norm(c)
			}
			if v.Kind == 'o' && v.Op == "part" {
				los, his = append(los, v), append(his, v)
			}
			if v.Kind == 'o' && v.Op == "slice" {
				if i := piece(x, v.Args[1], v.Args[2], v.Args[0]); i != nil {
					gone = true
					tag := vs.record(x, i)
					s.auto["used "+strings.TrimPrefix(tag, "visit ")] = "y"
				}
			}
		}
		for _, lo := range los {
			for _, hi := range his {
				if lo != hi && s.equal(hi.Args[1], mkLin(linOf(lo.Args[1]).plus(lin{c: 1}, 1))) && k.Fn != nil {
					if i := piece(x, lo, hi, nil); i != nil {
						gone = true
						closures[k.Fn] = "open"
						tag := vs.record(x, i)
						s.auto["used "+strings.TrimPrefix(tag, "visit ")] = "y"
					}
				}
			}
		}
	}
	e := newEngine(p, c)
	s := newState()
	e.Run(e.rootFrame(fn), s)
	e.RunSpawned()
	r.absorb(e, site)
	vs.settle(e)
	r.must(gone && len(vs.order) == 1, "adjacent", site, "workers are started on parts of the items at %d places", len(vs.order))
	for _, st := range closures {
		r.must(st == "closed", "adjacent", site, "a worker is not given its part of the items")
	}
	for _, k := range vs.order {
		v := vs.m[k]
		if v.undec != "" {
			r.bad("adjacent", site, "%s", v.undec)
			continue
		}
		r.must(T != nil && v.is(vs.interval(0, linOf(T)), facts...), "adjacent", site, "workers are started on the parts {%s} (%s)", v.dom, v.where)
		for _, end := range vs.ends {
			if end.f == v.f && end.h != v.h && !end.init && !end.out && naturalLoop(end.h)[v.h] {
				r.must(end.s.auto[ranKey(v.f, v.h)] != "", "adjacent", site, "an iteration can end without workers (%s)", end.pos)
			}
		}
	}
}

// everyItem: the function handles each element of its i-th argument once.
// everyItem decides that a worker handles each item of its part once, and
// gives the header of the loop that does.
func everyItem(r *Rep, fn *ssa.Function, arg int) *ssa.BasicBlock {
	p := r.P
	site := fnName(fn)
	if arg >= len(fn.Params) {
		r.bad("every-item", site, "the items are not an argument")
		return nil
	}
	par := fn.Params[arg]
	vs := newVisits("item")
	c := &Client{
		Inline: func(k *Call) bool {
			if k.Fn == nil || !p.inRepo(k.Fn) {
				return false
			}
			whole := false
			for _, q := range k.Fn.Params {
				if !types.Identical(q.Type(), par.Type()) {
					continue
				}
				whole = true
				for _, ref := range *q.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						if _, ok := ia.Index.(*ssa.Parameter); ok {
							return false // handles one position
						}
					}
				}
			}
			return whole
		},
		Pin:  func(v ssa.Value) bool { return v == ssa.Value(par) },
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
		Next: vs.next,
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if isVerboseDo(k.Name) {
			return true, nil
		}
		vs.use(x.S, k.Args...)
		return false, nil
	}
	c.Instr = func(x *Ctx) {
		u, ok := x.I.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return
		}
		a := x.S.norm(x.Val(u.X))
		for a.Kind == 'o' && a.Op == "fieldaddr" {
			a = a.Args[0]
		}
		if a.Kind == 'o' && a.Op == "indexaddr" && a.Args[0] == mkLeaf(x.E.Root, par, "") {
			x.S.tags[mkLeaf(x.F, u, "")] = vs.record(x, a.Args[1])
		}
	}
	e := newEngine(p, c)
	e.Run(e.rootFrame(fn), newState())
	r.absorb(e, site)
	vs.settle(e)
	type loop struct {
		f *Frame
		h *ssa.BasicBlock
	}
	good := map[loop]bool{}
	all := map[loop]bool{}
	why := "no loop handles them"
	for _, k := range vs.order {
		v := vs.m[k]
		all[loop{v.f, v.h}] = true
		switch {
		case v.undec != "":
			why = v.undec
		case !v.is(vs.interval(0, linOf(mkLen(mkLeaf(e.Root, par, ""))))):
			why = "the items {" + v.dom.String() + "} are handled (" + v.where + ")"
		case vs.skips[k] != "":
			why = "an item can be left out (" + vs.skips[k] + ")"
		default:
			good[loop{v.f, v.h}] = true
		}
	}
	r.must(len(good) == 1 && len(all) == 1, "every-item", site, "not every item is handled once: %s", why)
	for l := range good {
		if len(good) == 1 && len(all) == 1 {
			return l.h
		}
	}
	return nil
}
