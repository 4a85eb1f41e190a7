package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C23",
		Technique: "abstract interpretation over go/ssa of one arbitrary iteration per loop; the positions a loop visits are derived as a conjunction of linear constraints, proved exact, and compared between loops by entailment; typestate of the random draw",
		Explanation: "The functions that train one position of a text are analysed with their callees. Every loop that reads other positions of the text is summarised by the linear constraints under which a position is visited: they hold at every visit, and every iteration without a visit, the end and the start of the loop contradict them. " +
			"For every loop whose words have their vectors read there must be a loop with equivalent constraints whose words have their vectors changed, and the other way round; the constraints must exclude the trained position, and exactly one window is drawn, before any of them.",
		Run: runC23,
	})
}

func runC23(r *Rep) {
	r.rule("one-draw", 2, "one window is drawn for a trained word, before its context is visited")
	r.rule("not-itself", 2, "a word is not its own context")
	r.rule("same-context", 2, "the context that is updated is the one that was read")
	p := r.P
	u := &unitCheck{r: r, p: p, rows: map[fieldID]int64{}, stored: map[fieldID]string{}, used: map[fieldID]string{}}
	sums := map[*ssa.Function]map[*ssa.UnOp]bool{}
	for _, f := range p.Funcs {
		sums[f] = addLoads(f)
	}
	draws, window := windowDraws(r)
	for _, fn := range p.positionFuncs(u) {
		oneTraining(r, u, fn, draws, window, sums)
	}
}

// windowDraws finds the draws of a window and the values that are its size.
func windowDraws(r *Rep) (map[ssa.Instruction]bool, map[ssa.Value]bool) {
	p := r.P
	// draws of a window
	draws := map[ssa.Instruction]bool{}
	window := map[ssa.Value]bool{}
	for _, m := range p.models(r) {
		for _, v := range p.throughFields(p.optLoads(m, "Window")) {
			window[v] = true
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "NextRandom" {
					continue
				}
				for _, a := range c.Call.Args {
					for _, v := range p.sources(a) {
						if window[v] {
							draws[c] = true
						}
					}
				}
			}
		}
	}
	return draws, window
}

// throughFields adds the loads of fields that the values are stored in.
func (p *Prog) throughFields(from []ssa.Value) []ssa.Value {
	seen := map[fieldID]bool{}
	for n := 0; n < 3; n++ {
		ids := map[fieldID]bool{}
		p.flow(from, func(in ssa.Instruction, v ssa.Value) bool {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && st.Val == v {
					ids[fieldIDOf(fa)] = true
				}
			}
			return false
		})
		more := false
		for id := range ids {
			if seen[id] {
				continue
			}
			seen[id] = true
			more = true
			for _, f := range p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if v, ok := in.(ssa.Value); ok {
							if q, ok := fieldRead(v); ok && q == id {
								from = append(from, v)
							}
						}
					}
				}
			}
		}
		if !more {
			break
		}
	}
	return from
}

// positionFuncs finds the functions that are given a text and a position in
// it, and are called only by functions that are not.
func (p *Prog) positionFuncs(u *unitCheck) []*ssa.Function {
	posParams := map[*ssa.Parameter]bool{}
	doc := func(f *ssa.Function) *ssa.Parameter {
		for _, q := range f.Params {
			if isIntSlice(q.Type()) && u.docSource(q) == "" {
				return q
			}
		}
		return nil
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			d := doc(f)
			if d == nil {
				continue
			}
			mark := func(v ssa.Value) {
				if q, ok := v.(*ssa.Parameter); ok && isSignedInt(q.Type()) && !posParams[q] {
					posParams[q] = true
					changed = true
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.IndexAddr:
						if in.X == ssa.Value(d) {
							mark(in.Index)
						}
					case ssa.CallInstruction:
						com := in.Common()
						for _, g := range p.callees(com) {
							off := len(g.Params) - len(com.Args)
							for i, a := range com.Args {
								if i+off >= 0 && i+off < len(g.Params) && posParams[g.Params[i+off]] {
									mark(a)
								}
							}
						}
					}
				}
			}
		}
	}
	has := func(f *ssa.Function) bool {
		for _, q := range f.Params {
			if posParams[q] {
				return true
			}
		}
		return false
	}
	// a function that only hands the position on trains no position itself
	forwards := func(f *ssa.Function) bool {
		for _, q := range f.Params {
			if !posParams[q] {
				continue
			}
			for _, use := range *q.Referrers() {
				switch use := use.(type) {
				case *ssa.DebugRef:
				case *ssa.Call:
					for _, g := range p.callees(use.Common()) {
						if !has(g) {
							return false
						}
					}
				default:
					return false
				}
			}
		}
		for _, b := range f.Blocks {
			for _, q := range b.Preds {
				if backEdge(q, b) {
					return false
				}
			}
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && c.Common().StaticCallee().Name() == "NextRandom" {
					return false
				}
			}
		}
		return true
	}
	called := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if !has(f) || forwards(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c.Common()) {
						called[g] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if has(f) && !called[f] && p.inRepo(f) && !forwards(f) {
			out = append(out, f)
		}
	}
	return out
}

// training is what oneTraining found out about the function of one position.
type training struct {
	vs      *visits
	doc     *Term
	pos     []*Term
	draw, w *Term
}

func oneTraining(r *Rep, u *unitCheck, fn *ssa.Function, draws map[ssa.Instruction]bool, window map[ssa.Value]bool, sums map[*ssa.Function]map[*ssa.UnOp]bool) *training {
	p := r.P
	site := fnName(fn)
	var docPar *ssa.Parameter
	var posPars []*ssa.Parameter
	for _, q := range fn.Params {
		if isIntSlice(q.Type()) && u.docSource(q) == "" {
			docPar = q
		} else if isSignedInt(q.Type()) {
			posPars = append(posPars, q)
		}
	}
	vs := newVisits("context")
	tr := &training{vs: vs}
	changed, read := map[*Term]string{}, map[*Term]bool{} // memory that workers share
	touched := false
	var finals []map[string]bool // loops entered on the ways to the end
	c := &Client{
		Inline: func(k *Call) bool {
			return k.Fn != nil && p.inRepo(k.Fn) && k.Fn.Name() != "NextRandom" && !strings.Contains(qualName(k.Fn), "/pkg/corpus/")
		},
		Pin: func(v ssa.Value) bool {
			if in, ok := v.(ssa.Instruction); ok && (draws[in] || window[v]) {
				return true
			}
			q, ok := v.(*ssa.Parameter)
			return ok && q.Parent() == fn
		},
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if isVerboseDo(k.Name) {
			return true, nil
		}
		if draws[x.I] {
			f, _ := innermost(x.F, x.I.Block())
			r.must(x.S.auto["draw"] == "" && f == nil, "one-draw", site, "a window can be drawn more than once for a word (%s)", x.Pos())
			x.S.auto["draw"] = "drawn"
			if v, ok := x.I.(ssa.Value); ok && len(k.Args) == 1 {
				tr.draw, tr.w = mkLeaf(x.F, v, ""), canonical(x.S, x.S.norm(k.Args[0]), 0)
			}
			return true, nil
		}
		vs.use(x.S, k.Args...)
		return matrixModel(p, x, k)
	}
	// row events
	row := func(x *Ctx, addr ssa.Value, read bool) {
		ia, ok := addr.(*ssa.IndexAddr)
		if !ok {
			return
		}
		_, id, ok := rowOf(x.S, x.S.norm(x.Val(ia.X)))
		if !ok {
			return
		}
		if v := vs.of(x.S, id); v != nil {
			if read {
				v.read = true
			} else {
				v.change = true
			}
		}
	}
	c.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return
			}
			ia, ok := in.X.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if isFloatSliceType(ia.X.Type()) {
				if !sums[x.F.Fn][in] {
					row(x, ia, true)
				}
				return
			}
			if !isIntSlice(ia.X.Type()) || s.norm(x.Val(ia.X)) != mkLeaf(x.E.Root, docPar, "") {
				return
			}
			idx := s.norm(x.Val(ia.Index))
			for _, q := range posPars {
				if idx == s.norm(mkLeaf(x.E.Root, q, "")) {
					return
				}
			}
			touched = true
			r.must(s.auto["draw"] == "drawn", "one-draw", site, "the context is visited before a window is drawn (%s)", x.Pos())
			apart := false
			for _, q := range posPars {
				t := s.clone()
				if !t.addLin(linOf(idx).plus(linOf(s.norm(mkLeaf(x.E.Root, q, ""))), -1), ival{hasLo: true, hasHi: true}) {
					apart = true
				}
			}
			r.must(apart, "not-itself", site, "position %s may be that of the trained word (%s)", idx, x.Pos())
			x.S.tags[mkLeaf(x.F, in, "")] = vs.record(x, idx)
		case *ssa.Store:
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok && isFloatSliceType(ia.X.Type()) {
				row(x, ia, false)
				return
			}
			// what other workers see and assign, too, is not the same
			// for both visits
			a := s.norm(x.Val(in.Addr))
			if a.Kind == 'g' || a.Kind == 'o' && a.Op == "fieldaddr" && sharedBase(s, x.E.Root, a.Args[0]) {
				if changed[a] == "" {
					changed[a] = x.Pos()
				}
			}
		}
	}
	loads := c.Instr
	c.Instr = func(x *Ctx) {
		loads(x)
		if in, ok := x.I.(*ssa.UnOp); ok && in.Op == token.MUL {
			read[x.S.norm(x.Val(in.X))] = true
		}
	}
	c.Next = vs.next
	// what is decided about the position outside of loops is not joined
	c.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) {
		if f, _ := innermost(x.F, x.I.Block()); f != nil || cond == nil {
			return
		}
		for _, q := range posPars {
			if cond.has(mkLeaf(x.E.Root, q, "")) {
				x.S.auto[fmt.Sprintf("if %d", cond.id)] = fmt.Sprint(val)
			}
		}
	}
	c.Exit = func(x *Ctx, _ []*Term) {
		m := map[string]bool{}
		for k := range x.S.auto {
			m[k] = true
		}
		finals = append(finals, m)
	}
	e := newEngine(p, c)
	e.Run(e.rootFrame(fn), newState())
	r.absorb(e, site)
	if !touched {
		return nil
	}
	if docPar != nil {
		tr.doc = mkLeaf(e.Root, docPar, "")
	}
	for _, q := range posPars {
		tr.pos = append(tr.pos, mkLeaf(e.Root, q, ""))
	}
	for a, where := range changed {
		if read[a] {
			r.bad("same-context", site, "%s is assigned for a word (%s) and read again, but every worker assigns it", a, where)
		}
	}
	// the constraints are exact
	vs.settle(e)
	for _, k := range vs.order {
		if v := vs.m[k]; v.undec != "" && (v.read || v.change) {
			r.bad("same-context", site, "%s (%s)", v.undec, v.where)
		}
	}
	for _, k := range vs.order {
		v := vs.m[k]
		if v.undec != "" || !v.read && !v.change {
			continue
		}
		var partners []*visit
		for _, q := range vs.order {
			w := vs.m[q]
			if w.undec == "" && (v.read && w.change || v.change && w.read) && sameDomain(v.dom, w.dom) {
				partners = append(partners, w)
			}
		}
		found := len(partners) > 0
		r.must(vs.skips[k] == "", "same-context", site, "a word of the context is looked at (%s) but its vector is not taken (%s)", v.where, vs.skips[k])
		for _, m := range finals {
			if !found || !m[ranKey(v.f, v.h)] {
				continue
			}
			together := false
			for _, w := range partners {
				together = together || m[ranKey(w.f, w.h)]
			}
			r.must(together, "same-context", site, "the context is visited (%s) and the other visit of it is left out", v.where)
		}
		what := "changed but not read"
		if v.read {
			what = "read but not changed"
		}
		r.must(found, "same-context", site, "the words at %s are %s: {%s} (%s)", vs.sym, what, v.dom, v.where)
	}
	return tr
}

// sharedBase: the pointer is an argument of the function analysed, or is read
// from what that points to, not something made or taken from a pool here.
func sharedBase(s *State, root *Frame, t *Term) bool {
	for i := 0; i < 8; i++ {
		t = s.norm(t)
		switch {
		case t.Kind == 'l':
			q, ok := t.Val.(*ssa.Parameter)
			if !ok {
				if u, isLoad := t.Val.(*ssa.UnOp); isLoad && u.Op == token.MUL {
					return true
				}
				return false
			}
			return q.Parent() == root.Fn
		case len(t.Args) > 0 && (t.Op == "fieldaddr" || t.Op == "field" || t.Op == "mem" || t.Op == "indexaddr"):
			t = t.Args[0]
		default:
			return false
		}
	}
	return false
}
