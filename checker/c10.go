package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C10",
		Technique: "interprocedural path-sensitive analysis of the option dispatch over go/ssa, with string constraints on the selecting option",
		Explanation: "For each selecting option the chain NewForOptions and Train (Save for the vector type) is analysed twice over: constrained to be none of the documented values, where every return must be an error (and nothing may be written), " +
			"and constrained to each documented value, where some return succeeds and the operations that characterise the alternative, and not those of the others, are performed.",
		Run: runC10,
	})
}

type choice struct {
	model, opt string
	values     []string
	watch      func(r *Rep, m *modelType, site, v string, cl *Client) (done func())
}

func isFloatSlice(t *Term) bool {
	return t != nil && t.Typ != nil && typKey(t.Typ.Underlying()) == "[]float64"
}

// arrays are the values stored as the array of a matrix, which matrixArrays
// collects: what they stand for is a matrix wherever they occur.
var arrays = map[*Term]bool{}

func matrixArrays(x *Ctx) {
	if st, ok := x.I.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isFloatSliceType(st.Val.Type()) && isMatrixType(fa.X.Type()) {
			if v := x.Val(st.Val); v.Kind == 'l' {
				arrays[v] = true
			}
		}
	}
}

func isFloatSliceType(t types.Type) bool { return typKey(t.Underlying()) == "[]float64" }

func isMatrixType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Matrix"
}

// fromMatrix reports whether a slice is a row of a matrix.
func fromMatrix(s *State, t *Term) bool {
	return mentions(s.norm(t), func(u *Term) bool {
		if arrays[u] {
			return true
		}
		if u.Kind == 'o' && u.Op == "field" && isMatrixType(u.Typ) {
			return isFloatSlice(u)
		}
		if u.Kind != 'l' || !isFloatSlice(u) {
			return false
		}
		if u.Op == "memval" || u.Op == "memphi" {
			a := u.Args[0]
			return a.Kind == 'o' && a.Op == "fieldaddr" && isMatrixType(a.Typ)
		}
		if l, ok := u.Val.(*ssa.UnOp); ok {
			if fa, ok := l.X.(*ssa.FieldAddr); ok {
				return isMatrixType(fa.X.Type())
			}
		}
		return false
	})
}

// rangeValue reports whether a term is the value (or key) of a map iteration.
func rangeValue(t *Term, idx int) bool {
	if t.Kind != 'o' || t.Op != "extract" || t.Field != idx {
		return false
	}
	_, ok := t.Args[0].Val.(*ssa.Next)
	return ok
}

func callsIn(t *Term, name string) bool {
	return mentions(t, func(u *Term) bool { return u.Kind == 'o' && u.Op == "call:"+name })
}

func choices() []choice {
	// skip-gram trains on rows of the parameters one at a time, CBOW on an aggregate
	modelTyp := func(r *Rep, m *modelType, site, v string, cl *Client) func() {
		n := 0
		old := cl.Call
		cl.Instr = matrixArrays
		cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
			if strings.HasSuffix(k.Name, ".optim") && k.Fn != nil {
				for _, a := range k.Args {
					if isFloatSliceTerm(a) {
						n++
						row := fromMatrix(x.S, a)
						r.must(row == (v == "skipgram"), "selects", site, "with %s the optimizer gets %s (%s)", v, map[bool]string{true: "the vector of one context word", false: "an aggregate"}[row], x.Pos())
						break
					}
				}
			}
			return old(x, k)
		}
		return func() { r.must(n > 0, "selects", site, "with %s the optimizer is never called", v) }
	}
	optimizer := func(r *Rep, m *modelType, site, v string, cl *Client) func() {
		nodes, samples := 0, 0
		cl.Instr = func(x *Ctx) {
			if fa, ok := x.I.(*ssa.FieldAddr); ok {
				if n := namedOf(fa.X.Type()); n != nil && n.Obj().Name() == "Node" && fieldName(fa.X.Type(), fa.Field) == "Vector" && x.F.goFrame() != nil {
					nodes++
				}
			}
		}
		old := cl.Call
		cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
			if strings.HasSuffix(k.Name, "matrix.Matrix.Slice") {
				for f := x.F; f != nil; f = f.Parent {
					if f.Fn.Name() == "optim" {
						samples++
					}
				}
			}
			return old(x, k)
		}
		return func() {
			if v == "hs" {
				r.must(nodes > 0 && samples == 0, "selects", site, "with hs the vectors of the tree are not trained")
			} else {
				r.must(nodes == 0 && samples > 0, "selects", site, "with ns the context vectors are not trained")
			}
		}
	}
	solver := func(r *Rep, m *modelType, site, v string, cl *Client) func() {
		sqrt, upd := 0, 0
		cl.Instr = func(x *Ctx) {
			if st, ok := x.I.(*ssa.Store); ok && isFloat(st.Val.Type()) && x.F.goFrame() != nil {
				upd++
			}
		}
		old := cl.Call
		cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
			if k.Name == "math.Sqrt" && x.F.goFrame() != nil {
				sqrt++
			}
			return old(x, k)
		}
		return func() {
			r.must(upd > 0 && (sqrt > 0) == (v == "adagrad"), "selects", site, "with %s the steps are %s", v, map[bool]string{true: "scaled by accumulated gradients", false: "not scaled by accumulated gradients"}[sqrt > 0])
		}
	}
	count := func(r *Rep, m *modelType, site, v string, cl *Client) func() {
		n := 0
		old := cl.Instr
		cl.Instr = func(x *Ctx) {
			if old != nil {
				old(x)
			}
			mu, ok := x.I.(*ssa.MapUpdate)
			if !ok || typKey(mu.Map.Type().Underlying()) != "map[uint64]float64" || x.F.Fn.Pkg == nil || !strings.Contains(x.F.Fn.Pkg.Pkg.Path(), "cooccurrence") {
				return
			}
			n++
			val := x.S.norm(x.Val(mu.Value))
			one := mentions(val, func(u *Term) bool { f, ok := constFloat(u); return ok && f == 1 })
			div := mentions(val, func(u *Term) bool { return u.Kind == 'o' && u.Op == "/" })
			if v == "inc" {
				r.must(one && !div, "selects", site, "with inc a pair does not count 1 but %s (%s)", val, x.Pos())
			} else {
				// whether it is the right share is C40's subject
				r.must(div || !one, "selects", site, "with prox a pair does not count by its distance but %s (%s)", val, x.Pos())
			}
		}
		return func() { r.must(n > 0, "selects", site, "with %s nothing is counted", v) }
	}
	relation := func(r *Rep, m *modelType, site, v string, cl *Client) func() {
		n, free := 0, 0
		// the values that different ways through the computation give stay apart
		cl.Got = func(f *Frame, val ssa.Value, s *State) {
			if f.Fn.Pkg != m.Pkg || f.goFrame() != nil {
				return
			}
			k := uint64(0)
			one := func(i int, t types.Type) {
				if t == nil || !numericTerm(t) {
					return
				}
				res := mkLeaf(f, val, "")
				if i >= 0 {
					res = mkOpX("extract", t, nil, i, res)
				}
				if res = s.norm(res); res.Kind != 'l' {
					k = mix(k ^ uint64(res.id))
					k = mix(k ^ uint64(s.relOf(res, mkConst(normConst(mkInt(0).C, t), t))))
				}
			}
			if tp, ok := val.Type().(*types.Tuple); ok {
				for i := 0; i < tp.Len(); i++ {
					one(i, tp.At(i).Type())
				}
			} else {
				one(-1, val.Type())
			}
			if n := fmt.Sprint("value ", mkLeaf(f, val, "").id); k != 0 {
				s.auto[n] = fmt.Sprint(k)
			} else {
				delete(s.auto, n)
			}
		}
		cl.Instr = func(x *Ctx) {
			mu, ok := x.I.(*ssa.MapUpdate)
			if !ok || typKey(mu.Map.Type().Underlying()) != "map[uint64]float64" || x.F.Fn.Pkg == nil || x.F.Fn.Pkg != m.Pkg {
				return
			}
			n++
			s := x.S
			val := s.norm(x.Val(mu.Value))
			isF := func(t *Term) bool { return rangeValue(s.norm(t), 2) }
			logF := func(t *Term) bool {
				return mentions(t, func(u *Term) bool { return u.Kind == 'o' && u.Op == "call:math.Log" && isF(u.Args[0]) })
			}
			zero := mkConst(normConst(mkInt(0).C, mu.Value.Type()), mu.Value.Type())
			var f *Term // the count of this pair
			if k := x.Val(mu.Key); k.Kind == 'o' && k.Op == "extract" {
				f = mkOpX("extract", mu.Value.Type(), nil, 2, k.Args[0])
			}
			noCount := f != nil && s.relOf(s.norm(f), zero) == relEQ
			bad := func(msg string) { r.bad("selects", site, "with %s %s: %s (%s)", v, msg, val, x.Pos()) }
			switch v {
			case "co":
				if !isF(val) {
					bad("the value of a pair is not its count")
				}
			case "logco":
				if !(val.Kind == 'o' && val.Op == "call:math.Log" && isF(val.Args[0])) {
					bad("the value of a pair is not the logarithm of its count")
				}
			case "ppmi":
				nonneg := s.relOf(val, zero)&relLT == 0
				if val.Kind == 'o' && val.Op == "call:math.Max" {
					for _, a := range val.Args {
						if c, ok := constFloat(a); ok && c >= 0 {
							nonneg = true
						}
					}
				}
				if !nonneg {
					bad("the value of a pair may be negative")
				}
				if c, isC := constFloat(val); isC {
					if c != 0 {
						bad("the value of a pair is constant")
					}
				} else if !logF(val) {
					bad("the value of a pair does not depend on its count")
				} else {
					free++
				}
			case "pmi":
				if _, isC := constFloat(val); isC {
					if !noCount {
						bad("the value of a pair is constant")
					}
				} else if !logF(val) {
					bad("the value of a pair does not depend on its count")
				} else if s.relOf(val, zero)&relLT != 0 && !callsIn(val, "math.Max") {
					free++
				}
			}
		}
		return func() {
			r.must(n > 0, "selects", site, "with %s no value is computed", v)
			if v == "ppmi" || v == "pmi" {
				r.must(free > 0, "selects", site, "with %s the value is never the mutual information itself", v)
			}
		}
	}
	return []choice{
		{"word2vec", "ModelType", []string{"skipgram", "cbow"}, modelTyp},
		{"word2vec", "OptimizerType", []string{"ns", "hs"}, optimizer},
		{"glove", "SolverType", []string{"sgd", "adagrad"}, solver},
		{"glove", "CountType", []string{"inc", "prox"}, count},
		{"lexvec", "RelationType", []string{"ppmi", "pmi", "co", "logco"}, relation},
	}
}

func runC10(r *Rep) {
	r.rule("unknown-rejected", 10, "an undocumented value leads to an error")
	r.rule("accepted", 15, "a documented value is accepted")
	r.rule("selects", 20, "a documented value selects its own algorithm")
	r.rule("nothing-written", 3, "nothing is written for an undocumented vector type")
	p := r.P
	byName := map[string]*modelType{}
	for _, m := range p.models(r) {
		byName[m.Name] = m
	}
	quiet := func() *Client {
		c := &Client{Inline: func(k *Call) bool { return true }}
		c.Call = func(x *Ctx, k *Call) (bool, *Term) { return isVerboseDo(k.Name), nil }
		return c
	}
	for _, ch := range choices() {
		m := byName[ch.model]
		if m == nil || m.opt(ch.opt) == nil {
			r.bad("entry-points", ch.model+" "+ch.opt, "the option is not found")
			continue
		}
		t := m.opt(ch.opt)
		for _, md := range m.trainModes() {
			// none of the documented values
			s := md.S.clone()
			for _, v := range ch.values {
				s.addStr(t, mkStr(v), false)
			}
			site := md.Name + " " + ch.opt
			ok, failed := p.create(r, m, s, site)
			if len(failed) > 0 {
				r.ok("unknown-rejected", site)
			}
			for _, c := range ok {
				for _, x := range p.follow(r, m.Train, []*Term{c.Recv}, nil, c.S, quiet(), false, site+" Train") {
					r.must(x.Fail == 1, "unknown-rejected", site, "Train can return without an error (%s) for an undocumented value", x.Pos)
				}
			}
			for _, v := range ch.values {
				s := md.S.clone()
				s.addStr(t, mkStr(v), true)
				site := md.Name + " " + ch.opt + "=" + v
				ok, _ := p.create(r, m, s, site)
				good := false
				cl := quiet()
				done := ch.watch(r, m, site, v, cl)
				for _, c := range ok {
					for _, x := range p.follow(r, m.Train, []*Term{c.Recv}, nil, c.S, cl, true, site+" Train") {
						if x.Fail != 1 {
							good = true
						}
					}
				}
				r.must(good, "accepted", site, "no path of NewForOptions and Train succeeds with the documented value")
				if good {
					done()
				}
			}
		}
	}
	vectorType(r, p)
}

// vectorType: Save of every model.
func vectorType(r *Rep, p *Prog) {
	for _, m := range p.models(r) {
		var typ *Term
		idx := -1
		for i, pr := range m.Save.Params {
			if isString(pr.Type()) {
				idx = i
			}
		}
		if idx < 0 {
			r.bad("entry-points", m.Name+" Save", "Save has no vector type")
			continue
		}
		for _, v := range []string{"", "single", "agg"} {
			typ = mkSym("vector type", m.Save.Params[idx].Type())
			s := newState()
			if v == "" {
				s.addStr(typ, mkStr("single"), false)
				s.addStr(typ, mkStr("agg"), false)
			} else {
				s.addStr(typ, mkStr(v), true)
			}
			args := make([]*Term, len(m.Save.Params))
			args[idx] = typ
			cl := &Client{Inline: func(k *Call) bool { return true }}
			w := m.Save.Params
			site := m.Name + " Save"
			cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
				if isVerboseDo(k.Name) {
					return true, nil
				}
				if v == "" && (k.Fn == nil || len(k.Fn.Blocks) == 0) {
					for _, a := range k.Args {
						for i := range w {
							if i != 0 && i != idx && x.S.norm(a) == mkLeaf(x.E.Root, w[i], "") {
								r.bad("nothing-written", site, "the destination is used (%s, at %s) for an undocumented vector type", k.Name, x.Pos())
							}
						}
					}
				}
				return false, nil
			}
			good := false
			for _, x := range p.follow(r, m.Save, args, nil, s, cl, false, site) {
				if v == "" {
					r.must(x.Fail == 1, "unknown-rejected", site, "Save can return without an error (%s) for an undocumented vector type", x.Pos)
				} else if x.Fail != 1 {
					good = true
				}
			}
			if v == "" {
				r.ok("nothing-written", site)
			} else {
				r.must(good, "accepted", site+" "+v, "no path of Save succeeds with the documented vector type")
			}
		}
	}
}
