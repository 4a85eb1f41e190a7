package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C21",
		Technique: "path-sensitive abstract interpretation of each filter against its definition, an inductive argument for their disjunction, a typestate of every round that keeps or drops a word, and backward provenance of the training data, over go/ssa",
		Explanation: "The filters that New of each corpus installs are identified by the hyperparameter that their argument comes from. On every path each must return true exactly when the frequency of the word is beyond the limit and the limit is one. " +
			"The function that applies them must return true if and only if one of them does, whatever their number. Wherever words are collected, a round keeps a word if and only if the filters let it pass. The data that workers train on must come from there.",
		Run: runC21,
	})
}

func runC21(r *Rep) {
	r.rule("limits", 2, "a filter rejects the words beyond its limit and no others")
	r.rule("installed", 4, "a corpus has the filters for both limits")
	r.rule("any", 1, "a word is rejected if and only if a filter rejects it")
	r.rule("kept", 2, "a word is kept if and only if it is not rejected")
	r.rule("delivered", 2, "only kept words are delivered")
	r.rule("trained", 4, "models are trained on what a corpus delivers")
	p := r.P
	any := p.method("pkg/corpus/cpsutil", "Filters", "Any")
	if any == nil {
		r.bad("any", "pkg/corpus/cpsutil", "Filters.Any is not found")
		return
	}
	anyRule(r, any)
	for _, c := range p.corpora(r) {
		filterRules(r, c)
		for _, f := range []*ssa.Function{c.idoc, c.bw} {
			keptRule(r, c, f, any)
		}
	}
	// what the models train on
	ws := p.trainWorkers()
	// a worker may hand its part on to another function of its package
	for more := true; more; {
		more = false
		for f, i := range ws {
			if i >= len(f.Params) {
				continue
			}
			for _, u := range *f.Params[i].Referrers() {
				c, ok := u.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || pkgOf(g) != pkgOf(f) {
					continue
				}
				for j, a := range c.Common().Args {
					if _, is := ws[g]; a == ssa.Value(f.Params[i]) && !is && j < len(g.Params) && types.Identical(g.Params[j].Type(), a.Type()) {
						ws[g], more = j, true
					}
				}
			}
		}
	}
	for _, m := range p.models(r) {
		found := false
		for _, f := range p.Funcs {
			i, ok := ws[f]
			if !ok || i >= len(f.Params) || pkgOf(f) != namedOf(m.Typ).Obj().Pkg() {
				continue
			}
			found = true
			src := map[string]bool{}
			p.dataSources(f.Params[i], src, map[ssa.Value]bool{})
			if len(src) == 0 {
				r.bad("trained", m.Name, "where the data of %s comes from is not known", fnName(f))
			}
			for s := range src {
				c := m.Name + " from " + s
				if n := namedElem(f.Params[i].Type()); n != "" {
					c = m.Name + " from a list of " + n
				}
				r.must(s == "IndexedDoc" || s == "BatchWords", "trained", c,
					"%s trains on data from %s, which is not filtered", fnName(f), s)
			}
		}
		if !found {
			r.bad("trained", m.Name, "no workers are found")
		}
	}
}

// trainWorkers finds the functions that workers run on a part of the data,
// with the position of that argument.
func (p *Prog) trainWorkers() map[*ssa.Function]int {
	ws := map[*ssa.Function]int{}
	ipt := p.fn("pkg/model/modelutil", "IndexPerThread")
	if ipt == nil {
		return ws
	}
	tmp := newRep("C22", p)
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == ipt {
					handOut(tmp, fn, ipt, ws)
				}
			}
		}
	}
	return ws
}

// dataSources names where a slice of training data comes from.
func (p *Prog) dataSources(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	for _, s := range p.sources(v) {
		if seen[s] {
			continue
		}
		seen[s] = true
		switch s := s.(type) {
		case *ssa.Slice:
			p.dataSources(s.X, out, seen)
		case *ssa.UnOp:
			if s.Op == token.ARROW {
				p.chanSources(s.X, out)
				continue
			}
			out["a load at "+p.posOf(s)] = true
		case *ssa.Extract:
			if u, ok := s.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW {
				p.chanSources(u.X, out)
				continue
			}
			if c, ok := s.Tuple.(*ssa.Call); ok {
				out["the result of "+calledName(&c.Call)] = true
				continue
			}
			out[s.String()] = true
		case *ssa.Call:
			if n := calledName(&s.Call); n == "IndexedDoc" {
				out[n] = true
			} else {
				out["the result of "+n] = true
			}
		default:
			out[s.String()] = true
		}
	}
}

func calledName(com *ssa.CallCommon) string {
	if com.IsInvoke() {
		return com.Method.Name()
	}
	if f := com.StaticCallee(); f != nil {
		return f.Name()
	}
	return com.Value.Name()
}

// chanSources: the channel must be filled by BatchWords only.
func (p *Prog) chanSources(ch ssa.Value, out map[string]bool) {
	for _, s := range p.sources(ch) {
		mc, ok := s.(*ssa.MakeChan)
		if !ok {
			out["a channel that is not known"] = true
			continue
		}
		p.flowNoCalls(mc, func(in ssa.Instruction) {
			switch in := in.(type) {
			case ssa.CallInstruction:
				if calledName(in.Common()) == "BatchWords" {
					out["BatchWords"] = true
				}
			case *ssa.Send:
				out["a send at "+p.posOf(in)] = true
			}
		})
	}
}

// flowNoCalls visits the uses of a value, without entering the methods of a corpus.
func (p *Prog) flowNoCalls(v ssa.Value, visit func(in ssa.Instruction)) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch u := in.(type) {
			case *ssa.Phi:
				walk(u)
			case *ssa.ChangeType:
				walk(u)
			case *ssa.Store:
				if cell := cellOf(u.Addr); cell != nil && u.Val == v {
					for _, l := range p.cellLoads(cell) {
						walk(l)
					}
				}
			case *ssa.MakeClosure:
				for i, b := range u.Bindings {
					if b == v {
						walk(u.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case ssa.CallInstruction:
				if f := u.Common().StaticCallee(); f != nil && p.inRepo(f) {
					for i, a := range u.Common().Args {
						if a == v {
							walk(f.Params[i])
						}
					}
				}
				visit(in)
			default:
				visit(in)
			}
		}
	}
	walk(v)
}

// filterRules: New installs a filter for each limit, and they mean what they should.
func filterRules(r *Rep, c *corpusType) {
	p := r.P
	site := c.Pkg + " New"
	for _, k := range c.make(r, nil) {
		var list *Term
		for _, a := range sortedMem(k.S) {
			if a.Kind == 'o' && a.Op == "fieldaddr" && a.Args[0] == k.Recv {
				if n := namedOf(k.S.norm(k.S.mem[a]).Typ); n != nil && n.Obj().Name() == "Filters" {
					list = k.S.norm(k.S.mem[a])
				}
			}
		}
		if list == nil {
			r.bad("installed", site, "the filters of the corpus are not found")
			continue
		}
		el := elements(k.S, list)
		if el == nil {
			r.bad("installed", site, "the filters of the corpus are not known")
			continue
		}
		has := map[string]int{}
		for _, f := range el {
			fn, limit, why := filterLimit(p, k.S, f)
			if why != "" {
				r.bad("installed", site, "%s", why)
				continue
			}
			fields, others := p.argFields(limit)
			if len(fields) != 1 || len(others) > 0 {
				r.bad("installed", site, "a filter gets %v", fields)
				continue
			}
			for h := range fields {
				has[h]++
				filterMeans(r, fn, h)
			}
		}
		for _, h := range []string{"MaxCount", "MinCount"} {
			r.must(has[h] > 0, "installed", site+" "+h, "there is no filter for this limit")
		}
		r.must(len(has) == 2, "installed", site+" all", "there are filters for %v", has)
	}
}

// filterLimit gives the function of a filter and the parameter of New that is its limit.
func filterLimit(p *Prog, s *State, f *Term) (*ssa.Function, *ssa.Parameter, string) {
	if f == nil {
		return nil, nil, "a filter is not known"
	}
	f = s.norm(f)
	if f.Kind != 'o' || f.Op != "closure" || len(f.Args) != 1 {
		return nil, nil, fmt.Sprintf("the filter %s is not a function of one limit", f)
	}
	fn := closureFn(f)
	v := s.norm(f.Args[0])
	if q := s.read(v); q != nil {
		v = s.norm(q)
	}
	q, ok := v.Val.(*ssa.Parameter)
	if fn == nil || !ok || v.Kind != 'l' {
		return nil, nil, fmt.Sprintf("the limit of a filter is %s", v)
	}
	return fn, q, ""
}

func closureFn(f *Term) *ssa.Function {
	switch v := f.Val.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	}
	return nil
}

// filterMeans: the function is true exactly for the words beyond the limit.
func filterMeans(r *Rep, fn *ssa.Function, field string) {
	p := r.P
	site := fnName(fn)
	bad := ""
	note := func(f string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
	}
	var id, dic *Term
	freqOf := p.method("pkg/corpus/dictionary", "Dictionary", "IDFreq")
	n := 0
	var limit *Term
	freqT := func() *Term { return mkOp("freq", types.Typ[types.Int], dic, id) }
	c := &Client{
		Inline: func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) },
		Pin:    func(v ssa.Value) bool { return v.Parent() == fn },
		Call: func(x *Ctx, k *Call) (bool, *Term) {
			if k.Fn != nil && k.Fn == freqOf {
				if x.S.norm(k.Args[0]) != dic || !x.S.equal(k.Args[1], id) {
					note("the frequency of another word is used (%s)", x.Pos())
				}
				return true, freqT()
			}
			return false, nil
		},
		Exit: func(x *Ctx, res []*Term) {
			n++
			lim := x.S.content(limit, types.Typ[types.Int])
			if limit.Typ != nil {
				if _, ptr := limit.Typ.Underlying().(*types.Pointer); !ptr {
					lim = x.S.norm(limit)
				}
			}
			for _, val := range []bool{true, false} {
				s := x.S.clone()
				if !s.assume(res[0], val) {
					continue
				}
				f := freqT()
				var rejected, passed bool
				switch field {
				case "MaxCount": // 0 < v && v < f
					rejected = s.atLeast(lim, 1) && s.less(lim, f)
					passed = s.atMost(lim, 0) || s.lessEq(f, lim)
				case "MinCount": // 0 <= v && f < v
					rejected = s.atLeast(lim, 0) && s.less(f, lim)
					passed = s.atMost(lim, -1) || s.lessEq(lim, f)
				default:
					note("%s is not a limit of counts", field)
					return
				}
				// a frequency is not negative, and a word that is not known has none
				if val && !rejected {
					note("a word within the limit can be rejected (%s)", x.Pos())
				}
				if !val && !passed {
					note("a word beyond the limit can pass (%s)", x.Pos())
				}
			}
		},
	}
	e := e0(newEngine(p, c), fn)
	for _, q := range fn.Params {
		l := mkLeaf(e.Root, q, "")
		if namedIs(q.Type(), "corpus/dictionary", "Dictionary") {
			dic = l
		} else {
			id = l
		}
	}
	if dic == nil || id == nil || len(fn.FreeVars) != 1 {
		r.bad("limits", site, "the filter is not a function of a word, a dictionary and a limit")
		return
	}
	limit = mkLeaf(e.Root, fn.FreeVars[0], "")
	s := newState()
	s.nils[dic] = false
	e.Run(e.Root, s)
	r.absorb(e, site)
	if n == 0 {
		note("the filter never returns")
	}
	r.must(bad == "", "limits", site+" "+field, "%s", bad)
}

// anyRule: by induction over the filters, the result is whether one of them rejects.
func anyRule(r *Rep, fn *ssa.Function) {
	p := r.P
	site := fnName(fn)
	bad := ""
	note := func(f string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
	}
	hit := mkSym("hit", types.Typ[types.Bool]) // whether an earlier filter rejects
	var loopF *Frame
	var loopB *ssa.BasicBlock
	var acc *ssa.Phi
	var called *Term
	loops := 0
	c := &Client{
		Inline: func(k *Call) bool {
			return k.Fn != nil && p.inRepo(k.Fn) && k.In.Parent() != nil && k.Com.StaticCallee() != nil
		},
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
		Pin:  func(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok && v.Parent() == fn },
	}
	self, idP, dicP := fn.Params[0], (*ssa.Parameter)(nil), (*ssa.Parameter)(nil)
	for _, q := range fn.Params[1:] {
		if namedIs(q.Type(), "corpus/dictionary", "Dictionary") {
			dicP = q
		} else {
			idP = q
		}
	}
	if idP == nil || dicP == nil {
		r.bad("any", site, "the arguments are not a word and a dictionary")
		return
	}
	c.Loop = func(x *Ctx, h *ssa.BasicBlock) {
		if loopB != nil && (loopB != h || loopF != x.F) {
			note("there is more than one loop (%s)", p.posOf(h.Instrs[0]))
		}
		loopB, loopF = h, x.F
		loops++
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if b, isB := ph.Type().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
				acc = ph
				x.S.env[mkLeaf(x.F, ph, "")] = hit
			}
		}
		if acc == nil {
			x.S.bools[hit] = false
		}
		delete(x.S.auto, "called")
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if k.Com.StaticCallee() != nil || k.Com.IsInvoke() || strings.HasPrefix(k.Name, "builtin.") {
			return false, nil
		}
		s := x.S
		// a filter
		f := s.norm(x.Val(k.Com.Value))
		from := false
		if u, ok := f.Val.(*ssa.UnOp); ok && f.Kind == 'l' {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && s.norm(x.Val(ia.X)) == mkLeaf(x.E.Root, self, "") {
				from = true
				if loopB == nil {
					note("a filter is called outside a loop (%s)", x.Pos())
					return true, mkSym("rejects", types.Typ[types.Bool])
				}
				n, minus, h, ok := countLoop(ia.Index, loopB, func(from, to *ssa.BasicBlock) bool { return true })
				if !ok || minus != 0 || h != loopB {
					note("not every filter is applied (%s)", x.Pos())
				} else if c, ok := n.(*ssa.Call); !ok || calledName(&c.Call) != "len" || s.norm(x.Val(c.Call.Args[0])) != mkLeaf(x.E.Root, self, "") {
					note("not every filter is applied (%s)", x.Pos())
				}
			}
		}
		if !from {
			note("%s is called, which is not one of the filters (%s)", f, x.Pos())
		}
		if s.auto["called"] != "" {
			note("a filter is called twice (%s)", x.Pos())
		}
		for _, a := range k.Args {
			a = s.norm(a)
			if a != mkLeaf(x.E.Root, idP, "") && a != mkLeaf(x.E.Root, dicP, "") {
				note("a filter is asked about %s (%s)", a, x.Pos())
			}
		}
		s.auto["called"] = "y"
		called = mkSym("rejects", types.Typ[types.Bool])
		delete(s.bools, called)
		return true, called
	}
	// the outcome of this round must be: earlier, or this one
	agrees := func(s *State, v *Term) bool {
		v = s.norm(v)
		if s.auto["called"] == "" {
			// nothing new: only right when it does not matter
			return s.boolOf(hit) == 1 && s.boolOf(v) == 1
		}
		for _, rj := range []bool{true, false} {
			for _, h := range []bool{true, false} {
				t := s.clone()
				if !t.assume(called, rj) || !t.assume(hit, h) {
					continue
				}
				want := 0
				if rj || h {
					want = 1
				}
				if t.boolOf(v) != want {
					return false
				}
			}
		}
		return true
	}
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		if body := naturalLoop(to); body == nil || x.F.Fn != to.Parent() {
			return
		}
		k := predIndex(to, from)
		var v *Term = mkBool(false)
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if b, isB := ph.Type().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
				v = x.Val(ph.Edges[k])
			}
		}
		if !naturalLoop(to)[from] {
			if x.S.boolOf(v) != 0 {
				note("the search starts as if a filter had rejected the word (%s)", x.Pos())
			}
			return
		}
		if !agrees(x.S, v) {
			note("after a filter was applied, the outcome is %s (%s)", x.S.norm(v), p.posOf(from.Instrs[len(from.Instrs)-1]))
		}
	}
	exits := 0
	c.Exit = func(x *Ctx, res []*Term) {
		exits++
		s := x.S
		if s.auto["called"] == "" {
			// all were applied, or it is decided
			v := s.norm(res[0])
			if v == hit || s.boolOf(hit) >= 0 && s.boolOf(v) == s.boolOf(hit) {
				return
			}
			note("the result is %s (%s)", v, x.Pos())
			return
		}
		if s.boolOf(called) != 1 && s.boolOf(hit) != 1 {
			note("filters can be left out (%s)", x.Pos())
		}
		if !agrees(s, res[0]) {
			note("the result is %s (%s)", s.norm(res[0]), x.Pos())
		}
	}
	e := e0(newEngine(p, c), fn)
	e.Run(e.Root, newState())
	r.absorb(e, site)
	if loops == 0 || called == nil || exits == 0 {
		note("the filters are not applied")
	}
	r.must(bad == "", "any", site, "%s", bad)
}

// keptRule: every round that gets a word keeps it if and only if the filters
// do not reject it.
func keptRule(r *Rep, c *corpusType, fn *ssa.Function, any *ssa.Function) {
	p := r.P
	site := fnName(fn)
	bad := map[string]string{}
	note := func(rule, f string, args ...interface{}) {
		if bad[rule] == "" {
			bad[rule] = fmt.Sprintf(f, args...)
		}
	}
	vs := newVisits("word")
	vs.okExit = func(x *Ctx, from, to *ssa.BasicBlock) bool { return false }
	asked, keeps, sends, fromDoc := 0, 0, 0, 0
	type loop struct {
		f *Frame
		h *ssa.BasicBlock
	}
	var round *loop
	cl := &Client{
		Inline: func(k *Call) bool {
			return k.Fn != nil && p.inRepo(k.Fn) && k.Fn != any && k.Fn != c.idoc && !namedIsRecv(k.Fn, "corpus/dictionary", "Dictionary")
		},
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
	}
	keep := func(x *Ctx, v *Term) {
		s := x.S
		keeps++
		v = s.norm(v)
		switch {
		case s.auto["asked"] == "":
			note("kept", "a word is kept without asking the filters (%s)", x.Pos())
		case s.auto["asked"] != fmt.Sprint(v.id):
			note("kept", "%s is kept, the filters were asked about another word (%s)", v, x.Pos())
		case s.boolOf(mkSym("rejected", types.Typ[types.Bool])) != 0:
			note("kept", "a word that the filters reject can be kept (%s)", x.Pos())
		case s.auto["kept"] != "":
			note("kept", "a word can be kept twice (%s)", x.Pos())
		}
		s.auto["kept"] = "y"
	}
	rejected := mkSym("rejected", types.Typ[types.Bool])
	cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		switch {
		case isVerboseDo(k.Name):
			return true, nil
		case k.Fn == any:
			asked++
			a := s.norm(k.Args[1])
			if s.auto["asked"] != "" {
				note("kept", "the filters are asked twice in a round (%s)", x.Pos())
			}
			if v := vs.of(s, a); v != nil {
				vs.use(s, a)
			} else if !fromDictionary(a) {
				note("kept", "the filters are asked about %s (%s)", a, x.Pos())
			}
			if f := s.norm(k.Args[0]); !contentOfField(f, "Filters") {
				note("kept", "the filters are %s (%s)", f, x.Pos())
			}
			s.auto["asked"] = fmt.Sprint(a.id)
			delete(s.bools, rejected)
			f, h := innermost(x.F, x.I.Block())
			if h == nil || round != nil && (round.f != f || round.h != h) {
				note("kept", "words are filtered in more than one place (%s)", x.Pos())
			}
			round = &loop{f, h}
			return true, rejected
		case k.Fn == c.idoc:
			fromDoc++
			return true, mkOp("idoc", types.NewSlice(types.Typ[types.Int]), s.norm(k.Args[0]))
		case k.Name == "builtin.append" && isIntSlice(k.Com.Args[0].Type()):
			el := elements(s, k.Args[1])
			if len(el) != 1 || el[0] == nil {
				note("kept", "the words that are added are not known (%s)", x.Pos())
				return false, nil
			}
			keep(x, el[0])
			if v, ok := x.I.(*ssa.Call); ok {
				s.tags[mkLeaf(x.F, v, "")] = "list"
			}
		case k.Name == "builtin.copy" && isIntSlice(k.Com.Args[0].Type()):
			note("kept", "words are copied (%s)", x.Pos())
		}
		return false, nil
	}
	cl.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return
			}
			a := s.norm(x.Val(in.X))
			if a.Kind == 'o' && a.Op == "indexaddr" && isSignedInt(in.Type()) && fieldContent(s, a.Args[0]) {
				l := mkLeaf(x.F, in, "")
				s.tags[l] = vs.record(x, a.Args[1])
			}
		case *ssa.Store:
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok && isIntSlice(ia.X.Type()) {
				keep(x, x.Val(in.Val))
			} else if ok && isSignedInt(in.Val.Type()) {
				if al, ok := ia.X.(*ssa.Alloc); !ok || al.Comment != "varargs" {
					note("kept", "a word is stored in an array (%s)", x.Pos())
				}
			}
		case *ssa.Send:
			if isIntSlice(in.X.Type()) {
				sends++
				t := s.norm(x.Val(in.X))
				for t.Kind == 'o' && t.Op == "slice" {
					t = s.norm(t.Args[0])
				}
				if fieldContent(s, t) {
					note("delivered", "%s is sent, which was not filtered (%s)", t, x.Pos())
				}
			}
		}
	}
	cl.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		vs.next(x, from, to)
		s := x.S
		if round == nil || x.F != round.f || to != round.h || !naturalLoop(to)[from] {
			return
		}
		at := p.posOf(from.Instrs[len(from.Instrs)-1])
		switch {
		case s.auto["asked"] == "":
			note("kept", "a word can be dropped without asking the filters (%s)", at)
		case s.auto["kept"] == "" && s.boolOf(rejected) != 1:
			note("kept", "a word that the filters let pass can be dropped (%s)", at)
		}
		if s.auto["kept"] != "" {
			for l, tag := range s.tags {
				if tag != "list" {
					continue
				}
				ok := false
				for _, a := range sortedMem(s) {
					ok = ok || s.norm(s.mem[a]) == s.norm(l)
				}
				for _, in := range to.Instrs {
					if q, isPhi := in.(*ssa.Phi); isPhi && s.norm(x.Val(q.Edges[predIndex(to, from)])) == s.norm(l) {
						ok = true
					}
				}
				if !ok {
					note("kept", "the extended list is not kept (%s)", at)
				}
			}
		}
		delete(s.auto, "asked")
		delete(s.auto, "kept")
	}
	cl.Exit = func(x *Ctx, res []*Term) {
		s := x.S
		if len(res) == 1 && isErrorType(fn.Signature.Results().At(0).Type()) && s.nilOf(res[0]) == 0 {
			return
		}
		if len(res) == 1 && isIntSlice(fn.Signature.Results().At(0).Type()) {
			v := s.norm(res[0])
			if fieldContent(s, v) {
				note("delivered", "%s is returned, which was not filtered (%s)", v, x.Pos())
			}
		}
		if s.auto["asked"] != "" && s.auto["kept"] == "" && s.boolOf(rejected) != 1 {
			note("kept", "a word that the filters let pass can be dropped (%s)", x.Pos())
		}
	}
	e := e0(newEngine(p, cl), fn)
	st := newState()
	st.nils[mkLeaf(e.Root, fn.Params[0], "")] = false
	e.Run(e.Root, st)
	if round != nil {
		// the back edges are seen before the place where the filters are asked is known
		e.reset()
		bad = map[string]string{}
		ok := vs.okExit
		vs = newVisits("word")
		vs.okExit = ok
		e.Run(e.Root, st)
	}
	r.absorb(e, site)
	vs.settle(e)
	for _, k := range vs.order {
		v := vs.m[k]
		if v.undec != "" {
			note("kept", "%s", v.undec)
			continue
		}
		good := false
		for _, c := range v.dom {
			for _, a := range c.f.at {
				if a.Kind == 'o' && a.Op == "len" {
					good = good || v.is(vs.interval(0, linOf(a)))
				}
			}
		}
		if !good {
			note("kept", "the words {%s} are looked at (%s)", v.dom, v.where)
		}
		if vs.skips[k] != "" && asked > 0 {
			note("kept", "a word can be left out (%s)", vs.skips[k])
		}
	}
	if asked > 0 {
		if keeps == 0 {
			note("kept", "no word is kept")
		}
		r.must(bad["kept"] == "", "kept", site, "%s", bad["kept"])
	} else {
		// it delivers what another function kept, or nothing
		r.must(keeps == 0, "kept", site+" unfiltered", "words are kept without asking the filters")
		if fn == c.bw && fromDoc == 0 {
			note("delivered", "words are delivered that no filter saw")
		}
		if fn == c.bw && fromDoc > 1 {
			note("delivered", "the words are filtered more than once")
		}
	}
	if fn == c.bw && sends == 0 {
		note("delivered", "nothing is sent")
	}
	r.must(bad["delivered"] == "", "delivered", site, "%s", bad["delivered"])
}

func namedIsRecv(f *ssa.Function, pkg, name string) bool {
	return f.Signature.Recv() != nil && namedIs(f.Signature.Recv().Type(), pkg, name)
}

// fromDictionary: the id that the dictionary gave.
func fromDictionary(t *Term) bool {
	if t.Kind == 'o' && t.Op == "extract" {
		t = t.Args[0]
	}
	if t.Kind != 'l' {
		return false
	}
	v := t.Val
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	c, ok := v.(*ssa.Call)
	return ok && c.Call.StaticCallee() != nil && namedIsRecv(c.Call.StaticCallee(), "corpus/dictionary", "Dictionary")
}

// contentOfField: a value of the named type that was read from a field.
func contentOfField(t *Term, typ string) bool {
	n := namedOf(t.Typ)
	if n == nil || n.Obj().Name() != typ {
		return false
	}
	if t.Op == "memval" {
		return t.Args[0].Kind == 'o' && t.Args[0].Op == "fieldaddr"
	}
	u, ok := t.Val.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = u.X.(*ssa.FieldAddr)
	return ok && u.Op == token.MUL
}

// fieldContent: a list that was read from a field.
func fieldContent(s *State, t *Term) bool {
	t = canonical(s, s.norm(t), 0)
	if t.Op == "memval" {
		return t.Args[0].Kind == 'o' && t.Args[0].Op == "fieldaddr"
	}
	if u, ok := t.Val.(*ssa.UnOp); ok && t.Kind == 'l' {
		_, ok = u.X.(*ssa.FieldAddr)
		return ok
	}
	return false
}

// namedElem: the name of the elements of a list, if they have one.
func namedElem(t types.Type) string {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	if n := namedOf(sl.Elem()); n != nil {
		return n.Obj().Name()
	}
	return ""
}
