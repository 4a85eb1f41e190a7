package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C20",
		Technique: "abstract interpretation over go/ssa with linear constraints; one arbitrary iteration per loop, the indices a loop handles are derived exactly; sequence algebra for the list of open nodes",
		Explanation: "GetPath must return a prefix of the chain of parents, root first, whose length is shown to be the depth when that is from 1 to the length of the chain and the whole chain otherwise. " +
			"The chain must be collected by a loop that starts at the node and moves to Parent until there is none, and be reversed once. Hierarchical softmax must get the path with the configured depth, and its loop must handle every consecutive pair of it. " +
			"The tree must be built from one fresh leaf for each id; each round must take two different open nodes, give them different codes and the same fresh parent, and leave the other open nodes and the parent, until one is left; nothing else may write codes, parents or leaves.",
		Run: runC20,
	})
}

func runC20(r *Rep) {
	r.rule("depth", 1, "the path is cut exactly when the depth is positive and smaller")
	r.rule("chain", 1, "the path is the chain of parents, root first")
	r.rule("depth-arg", 1, "the depth is the configured one")
	r.rule("all-pairs", 1, "every step of the path is trained on")
	r.rule("leaves", 1, "every word has its own leaf")
	r.rule("merge", 1, "each round joins two nodes under one parent with different codes")
	r.rule("writers", 2, "codes and parents are written only where the tree is built")
	p := r.P
	get := p.method("pkg/corpus/dictionary/node", "Node", "GetPath")
	if get == nil {
		r.bad("depth", "pkg/corpus/dictionary/node", "Node.GetPath is not found")
		return
	}
	builders := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) || fn.Parent() != nil {
			continue
		}
		if res := fn.Signature.Results(); res.Len() == 1 && isNodeSlice(res.At(0).Type()) && fn != get {
			if sig := fn.Signature; sig.Recv() != nil && namedIs(sig.Recv().Type(), "corpus/dictionary", "Dictionary") {
				builders[fn] = true
			}
		}
	}
	pathRules(r, get)
	r.must(len(builders) == 1, "leaves", "pkg/corpus/dictionary", "%d functions build the tree", len(builders))
	for fn := range builders {
		treeRules(r, fn)
	}
	// uses of the path
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == get {
					uses = true
					depthArg(r, fn, c)
				}
			}
		}
		if uses {
			pathUse(r, fn, get)
		}
	}
	// writers
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				id := fieldIDOf(fa)
				if !strings.HasSuffix(id.typ, "/node.Node") || id.field != "Parent" && id.field != "Code" {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh && (intConst(st.Val, 0) || isNilConst(st.Val)) {
					continue
				}
				good := false
				for f := range builders {
					good = good || f == fn || calledOnlyFrom(p, fn, f, map[*ssa.Function]bool{})
				}
				r.must(good, "writers", fnName(fn)+" "+id.field, "%s of a node is changed outside of the construction of the tree (%s)", id.field, p.posOf(in))
			}
		}
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// calledOnlyFrom reports a helper whose only callers are f and its helpers.
func calledOnlyFrom(p *Prog, fn, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == f {
		return true
	}
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if fn.Parent() != nil {
		return calledOnlyFrom(p, fn.Parent(), f, seen)
	}
	if p.addrTaken[fn] {
		return false
	}
	cs := p.callsOf(fn)
	for _, c := range cs {
		if !calledOnlyFrom(p, c.Parent(), f, seen) {
			return false
		}
	}
	return len(cs) > 0
}

func isNode(t types.Type) bool { return namedIs(t, "dictionary/node", "Node") }

func isNodeSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ptr := sl.Elem().Underlying().(*types.Pointer)
	return ptr && isNode(sl.Elem())
}

// pathRules: what GetPath returns.
func pathRules(r *Rep, fn *ssa.Function) {
	p := r.P
	site := fnName(fn)
	if len(fn.Params) != 2 {
		r.bad("depth", site, "it does not take a depth only")
		return
	}
	bad, badChain := "", ""
	note := func(b *string, f string, args ...interface{}) {
		if *b == "" {
			*b = fmt.Sprintf(f, args...)
		}
	}
	vs := newVisits("reversed")
	type chainLoop struct {
		f  *Frame
		h  *ssa.BasicBlock
		ph *ssa.Phi
	}
	chains := map[string]chainLoop{}
	var chain *chainLoop
	loadedAt := map[*Term][2]*Term{} // a loaded node: slice and index
	once := false
	revLoops := map[string]bool{}
	aliases := map[string]bool{}
	ownCache := map[string]bool{} // what sync.Once finds empty
	c := &Client{
		Inline: func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) },
		Pin: func(v ssa.Value) bool {
			q, ok := v.(*ssa.Parameter)
			return ok && q.Parent() == fn
		},
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
	}
	acc := varOf
	isChain := func(s *State, t *Term) *chainLoop {
		t = s.norm(t)
		if t.Kind == 'l' {
			if ph, ok := t.Val.(*ssa.Phi); ok && isNode(ph.Type()) && naturalLoop(ph.Block()) != nil {
				k := fmt.Sprintf("%d:%d", t.Frame.id, ph.Block().Index)
				if _, ok := chains[k]; !ok {
					chains[k] = chainLoop{t.Frame, ph.Block(), ph}
				}
				cl := chains[k]
				return &cl
			}
		}
		return nil
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		switch {
		case k.Name == "sync.Once.Do":
			once = true
			s.auto["once"] = "y"
		case k.Name == "builtin.append" && len(k.Args) == 2 && isNodeSlice(k.Com.Args[0].Type()):
			v, _ := x.I.(*ssa.Call)
			if v == nil {
				return false, nil
			}
			el := elements(s, k.Args[1])
			cl := (*chainLoop)(nil)
			order := "leaf"
			base := k.Args[0]
			if len(el) == 1 && el[0] != nil {
				cl = isChain(s, el[0])
			} else if el0 := elements(s, k.Args[0]); len(el0) == 1 && el0[0] != nil {
				cl = isChain(s, el0[0])
				order, base = "root", k.Args[1]
			}
			f, h := innermost(x.F, x.I.Block())
			if cl == nil || f != cl.f || h != cl.h {
				if f != nil || len(el) != 0 {
					note(&badChain, "a node that is not the next of the chain is added to the path (%s)", x.Pos())
				}
				return false, nil
			}
			if chain != nil && (chain.f != cl.f || chain.h != cl.h) {
				note(&badChain, "the chain is collected more than once (%s)", x.Pos())
			}
			chain = cl
			if s.auto["took"] != "" {
				note(&badChain, "a node is added to the path twice (%s)", x.Pos())
			}
			s.auto["took"] = order + " " + acc(s, base)
			for _, a := range sortedMem(s) {
				if id, ok := fieldOfAddr(a); ok && acc(s, base) == fmt.Sprint("c", a.id) && storedOnlyIn(p, id, x.F.Fn) {
					ownCache[acc(s, base)] = true
				}
			}
			s.tags[mkLeaf(x.F, v, "")] = "chain"
		case k.Name == "slices.Reverse" && len(k.Args) == 1 && isNodeSlice(k.Args[0].Typ):
			if s.auto["acc"] == "" || s.auto["acc"] != acc(s, k.Args[0]) || s.auto["order"] != "leaf" {
				note(&badChain, "something else than the chain is reversed (%s)", x.Pos())
			}
			s.auto["order"] = "root"
			return true, nil
		case k.Name == "builtin.copy" && isNodeSlice(k.Args[0].Typ):
			note(&badChain, "nodes are copied (%s)", x.Pos())
		}
		return false, nil
	}
	mirror := map[string]*Term{}
	c.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.UnOp:
			if ia, ok := in.X.(*ssa.IndexAddr); ok && in.Op == token.MUL && isNodeSlice(ia.X.Type()) {
				if s.auto["swap"] != "" {
					return
				}
				loadedAt[mkLeaf(x.F, in, "")] = [2]*Term{s.norm(x.Val(ia.X)), s.norm(x.Val(ia.Index))}
			}
		case *ssa.Slice:
			if isNodeSlice(in.X.Type()) {
				base := s.norm(x.Val(in.X))
				for _, b := range []ssa.Value{in.Low, in.High} {
					if b != nil && !(s.atLeast(x.Val(b), 0) && s.lessEq(x.Val(b), s.lenOf(base))) {
						note(&bad, "the path is cut at %s, which may be outside of it (%s)", x.Val(b), x.Pos())
					}
				}
			}
		case *ssa.Store:
			ia, ok := in.Addr.(*ssa.IndexAddr)
			if !ok || !isNodeSlice(ia.X.Type()) {
				return
			}
			base, i := s.norm(x.Val(ia.X)), s.norm(x.Val(ia.Index))
			v := s.norm(x.Val(in.Val))
			from, ok := loadedAt[v]
			if !ok {
				if _, isArr := in.Addr.(*ssa.IndexAddr).X.Type().Underlying().(*types.Pointer); !isArr {
					note(&badChain, "an entry of the path is overwritten (%s)", x.Pos())
				}
				return
			}
			last := linOf(s.lenOf(base)).plus(lin{c: 1}, -1)
			sum := linOf(i).plus(linOf(from[1]), 1)
			switch {
			case from[0] != base || !s.equal(mkLin(sum), mkLin(last)):
				note(&badChain, "an entry of the path is not exchanged with its mirror image (%s)", x.Pos())
			case s.auto["acc"] == "" || acc(s, base) != s.auto["acc"]:
				note(&badChain, "something else than the collected chain is reversed (%s)", x.Pos())
			case s.auto["order"] != "leaf":
				note(&badChain, "the chain is reversed again (%s)", x.Pos())
			case s.auto["swap"] == "":
				s.auto["swap"] = fmt.Sprint(i.id, " ", from[1].id)
				vs.record(x, i)
				if v := vs.m[vs.order[len(vs.order)-1]]; v.h != nil {
					revLoops[loopKeyOf(v.f, v.h)] = true
				}
				mirror[vs.order[len(vs.order)-1]] = s.lenOf(base)
			case s.auto["swap"] == fmt.Sprint(from[1].id, " ", i.id):
				s.auto["swap"] = "done"
			default:
				note(&badChain, "two other entries of the path are exchanged (%s)", x.Pos())
			}
		}
	}
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		s := x.S
		for _, k := range sortedKeys(chains) {
			cl := chains[k]
			if x.F != cl.f {
				continue
			}
			body := naturalLoop(cl.h)
			if !body[from] {
				continue
			}
			i := predIndex(to, from)
			switch {
			case to == cl.h:
				// the next one is the parent
				nx := s.norm(x.Val(cl.ph.Edges[i]))
				cur := mkLeaf(cl.f, cl.ph, "")
				if !isParentOf(x, nx, cur) {
					note(&badChain, "the node after %s is %s", cur, nx)
				}
				o := strings.SplitN(s.auto["took"], " ", 2)
				if len(o) != 2 {
					note(&badChain, "a node of the chain is left out (%s)", p.posOf(from.Instrs[len(from.Instrs)-1]))
					break
				}
				delete(s.auto, "took")
				// what was appended is kept
				kept := false
				for l, tag := range s.tags {
					if tag == "chain" && keptAs(x, l, o[1], to, i) {
						kept = true
					}
				}
				if !kept {
					note(&badChain, "what the chain is collected in is not what it is added to")
				}
			case !body[to]:
				if s.nilOf(mkLeaf(cl.f, cl.ph, "")) != 1 || s.auto["took"] != "" {
					note(&badChain, "the collection of the chain ends before the root (%s)", p.posOf(from.Instrs[len(from.Instrs)-1]))
				}
			}
		}
		// the start of the chain
		if body := naturalLoop(to); body != nil && !body[from] {
			for _, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if isNode(ph.Type()) {
					if v := s.norm(x.Val(ph.Edges[predIndex(to, from)])); v != s.norm(mkLeaf(x.E.Root, fn.Params[0], "")) {
						note(&badChain, "the chain starts at %s", v)
					}
					s.auto["started"] = "y"
					// every list that may be extended is empty here
					for _, a := range sortedMem(s) {
						if v := s.mem[a]; isNodeSlice(v.Typ) {
							if l := s.ivalOf(linOf(s.lenOf(v))); l.hasHi && l.hi <= 0 || s.nilOf(v) == 1 {
								s.auto["empty"] += fmt.Sprint(" c", a.id, " ")
							} else {
								s.auto["filled"] += fmt.Sprint(" c", a.id, " ")
							}
						}
					}
					for _, in := range to.Instrs {
						if q, ok := in.(*ssa.Phi); ok && isNodeSlice(q.Type()) {
							v := s.norm(x.Val(q.Edges[predIndex(to, from)]))
							if l := s.ivalOf(linOf(s.lenOf(v))); l.hasHi && l.hi <= 0 || s.nilOf(v) == 1 {
								s.auto["empty"] += fmt.Sprint(" v", mkLeaf(x.F, q, "").id, " ")
							}
						}
					}
				}
			}
		}
		for h := from; h != nil; h = h.Idom() {
			body := naturalLoop(h)
			if body != nil && body[from] && (to == h || !body[to]) && s.auto["swap"] != "" {
				if s.auto["swap"] != "done" {
					note(&badChain, "an exchange is not completed (%s)", p.posOf(from.Instrs[len(from.Instrs)-1]))
				}
				delete(s.auto, "swap")
			}
		}
		vs.next(x, from, to)
		if body := naturalLoop(from); body != nil && !body[to] {
			if revLoops[loopKeyOf(x.F, from)] {
				s.auto["order"] = "root"
			}
		}
	}
	// the collected chain is the content of the accumulator when the loop ends
	prevNext := c.Next
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		prevNext(x, from, to)
		for _, k := range sortedKeys(chains) {
			cl := chains[k]
			if x.F == cl.f && naturalLoop(cl.h)[from] && !naturalLoop(cl.h)[to] && chainAcc[k] != "" {
				a := strings.SplitN(chainAcc[k], " ", 2)
				if !strings.Contains(x.S.auto["empty"], " "+a[1]+" ") && !(x.S.auto["once"] != "" && ownCache[a[1]] && !strings.Contains(x.S.auto["filled"], " "+a[1]+" ")) {
					note(&badChain, "the list that the chain is collected in is not empty at the start")
				}
				x.S.auto["order"], x.S.auto["acc"] = a[0], a[1]
			}
		}
	}
	chainAcc = map[string]string{}
	onTook := c.Call
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		was := x.S.auto["took"]
		h, res := onTook(x, k)
		if now := x.S.auto["took"]; now != was && chain != nil {
			key := fmt.Sprintf("%d:%d", chain.f.id, chain.h.Index)
			if old := chainAcc[key]; old != "" && old != now {
				note(&badChain, "the chain is collected in two places (%s)", x.Pos())
			}
			chainAcc[key] = now
		}
		return h, res
	}
	built := 0
	finish := func(x *Ctx) {
		s := x.S
		if s.auto["order"] == "" {
			return
		}
		if s.auto["order"] != "root" {
			note(&badChain, "the path is not turned around")
			return
		}
		built++
	}
	c.Ret = func(x *Ctx, res []*Term) {
		if x.F.Kind == "callback" {
			for _, a := range sortedMem(x.S) {
				if v := x.S.norm(x.S.mem[a]); isNodeSlice(v.Typ) && fmt.Sprint("v", v.id) == x.S.auto["acc"] {
					aliases[fmt.Sprint("c", a.id)] = true
				}
			}
			if x.S.auto["order"] == "" {
				note(&badChain, "the path may not be collected")
			}
			finish(x)
		}
	}
	exits := 0
	c.Exit = func(x *Ctx, res []*Term) {
		s := x.S
		if len(res) != 1 {
			return
		}
		exits++
		depth := mkLeaf(x.E.Root, fn.Params[1], "")
		t := s.norm(res[0])
		base, lo, hi := t, mkInt(0), s.lenOf(t)
		if t.Kind == 'o' && t.Op == "slice" {
			base, lo, hi = t.Args[0], t.Args[1], t.Args[2]
		}
		if !s.equal(lo, mkInt(0)) {
			note(&bad, "the path does not start at the root but at position %s (%s)", lo, x.Pos())
		}
		n := s.lenOf(base)
		try := func(what string, want *Term, cons ...linCon) {
			q := s.clone()
			for _, c := range cons {
				if !q.addLin(c.f, c.v) {
					return
				}
			}
			if q.dead || polyhedron(linsOf(q)).empty() {
				return
			}
			if !q.equal(hi, want) && !(polyhedron(linsOf(q)).entails(linCon{linOf(hi).plus(linOf(want), -1), ival{hasLo: true, hasHi: true}})) {
				note(&bad, "with %s the path has the length %s, not %s (%s)", what, hi, want, x.Pos())
			}
		}
		d, l := linOf(depth), linOf(n)
		try("a depth of zero or less", n, linCon{d, ival{hasHi: true, hi: 0}})
		try("a depth larger than the path", n, linCon{d, ival{hasLo: true, lo: 1}}, linCon{d.plus(l, -1), ival{hasLo: true, lo: 1}})
		try("a smaller depth", depth, linCon{d, ival{hasLo: true, lo: 1}}, linCon{d.plus(l, -1), ival{hasHi: true}})
		a := acc(s, base)
		if s.auto["once"] == "" {
			if s.auto["order"] == "" {
				note(&badChain, "the path may not be collected (%s)", x.Pos())
			}
			finish(x)
		}
		for _, k := range sortedKeys(chainAcc) {
			if w := strings.SplitN(chainAcc[k], " ", 2)[1]; w != a && !aliases[a] {
				note(&badChain, "what is returned is not the chain (%s)", x.Pos())
			}
		}
	}
	e := e0(newEngine(p, c), fn)
	// first to find what the chain is collected in, and where it is reversed
	for i := 0; i < 3; i++ {
		if i > 0 {
			e.reset()
		}
		bad, badChain, exits, built = "", "", 0, 0
		vs = newVisits("reversed")
		e.Run(e.Root, newState())
	}
	r.absorb(e, site)
	vs.settle(e)
	r.must(bad == "" && exits > 0, "depth", site, "%s", bad)
	if len(chains) != 1 || chain == nil {
		note(&badChain, "%d loops collect the chain", len(chains))
	}
	revs := 0
	for _, k := range vs.order {
		v := vs.m[k]
		revs++
		if v.undec != "" {
			note(&badChain, "%s", v.undec)
			continue
		}
		okDom := false
		n := linOf(mirror[k])
		lens := map[string]lin{"": n}
		for _, c := range v.dom {
			for _, a := range c.f.at {
				if a != vs.sym && a.Kind == 'o' && a.Op == "len" {
					lens[fmt.Sprint(a.id)] = linOf(a)
				}
			}
		}
		for _, n := range lens {
			for slack := int64(1); slack <= 2; slack++ {
				// 0 <= i, 2i <= n-slack; or n-1-i in that
				d := domain{"lo": {linOf(vs.sym), ival{hasLo: true}}, "hi": {linOf(vs.sym).times(2).plus(n, -1), ival{hasHi: true, hi: -slack}}}
				okDom = okDom || v.is(d)
				d = domain{"hi": {linOf(vs.sym).plus(n, -1), ival{hasHi: true, hi: -1}}, "lo": {linOf(vs.sym).times(2).plus(n, -1), ival{hasLo: true, lo: slack - 2}}}
				okDom = okDom || v.is(d)
			}
		}
		for _, c := range v.dom {
			for _, a := range c.f.at {
				if a.Kind == 'o' && a.Op == "/" && a.Args[0].Kind == 'o' && a.Args[0].Op == "len" && a.Args[1] == mkInt(2) {
					okDom = okDom || v.is(vs.interval(0, linOf(a)))
				}
			}
		}
		if !okDom {
			note(&badChain, "the entries {%s} are exchanged with their mirror images", v.dom)
		}
	}
	if once && built == 0 {
		note(&badChain, "the path is never completed")
	}
	r.must(badChain == "", "chain", site, "%s", badChain)
}

var chainAcc map[string]string

func linsOf(s *State) []linCon {
	var out []linCon
	for _, f := range s.lins {
		out = append(out, linCon{f.f, *f.v.clone()})
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == from {
			return i
		}
	}
	return 0
}

// keptAs reports that a value is what the variable holds in the next iteration.
func keptAs(x *Ctx, l *Term, v string, h *ssa.BasicBlock, i int) bool {
	s := x.S
	for _, a := range sortedMem(s) {
		if fmt.Sprint("c", a.id) == v && s.norm(s.mem[a]) == s.norm(l) {
			return true
		}
	}
	for _, in := range h.Instrs {
		if q, ok := in.(*ssa.Phi); ok && fmt.Sprint("v", mkLeaf(x.F, q, "").id) == v && s.norm(x.Val(q.Edges[i])) == s.norm(l) {
			return true
		}
	}
	return false
}

// isParentOf reports a value that was loaded from the Parent of a node.
func isParentOf(x *Ctx, v, n *Term) bool {
	if v.Kind != 'l' {
		return false
	}
	var a *Term
	if v.Op == "memval" {
		a = v.Args[0]
	} else if u, ok := v.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
		a = x.E.val(v.Frame, u.X, x.S)
	}
	id, ok := fieldOfAddr(a)
	return ok && id.field == "Parent" && x.S.norm(a.Args[0]) == x.S.norm(n)
}

// depthArg: the depth that a path is asked for comes from the options.
func depthArg(r *Rep, fn *ssa.Function, c ssa.CallInstruction) {
	p := r.P
	site := fnName(fn)
	bad := ""
	var check func(v ssa.Value, d int)
	check = func(v ssa.Value, d int) {
		for _, src := range p.sources(v) {
			id, ok := p.fieldOfValue(src)
			switch {
			case !ok || d > 4:
				bad = fmt.Sprintf("the depth is %s (%s)", src, p.posOf(c))
			case strings.HasSuffix(id.typ, ".Options"):
				if id.field != "MaxDepth" {
					bad = fmt.Sprintf("the depth is the option %s (%s)", id.field, p.posOf(c))
				}
			default:
				n := 0
				for _, g := range p.Funcs {
					if !p.inRepo(g) {
						continue
					}
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if st, ok := in.(*ssa.Store); ok {
								if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldIDOf(fa) == id {
									n++
									check(st.Val, d+1)
								}
							}
						}
					}
				}
				if n == 0 {
					bad = fmt.Sprintf("%s is never set", id)
				}
			}
		}
	}
	check(c.Common().Args[1], 0)
	r.must(bad == "", "depth-arg", site, "%s", bad)
}

// floatExit reports a loop exit that depends on a floating point value.
func floatExit(from *ssa.BasicBlock) bool {
	if len(from.Instrs) == 0 {
		return false
	}
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	return floatCond(iff.Cond, 0)
}

// floatCond reports a condition that consists of comparisons of floating point values.
func floatCond(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	// a value that is chosen by such conditions
	chosen := func(b *ssa.BasicBlock) bool {
		for b != nil && len(b.Instrs) > 0 {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				return floatCond(iff.Cond, d+1)
			}
			if len(b.Preds) != 1 {
				return false
			}
			b = b.Preds[0]
		}
		return false
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return isFloat(v.X.Type()) && isBool(v.Type())
	case *ssa.UnOp:
		return v.Op == token.NOT && floatCond(v.X, d+1)
	case *ssa.Phi:
		for i, e := range v.Edges {
			if _, isConst := e.(*ssa.Const); !isConst && !floatCond(e, d+1) {
				return false
			}
			if !chosen(v.Block().Preds[i]) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 || !isBool(v.Type()) {
			return false
		}
		for _, b := range f.Blocks {
			switch last := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.If:
				if !floatCond(last.Cond, d+1) {
					return false
				}
			case *ssa.Return:
				if _, isConst := last.Results[0].(*ssa.Const); !isConst && !floatCond(last.Results[0], d+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// pathUse: the function that gets a path trains on every step of it.
func pathUse(r *Rep, fn, get *ssa.Function) {
	p := r.P
	site := fnName(fn)
	bad := ""
	note := func(f string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
	}
	vs := newVisits("step")
	vs.okExit = func(x *Ctx, from, to *ssa.BasicBlock) bool { return floatExit(from) }
	var path *Term
	type at struct{ i *Term }
	nodes := map[*Term]at{}
	c := &Client{
		Inline: func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) && k.Fn != get },
		Once:   func(*Frame, *ssa.BasicBlock) bool { return true },
		Next:   vs.next,
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if k.Fn == get {
			if v, ok := x.I.(*ssa.Call); ok {
				if path != nil && path != mkLeaf(x.F, v, "") {
					note("there are two paths")
				}
				path = mkLeaf(x.F, v, "")
				x.S.addLin(linOf(mkLen(path)), ival{hasLo: true, lo: 1})
				return true, path
			}
		}
		return false, nil
	}
	// position of a node in the path
	posOf := func(s *State, t *Term) *Term {
		if a, ok := nodes[s.norm(t)]; ok {
			return s.norm(a.i)
		}
		return nil
	}
	c.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.IndexAddr:
			if isNodeSlice(in.X.Type()) {
				base := s.norm(x.Val(in.X))
				i := s.norm(x.Val(in.Index))
				if base.Kind == 'o' && base.Op == "slice" {
					i = mkLin(linOf(base.Args[1]).plus(linOf(i), 1))
					base = base.Args[0]
				}
				if base == path && path != nil {
					for _, ref := range *in.Referrers() {
						if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
							nodes[mkLeaf(x.F, u, "")] = at{i}
						}
					}
				}
			}
		case *ssa.FieldAddr:
			if !isNode(in.X.Type()) {
				return
			}
			n := x.Val(in.X)
			i := posOf(s, n)
			id := fieldIDOf(in)
			if i == nil {
				return
			}
			switch id.field {
			case "Vector":
				if s.auto["inner"] == "" {
					s.auto["inner"] = fmt.Sprint(i.id)
					vs.record(x, i)
				}
				if old := s.auto["code"]; old != "" && old != codeKey(s, i, 1) {
					note("the code of another node than the next one is used (%s)", x.Pos())
				}
				s.auto["vec"] = codeKey(s, i, 1)
			case "Code":
				if old := s.auto["vec"]; old != "" && old != codeKey(s, i, 0) {
					note("the code of another node than the next one is used (%s)", x.Pos())
				}
				s.auto["code"] = codeKey(s, i, 0)
				s.auto["codes"] = "y"
			}
		}
	}
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		vs.next(x, from, to)
		s := x.S
		for _, k := range vs.order {
			v := vs.m[k]
			body := naturalLoop(v.h)
			if v.h != nil && v.f == x.F && body[from] && (to == v.h || !body[to]) {
				if to == v.h && s.auto["codes"] == "" {
					note("a step is made without the code of the next node")
				}
				for _, k := range []string{"code", "codes", "vec", "inner"} {
					delete(s.auto, k)
				}
			}
		}
	}
	e := e0(newEngine(p, c), fn)
	e.Run(e.Root, newState())
	r.absorb(e, site)
	vs.settle(e)
	if len(vs.order) == 0 || path == nil {
		note("no loop over the path is found")
	}
	for _, k := range vs.order {
		v := vs.m[k]
		if v.undec != "" {
			note("%s", v.undec)
		} else if !v.is(vs.interval(0, linOf(mkLen(path)).plus(lin{c: 1}, -1)), linCon{linOf(mkLen(path)), ival{hasLo: true, lo: 1}}) {
			note("the steps {%s} of the path are trained on", v.dom)
		}
	}
	r.must(bad == "", "all-pairs", site, "%s", bad)
}

func codeKey(s *State, i *Term, k int64) string {
	return fmt.Sprint(mkLin(linOf(i).plus(lin{c: 1}, k)).id)
}

// seg is a part of a list of nodes: a range of another list, or one node.
type seg struct {
	base, lo, hi *Term
	node         *Term
}

func (g seg) String() string {
	if g.node != nil {
		return g.node.String()
	}
	return fmt.Sprintf("%s[%s:%s]", g.base, g.lo, g.hi)
}

// treeRules: the construction of the tree.
func treeRules(r *Rep, fn *ssa.Function) {
	p := r.P
	site := fnName(fn)
	badL, badM := "", ""
	note := func(b *string, f string, args ...interface{}) {
		if *b == "" {
			*b = fmt.Sprintf(f, args...)
		}
	}
	vs := newVisits("leaf")
	c := &Client{
		Inline: func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) },
		Once:   func(*Frame, *ssa.BasicBlock) bool { return true },
		Pin: func(v ssa.Value) bool {
			q, ok := v.(*ssa.Parameter)
			return ok && q.Parent() == fn
		},
	}
	isFresh := func(x *Ctx, t *Term) bool {
		t = x.S.norm(t)
		if t.Kind != 'l' {
			return false
		}
		a, ok := t.Val.(*ssa.Alloc)
		if !ok || !a.Heap || !isNode(a.Type()) {
			return false
		}
		// made in the same iteration
		f, h := innermost(x.F, x.I.Block())
		g, k := innermost(t.Frame, a.Block())
		return f == g && h == k
	}
	stored := map[*Term]map[string]bool{} // slice -> visits
	size := map[*Term]*Term{}
	copied := map[*Term]*Term{}
	sorted := map[*Term]bool{}
	elem := map[*Term][2]*Term{} // loaded node
	seqs := map[*Term][]seg{}
	var merge *ssa.BasicBlock
	var mergeF *Frame
	var seqOf func(s *State, t *Term) []seg
	seqOf = func(s *State, t *Term) []seg {
		t = s.norm(t)
		if el := elements(s, t); len(el) > 0 {
			var out []seg
			for _, n := range el {
				if n == nil {
					return nil
				}
				out = append(out, seg{node: s.norm(n)})
			}
			return out
		}
		if t.Kind == 'o' && t.Op == "slice" {
			in := seqOf(s, t.Args[0])
			lo, hi := t.Args[1], t.Args[2]
			if len(in) == 1 && in[0].node == nil {
				b := in[0]
				return []seg{{base: b.base, lo: mkLin(linOf(b.lo).plus(linOf(lo), 1)), hi: mkLin(linOf(b.lo).plus(linOf(hi), 1))}}
			}
			return nil
		}
		if q, ok := seqs[t]; ok {
			return q
		}
		return []seg{{base: t, lo: mkInt(0), hi: s.lenOf(t)}}
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		switch {
		case strings.HasPrefix(k.Name, "sort.") && len(k.Args) > 0 && k.Name != "sort.Search":
			t := s.norm(k.Args[0])
			if t.Kind == 'o' && t.Op == "iface" {
				t = s.norm(t.Args[0])
			}
			if isNodeSlice(t.Typ) {
				sorted[t] = true
			}
		case strings.HasPrefix(k.Name, "slices.Sort") && len(k.Args) > 0:
			sorted[s.norm(k.Args[0])] = true
		case k.Name == "builtin.append" && len(k.Args) == 2 && isNodeSlice(k.Com.Args[0].Type()):
			if v, ok := x.I.(*ssa.Call); ok {
				a, b := seqOf(s, k.Args[0]), seqOf(s, k.Args[1])
				l := mkLeaf(x.F, v, "")
				delete(seqs, l)
				if a != nil && b != nil {
					seqs[l] = append(append([]seg{}, a...), b...)
				}
				delete(s.auto, "shift")
			}
		case k.Name == "slices.Insert" && len(k.Args) == 3 && isNodeSlice(k.Args[0].Typ):
			if v, ok := x.I.(*ssa.Call); ok {
				a, b := seqOf(s, k.Args[0]), seqOf(s, k.Args[2])
				l := mkLeaf(x.F, v, "")
				delete(seqs, l)
				if a != nil && len(b) == 1 {
					seqs[l] = append(append([]seg{}, a...), b...) // as a set
				}
			}
		case k.Name == "builtin.copy" && isNodeSlice(k.Args[0].Typ):
			d, f := s.norm(k.Args[0]), s.norm(k.Args[1])
			if d.Kind == 'o' && d.Op == "slice" && f.Kind == 'o' && f.Op == "slice" && d.Args[0] == f.Args[0] &&
				s.equal(d.Args[1], mkLin(linOf(f.Args[1]).plus(lin{c: 1}, 1))) && s.equal(d.Args[2], s.lenOf(d.Args[0])) &&
				(s.equal(f.Args[2], d.Args[2]) || s.equal(f.Args[2], mkLin(linOf(d.Args[2]).plus(lin{c: 1}, -1)))) && s.auto["shift"] == "" {
				// everything from an index on moves up by one; the last is lost
				s.auto["shift"] = fmt.Sprint(d.Args[0].id, " ", f.Args[1].id)
				return false, nil
			}
			if s.equal(s.lenOf(d), s.lenOf(f)) && s.auto["merging"] == "" && copied[d] == nil {
				copied[d] = f
				return false, nil
			}
			s.auto["broken"] = x.Pos()
		}
		return false, nil
	}
	c.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.UnOp:
			if ia, ok := in.X.(*ssa.IndexAddr); ok && in.Op == token.MUL && isNodeSlice(ia.X.Type()) {
				base := s.norm(x.Val(ia.X))
				elem[mkLeaf(x.F, in, "")] = [2]*Term{base, s.norm(x.Val(ia.Index))}
				if s.auto["open"] == "" && x.F.Kind != "callback" {
					if _, h := innermost(x.F, x.I.Block()); h != nil {
						s.auto["open"] = varOf(s, base)
					}
				}
			}
		case *ssa.Store:
			switch addr := in.Addr.(type) {
			case *ssa.IndexAddr:
				if !isNodeSlice(addr.X.Type()) {
					return
				}
				base, i, v := s.norm(x.Val(addr.X)), s.norm(x.Val(addr.Index)), s.norm(x.Val(in.Val))
				if a := s.auto["shift"]; a != "" {
					if a != fmt.Sprint(base.id, " ", i.id) {
						note(&badM, "what is shifted up does not make room for what is inserted (%s)", x.Pos())
					}
					q := seqs[base]
					if len(q) < 2 || q[len(q)-1].node == nil {
						note(&badM, "an open node is lost (%s)", x.Pos())
						return
					}
					s.auto["ins"] = fmt.Sprint(base.id, " ", v.id)
					return
				}
				if s.auto["merging"] != "" {
					s.auto["broken"] = x.Pos()
				}
				if !isFresh(x, v) {
					note(&badL, "what is stored for id %s is not its own new node (%s)", i, x.Pos())
					return
				}
				if s.auto["leaf"] != "" && s.auto["leaf"] != fmt.Sprint(v.id, " ", i.id) {
					note(&badL, "two nodes are made for an id (%s)", x.Pos())
				}
				s.auto["leaf"] = fmt.Sprint(v.id, " ", i.id)
				key := strings.TrimPrefix(vs.record(x, i), "visit ")
				s.auto["used "+key] = "y"
				if stored[base] == nil {
					stored[base] = map[string]bool{}
				}
				stored[base][key] = true
				size[base] = canonical(s, s.norm(s.lenOf(base)), 0)
			case *ssa.FieldAddr:
				if !isNode(addr.X.Type()) {
					return
				}
				id := fieldIDOf(addr).field
				if id != "Parent" && id != "Code" {
					return
				}
				n, v := s.norm(x.Val(addr.X)), s.norm(x.Val(in.Val))
				if isFresh(x, n) && (isNilConst(in.Val) || intConst(in.Val, 0)) {
					return
				}
				f, h := innermost(x.F, x.I.Block())
				if h == nil || merge != nil && (merge != h || mergeF != f) {
					note(&badM, "%s is written outside of the rounds (%s)", id, x.Pos())
					return
				}
				merge, mergeF = h, f
				s.auto["merging"] = "y"
				if _, ok := elem[n]; !ok {
					note(&badM, "%s of something else than an open node is written (%s)", id, x.Pos())
					return
				}
				key := fmt.Sprint(elem[n][0].id, "|", elem[n][1].id)
				if id == "Code" {
					if n, ok := constInt(v); ok {
						s.auto["code "+key] = fmt.Sprint(n)
					} else {
						note(&badM, "a code is %s (%s)", v, x.Pos())
					}
				} else {
					if !isFresh(x, v) {
						note(&badM, "the parent is %s, which is not new (%s)", v, x.Pos())
					}
					if s.auto["parent "+key] != "" {
						note(&badM, "a parent is replaced (%s)", x.Pos())
					}
					s.auto["parent "+key] = fmt.Sprint(v.id)
					s.auto["merged"] = fmt.Sprint(v.id)
				}
			}
		}
	}
	openVar := ""
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		vs.next(x, from, to)
		s := x.S
		for h := from; h != nil; h = h.Idom() {
			body := naturalLoop(h)
			if body == nil || !body[from] || body[to] && to != h {
				continue
			}
			delete(s.auto, "leaf")
			if merge == nil || h != merge || x.F != mergeF || s.auto["merging"] == "" {
				continue
			}
			where := p.posOf(from.Instrs[len(from.Instrs)-1])
			if to != h {
				note(&badM, "a round is not completed (%s)", where)
				continue
			}
			if why := roundEnd(x, h, predIndex(h, from), elem, seqOf, &openVar); why != "" {
				note(&badM, "%s (%s)", why, where)
			}
			for k := range s.auto {
				if strings.HasPrefix(k, "code ") || strings.HasPrefix(k, "parent ") || k == "merged" || k == "shift" || k == "ins" || k == "broken" || k == "merging" || k == "open" {
					delete(s.auto, k)
				}
			}
		}
	}
	exits := 0
	var results []*Term
	var exitStates []*State
	c.Exit = func(x *Ctx, res []*Term) {
		exits++
		if len(res) == 1 {
			results = append(results, x.S.norm(res[0]))
		}
		exitStates = append(exitStates, x.S.clone())
	}
	e := e0(newEngine(p, c), fn)
	s := newState()
	e.Run(e.Root, s)
	r.absorb(e, site)
	vs.settle(e)
	for d, f := range copied {
		if stored[f] == nil || stored[d] != nil || sorted[f] {
			note(&badL, "nodes are copied")
		}
		stored[d], size[d] = stored[f], size[f]
	}
	if exits == 0 {
		note(&badL, "it does not return")
	}
	for _, t := range results {
		if stored[t] == nil {
			note(&badL, "%s is returned, which is not what the leaves are stored in", t)
			continue
		}
		if sorted[t] {
			note(&badL, "the leaves are sorted")
		}
		if len(stored[t]) != 1 {
			note(&badL, "leaves are stored at %d places", len(stored[t]))
		}
	}
	for _, k := range vs.order {
		v := vs.m[k]
		if v.undec != "" {
			note(&badL, "%s", v.undec)
			continue
		}
		for b, ks := range stored {
			if !ks[k] {
				continue
			}
			good := v.is(vs.interval(0, linOf(size[b])))
			if !good {
				note(&badL, "the ids {%s} get a leaf in a list of %s", v.dom, size[b])
			}
			if !isDicSize(p, e, size[b]) {
				note(&badL, "the number of leaves is %s", size[b])
			}
		}
	}
	if len(vs.order) == 0 {
		note(&badL, "no leaves are made")
	}
	r.must(badL == "", "leaves", site, "%s", badL)
	if merge == nil {
		note(&badM, "no rounds are found")
	}
	ins, outs := 0, 0
	for _, q := range vs.ends {
		if q.h != merge || q.f != mergeF || openVar == "" {
			continue
		}
		switch {
		case q.init:
			ins++
			g := seqOf(q.s, varAt(e, q.s, mergeF, merge, q.from, openVar))
			if len(g) != 1 || g[0].node != nil || stored[g[0].base] == nil || !q.s.equal(g[0].lo, mkInt(0)) || !q.s.equal(g[0].hi, q.s.lenOf(g[0].base)) {
				note(&badM, "the open nodes are not all leaves at first (%s)", q.pos)
			}
		case q.out:
			outs++
			t := varAt(e, q.s, mergeF, merge, -1, openVar)
			if t == nil || !q.s.atMost(q.s.lenOf(t), 1) {
				note(&badM, "the rounds may end with more than one open node (%s)", q.pos)
			}
		}
	}
	if ins == 0 || outs == 0 {
		note(&badM, "the list of open nodes is not found")
	}
	r.must(badM == "", "merge", site, "%s", badM)
}

// varOf names the variable that a slice is the content of.
func varOf(s *State, v *Term) string {
	v = s.norm(v)
	if v.Kind == 'l' {
		if ph, ok := v.Val.(*ssa.Phi); ok && naturalLoop(ph.Block()) != nil {
			return fmt.Sprint("v", v.id)
		}
	}
	for _, a := range sortedMem(s) {
		if s.norm(s.mem[a]) == v && isNodeSlice(v.Typ) {
			return fmt.Sprint("c", a.id)
		}
	}
	if v.Kind == 'l' && v.Op == "memval" {
		return fmt.Sprint("c", v.Args[0].id)
	}
	return fmt.Sprint("?", v.id)
}

// varAt gives the content of a variable where control enters header h by an
// edge, or in the loop.
func varAt(e *Engine, s *State, f *Frame, h *ssa.BasicBlock, edge int, v string) *Term {
	for _, a := range sortedMem(s) {
		if fmt.Sprint("c", a.id) == v {
			return s.norm(s.mem[a])
		}
	}
	for _, in := range h.Instrs {
		if q, ok := in.(*ssa.Phi); ok && fmt.Sprint("v", mkLeaf(f, q, "").id) == v {
			if edge < 0 {
				return s.norm(mkLeaf(f, q, ""))
			}
			return s.norm(e.val(f, q.Edges[edge], s))
		}
	}
	return nil
}

// isDicSize reports the number of words of the dictionary that is the receiver.
func isDicSize(p *Prog, e *Engine, n *Term) bool {
	l := p.method("pkg/corpus/dictionary", "Dictionary", "Len")
	if l == nil || n.Kind != 'l' {
		return false
	}
	var addr *Term
	if n.Op == "memval" {
		addr = n.Args[0]
	} else if u, ok := n.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		addr = mkFieldAddr(mkLeaf(e.Root, e.Root.Fn.Params[0], ""), fa.Field, fa.X.Type().Underlying().(*types.Pointer).Elem())
		if fa.X != e.Root.Fn.Params[0] && n.Frame == e.Root {
			return false
		}
	}
	id, ok := fieldOfAddr(addr)
	if !ok {
		return false
	}
	for _, b := range l.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if got, ok := p.fieldOfValue(ret.Results[0]); !ok || got != id {
				return false
			}
		}
	}
	return true
}

// roundEnd explains why a round does not leave all other open nodes and the
// parent of the two that it took.
func roundEnd(x *Ctx, h *ssa.BasicBlock, edge int, elem map[*Term][2]*Term, seqOf func(*State, *Term) []seg, openVar *string) string {
	s := x.S
	if at := s.auto["broken"]; at != "" {
		return "the open nodes are changed in a way that is not understood at " + at
	}
	var keys []string
	for k := range s.auto {
		if key, ok := strings.CutPrefix(k, "parent "); ok {
			keys = append(keys, key)
		}
	}
	sort.Strings(keys)
	if len(keys) != 2 {
		return fmt.Sprintf("%d nodes get a parent", len(keys))
	}
	m := s.auto["merged"]
	codes := map[string]bool{}
	for _, k := range keys {
		if s.auto["parent "+k] != m {
			return "the two nodes get different parents"
		}
		code := s.auto["code "+k]
		if code == "" {
			code = "0"
		}
		codes[code] = true
	}
	for k := range s.auto {
		if key, ok := strings.CutPrefix(k, "code "); ok && key != keys[0] && key != keys[1] {
			return "a node that gets no parent gets a code"
		}
	}
	if len(codes) != 2 || !codes["0"] || !codes["1"] {
		return "the two nodes do not get the codes 0 and 1"
	}
	// which nodes
	var base *Term
	var idx []*Term
	for _, at := range elem {
		for _, k := range keys {
			if fmt.Sprint(at[0].id, "|", at[1].id) == k {
				if base != nil && base != at[0] {
					return "the two nodes are from different lists"
				}
				base = at[0]
				dup := false
				for _, i := range idx {
					dup = dup || i == at[1]
				}
				if !dup {
					idx = append(idx, at[1])
				}
			}
		}
	}
	if base == nil || len(idx) != 2 {
		return "the two nodes are not known"
	}
	v := s.auto["open"]
	if v == "" {
		return "the list of open nodes is not known"
	}
	if *openVar != "" && *openVar != v {
		return "there are two lists of open nodes"
	}
	*openVar = v
	next := varAt(x.E, s, x.F, h, edge, v)
	if next == nil {
		return "the list of open nodes is not known"
	}
	q := append([]seg{}, seqOf(s, next)...)
	if w := strings.Fields(s.auto["ins"]); len(w) == 2 {
		if w[0] != fmt.Sprint(next.id) || w[1] != m || len(q) == 0 || q[len(q)-1].node == nil {
			return "the parent is not inserted in the list of open nodes"
		}
		q = q[:len(q)-1]
	} else {
		if s.auto["shift"] != "" {
			return "no parent is inserted where room was made"
		}
		n := 0
		var rest []seg
		for _, g := range q {
			if g.node != nil {
				if fmt.Sprint(g.node.id) != m {
					return "something else than the parent is added to the open nodes"
				}
				n++
				continue
			}
			rest = append(rest, g)
		}
		if n != 1 {
			return fmt.Sprintf("the parent is added %d times to the open nodes", n)
		}
		q = rest
	}
	if len(q) == 0 {
		return "no other open node is left"
	}
	for i, g := range q {
		if g.node != nil || g.base != base || i > 0 && !s.equal(q[i-1].hi, g.lo) {
			return "the other open nodes are not kept"
		}
	}
	lo, hi, n := q[0].lo, q[len(q)-1].hi, s.lenOf(base)
	is := func(i *Term, k int64, from *Term) bool { return s.equal(i, mkLin(linOf(from).plus(lin{c: 1}, k))) }
	pair := func(from *Term, a, b int64) bool {
		return is(idx[0], a, from) && is(idx[1], b, from) || is(idx[0], b, from) && is(idx[1], a, from)
	}
	if is(lo, 2, mkInt(0)) && s.equal(hi, n) && pair(mkInt(0), 0, 1) || is(lo, 0, mkInt(0)) && is(hi, -2, n) && pair(n, -1, -2) {
		return ""
	}
	return fmt.Sprintf("the nodes at %s and %s are joined and those from %s to %s remain", idx[0], idx[1], lo, hi)
}

// storedOnlyIn reports a field that is assigned only in fn.
func storedOnlyIn(p *Prog, id fieldID, fn *ssa.Function) bool {
	for _, g := range p.Funcs {
		if g == fn || !p.inRepo(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldIDOf(fa) == id {
						return false
					}
				}
			}
		}
	}
	return true
}
