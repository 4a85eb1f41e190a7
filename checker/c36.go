package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:          "C36",
		Technique:   "symbolic value numbering over go/ssa with polynomial normal forms, memory by access path, one arbitrary round per loop",
		Explanation: "Each optimizer of word2vec is run on a symbolic word and input vector: every change of an output vector and of the gradient is compared, as a normal form of the values before, with the logistic gradient of the label that the vector has to have; targets and rounds are compared with the word, the random draws and the path in the tree. The table of the sigmoid and its index are composed symbolically. What a worker adds to parameter rows has to be the gradient that the optimizer left.",
		Run:         runC36,
	})
}

func runC36(r *Rep) {
	r.rule("target", 2, "a word is trained as itself once and against as many random words as asked for, or along its path in the tree")
	r.rule("step", 2, "a step changes an output vector and the gradient by (label - sigmoid(inner product)) * rate, taken before the step")
	r.rule("sigmoid", 2, "the sigmoid of the table is the logistic function up to the width of an entry")
	r.rule("row", 2, "rows of context words change by the gradient that the optimizer computed for them")
	r.rule("others", 2, "nothing else is changed")
	for _, m := range r.P.models(r) {
		if m.Name == "word2vec" {
			word2vecSteps(r, m)
			return
		}
	}
	r.bad("entry-points", "word2vec", "word2vec is not found")
}

func isFloats(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float64
}

func isBasicKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// w2vWorld knows the optimizers of word2vec.
type w2vWorld struct {
	*kworld
	optim   *types.Func // the method of the interface
	iface   *types.Named
	id, lr  int // parameters, the receiver not counted
	vecs    []int
	sigmoid map[*ssa.Function]bool
	grad    int // which of vecs is the gradient, -1: unknown
}

func newW2vWorld(r *Rep, m *modelType) *w2vWorld {
	w := &w2vWorld{kworld: numWorld(r, m), sigmoid: map[*ssa.Function]bool{}, grad: -1}
	scope := m.Pkg.Pkg.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, _ := tn.Type().(*types.Named)
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok || nt == nil {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			f := it.Method(i)
			sig := f.Type().(*types.Signature)
			id, lr := -1, -1
			var vecs []int
			for j := 0; j < sig.Params().Len(); j++ {
				switch t := sig.Params().At(j).Type(); {
				case isBasicKind(t, types.Int):
					id = j
				case isBasicKind(t, types.Float64):
					lr = j
				case isFloats(t):
					vecs = append(vecs, j)
				}
			}
			if id >= 0 && lr >= 0 && len(vecs) == 2 && sig.Params().Len() == 4 {
				w.optim, w.iface, w.id, w.lr, w.vecs = f, nt, id, lr, vecs
			}
		}
	}
	for _, f := range r.P.Funcs {
		if f.Pkg != m.Pkg || f.Parent() != nil {
			continue
		}
		sig := f.Signature
		if sig.Params().Len() == 1 && sig.Results().Len() == 1 && isBasicKind(sig.Params().At(0).Type(), types.Float64) && isBasicKind(sig.Results().At(0).Type(), types.Float64) {
			w.sigmoid[f] = true
		}
	}
	return w
}

func word2vecSteps(r *Rep, m *modelType) {
	w := newW2vWorld(r, m)
	if w.optim == nil {
		r.bad("entry-points", "optimizer", "no interface of word2vec has a method that takes a word, a rate and two vectors")
		return
	}
	w2vSigmoid(r, w)
	dim := mkx("opt:Dim")
	w.more = func(x *kx) *kx {
		if x.op == "len" && len(x.args) == 1 {
			a := x.args[0]
			if strings.HasPrefix(a.op, "param:") && (a.op == "param:#a" || a.op == "param:#b") {
				return dim
			}
			if a.op == "ld" && strings.HasSuffix(a.args[0].op, "node.Node.Vector") {
				return dim
			}
		}
		return nil
	}
	getPath := r.P.method("pkg/corpus/dictionary/node", "Node", "GetPath")
	w.extra = func(k *kern, in ssa.CallInstruction, fn *ssa.Function, name string, args []*kx) (*kx, bool) {
		if fn != nil && w.sigmoid[fn] {
			return mkx("sigmoid", args[len(args)-1]), true
		}
		if fn != nil && fn == getPath && len(args) == 2 {
			return mkx("path", args...), true
		}
		if strings.HasPrefix(name, "sync/atomic.") && strings.HasSuffix(name, ".Load") && len(args) == 1 {
			return mkx("rate", args[0]), true
		}
		return nil, false
	}
	n := 0
	it := w.iface.Underlying().(*types.Interface)
	impls := r.P.implementers(it)
	sort.Slice(impls, func(i, j int) bool { return impls[i].String() < impls[j].String() })
	styles := map[string]bool{}
	for _, t := range impls {
		f := r.P.methodOf(t, w.optim.Name())
		if f == nil || !r.P.inRepo(f) {
			continue
		}
		n++
		styles[w2vOptim(r, w, f)] = true
	}
	for _, s := range []string{"sampling", "tree"} {
		r.must(styles[s], "target", "optimizer "+s, "no optimizer trains by %s", s)
	}
	if w.grad >= 0 {
		w2vWorkers(r, w)
	}
}

// w2vOptim checks one optimizer and says of which kind it is.
func w2vOptim(r *Rep, w *w2vWorld, f *ssa.Function) string {
	site := fnName(f)
	k := w.kern()
	args := []*kx{mkx("param:recv")}
	sig := w.optim.Type().(*types.Signature)
	for j := 0; j < sig.Params().Len(); j++ {
		switch j {
		case w.id:
			args = append(args, mkx("param:#id"))
		case w.lr:
			args = append(args, mkx("param:#lr"))
		case w.vecs[0]:
			args = append(args, mkx("param:#a"))
		default:
			args = append(args, mkx("param:#b"))
		}
	}
	for _, q := range f.Params {
		noteStruct(q.Type())
	}
	paths, abort := k.Run(f, args, nil)
	for g := range k.fns {
		r.fns[g] = true
	}
	r.steps += k.steps
	r.runs++
	if abort != "" {
		r.bad("analysis-completes", site, "the analysis of %s does not finish: %s", site, abort)
		return ""
	}
	r.ok("analysis-completes", site)
	o := &w2vOpt{r: r, w: w, site: site, id: mkx("param:#id"), lr: mkx("param:#lr")}
	// the vector that changes is the gradient
	a, b := mkx("param:#a"), mkx("param:#b")
	for _, q := range allPaths(paths) {
		for _, e := range q.events {
			if e.kind == "write" && e.addr.op == "ia" {
				switch e.addr.args[0] {
				case a:
					o.markGrad(a, b, 0)
				case b:
					o.markGrad(b, a, 1)
				}
			}
		}
	}
	if o.grad == nil {
		r.bad("step", site, "the optimizer computes no gradient")
		return ""
	}
	done := map[*kloop]bool{}
	for _, q := range paths {
		top := o.steps(q)
		_, loops := updatesOf(q, isAnyVec)
		if len(loops) == 0 && len(top) == 0 {
			r.bad("target", site, "a path of the optimizer trains nothing")
			continue
		}
		tops := 0
		for _, s := range top {
			if r.must(s.target == o.id, "target", site, "%v is trained outside the loop (%s)", s.target, s.pos) {
				tops++
			}
		}
		if len(loops) != 1 {
			r.bad("target", site, "%d loops over targets", len(loops))
			continue
		}
		l := loops[0]
		if done[l] {
			continue
		}
		done[l] = true
		tree := false
		for _, p := range l.paths {
			for _, s := range o.stepsQuiet(p) {
				tree = tree || s.node != nil
			}
		}
		if tree {
			o.style = "tree"
			r.must(tops == 0, "target", site, "steps are made outside the loop over the path")
			o.treeLoop(l)
		} else {
			o.style = "sampling"
			o.sampleLoop(l, tops)
		}
	}
	return o.style
}

func isAnyVec(b *kx) bool { return true }

type w2vOpt struct {
	r       *Rep
	w       *w2vWorld
	site    string
	id, lr  *kx
	grad, x *kx
	style   string
}

func (o *w2vOpt) markGrad(g, x *kx, i int) {
	if o.grad != nil && o.grad != g {
		o.r.bad("others", o.site, "the optimizer changes both vectors that it is given")
		return
	}
	if o.w.grad >= 0 && o.w.grad != i {
		o.r.bad("others", o.site, "the optimizer changes the vector that another one reads")
	}
	o.grad, o.x, o.w.grad = g, x, i
}

// w2vStep is one change of the gradient and of an output vector.
type w2vStep struct {
	base   *kx // the output vector
	target *kx // the word, for rows
	node   *kx // the node, for nodes of the tree
	factor []*kx
	gu, bu *kupd
	inner  *kx
	guards []*kx
	pos    string
}

// steps lists the steps that a path makes itself.
func (o *w2vOpt) steps(q *kpath) []*w2vStep { return o.stepsOf(q, true) }

func (o *w2vOpt) stepsQuiet(q *kpath) []*w2vStep { return o.stepsOf(q, false) }

func (o *w2vOpt) stepsOf(q *kpath, say bool) (out []*w2vStep) {
	dim := mkx("opt:Dim")
	bad := func(rule, f string, a ...interface{}) {
		if say {
			o.r.bad(rule, o.site, f, a...)
		}
	}
	ups, _ := updatesOf(q, isAnyVec)
	var gs, bs []*kupd
	for _, u := range ups {
		if u.base == o.x {
			bad("others", "the optimizer changes the vector that it predicts with (%s)", u.pos)
			continue
		}
		if strings.HasPrefix(u.base.op, "alloc#") || strings.HasPrefix(u.base.op, "make#") {
			continue
		}
		if !u.over(kInt(0), dim) {
			bad("step", "not all elements of a vector change (%s)", u.pos)
			continue
		}
		if u.base == o.grad {
			gs = append(gs, u)
		} else {
			bs = append(bs, u)
		}
	}
	if len(gs) != len(bs) {
		bad("step", "%d changes of the gradient come with %d changes of output vectors", len(gs), len(bs))
		return nil
	}
	κ, i := mkx("κ"), mkx("i")
	for n, b := range bs {
		g := gs[n]
		s := &w2vStep{base: b.base, gu: g, bu: b, guards: q.guards, pos: b.pos}
		switch {
		case b.base.op == "row":
			mat := b.base.args[0]
			if !strings.HasPrefix(mat.op, "matrix:") || mat == o.w.param() || !kEq(mat.args[0], mkx("V")) || !kEq(mat.args[1], dim) {
				bad("others", "a row of %v changes, which is no matrix of output vectors for each word (%s)", mat, b.pos)
				continue
			}
			s.target = b.base.args[1]
		case b.base.op == "ld" && strings.HasSuffix(b.base.args[0].op, "node.Node.Vector"):
			s.node = b.base.args[0].args[0]
		default:
			bad("others", "%v changes, which is no output vector (%s)", b.base, b.pos)
			continue
		}
		// the value of the input is that at entry
		s.inner = kSum(dim, κ, kMul(b.at(b.old, κ), mkx("ld", mkx("ia", o.x, κ))))
		dg, db := kSub(g.at(g.val, i), g.at(g.old, i)), kSub(b.at(b.val, i), b.at(b.old, i))
		labels := []*kx{kInt(1), kInt(0)}
		if s.node != nil {
			labels = []*kx{o.codeLabel(s.node)}
		}
		for _, l := range labels {
			for _, sg := range o.sigmas(q.guards, s.inner) {
				f := kMul(o.lr, kSub(l, sg))
				if kEq(dg, kMul(f, b.at(b.old, i))) && kEq(db, kMul(f, mkx("ld", mkx("ia", o.x, i)))) {
					s.factor = append(s.factor, l)
				}
			}
		}
		if len(s.factor) == 0 {
			bad("step", "the change of the gradient by %v and of the output vector by %v are not those of a label (%s) under %v", dg, db, b.pos, q.guards)
		} else if say {
			o.r.ok("step", o.site)
			o.r.ok("others", o.site)
		}
		out = append(out, s)
	}
	return
}

// codeLabel is what the node should predict: 1 minus the code of the next node.
func (o *w2vOpt) codeLabel(n *kx) *kx {
	// n = ld(ia(path, k))
	if n.op != "ld" || n.args[0].op != "ia" {
		return mkx("no label")
	}
	next := mkx("ld", mkx("ia", n.args[0].args[0], kAdd(n.args[0].args[1], kInt(1))))
	return kSub(kInt(1), mkx("ld", mkx("fa:"+modPath+"/pkg/corpus/dictionary/node.Node.Code", next)))
}

// sigmas lists what the sigmoid of x may be taken to be.
func (o *w2vOpt) sigmas(guards []*kx, x *kx) []*kx {
	out := []*kx{mkx("sigmoid", x)}
	lo, hi := saturated(guards, func(y *kx) bool { return kEq(y, x) })
	if lo {
		out = append(out, kInt(0))
	}
	if hi {
		out = append(out, kInt(1))
	}
	return out
}

// saturated says whether guards put a value below or above where the sigmoid is 0 or 1
// (to less than 0.02, that is 4).
func saturated(guards []*kx, is func(x *kx) bool) (lo, hi bool) {
	for _, g := range guards {
		if g.op != "le" && g.op != "lt" {
			continue
		}
		p := g.args[0]
		c := kConstPart(p)
		if c == nil || c.n == nil {
			continue
		}
		rest := kSub(p, c)
		f := rest.num()
		if !f.isPoly() || len(f.n) == 0 {
			continue
		}
		// as a multiple of the value
		scale := kRat(new(big.Rat).Abs(f.n.sorted()[0].c))
		rest, c = kDiv(rest, scale), kDiv(c, scale)
		if c.rat().Cmp(kInt(4).rat()) < 0 {
			continue
		}
		if is(rest) {
			lo = true
		}
		if is(kNeg(rest)) {
			hi = true
		}
	}
	return
}

func (o *w2vOpt) treeLoop(l *kloop) {
	r, site := o.r, o.site
	var path *kx
	n := 0
	for _, p := range l.paths {
		ss := o.steps(p)
		_, loops := updatesOf(p, isAnyVec)
		r.must(len(loops) == 0, "others", site, "there are further loops in the loop over the path")
		if len(ss) == 0 {
			lo, hi := saturated(p.guards, func(x *kx) bool { return isInnerOf(x, o.x) })
			r.must(lo || hi, "target", site, "a node of the path is left out although the sigmoid is not saturated: %v", p.guards)
			continue
		}
		r.must(len(ss) == 1 && p.end == "next", "target", site, "a round over the path makes %d steps, or is the last one", len(ss))
		s := ss[0]
		if s.node == nil || s.node.op != "ld" || s.node.args[0].op != "ia" {
			r.bad("target", site, "%v is trained, which is no node of the path (%s)", s.base, s.pos)
			continue
		}
		n++
		path = s.node.args[0].args[0]
		idx := s.node.args[0].args[1]
		good := path.op == "path" && path.args[0].op == "ld" && path.args[0].args[0].op == "ia" && path.args[0].args[0].args[1] == o.id
		r.must(good, "target", site, "the path trained is %v, not that of the word", path)
		if good {
			r.must(path.args[1] == mkx("opt:MaxDepth"), "target", site, "the path is cut at %v instead of the greatest depth", path.args[1])
		}
		r.must(kEq(idx, l.k) && l.n != nil && kEq(l.n, kSub(mkx("len", path), kInt(1))), "target", site, "node %v of %v rounds is trained, not every node of the path but the last", idx, l.n)
	}
	r.must(n > 0, "target", site, "no node is trained")
}

// isInnerOf reports a sum of products with the elements of a vector.
func isInnerOf(x, vec *kx) bool {
	a := x
	if a.n != nil {
		t := x.atoms()
		if len(t) != 1 || !kEq(t[0], x) {
			return false
		}
		a = t[0]
	}
	return a.op == "sum" && a.has(vec)
}

func (o *w2vOpt) sampleLoop(l *kloop, tops int) {
	r, site := o.r, o.site
	r.must(!l.breaks, "target", site, "the loop over the samples ends early on some path")
	N := mkx("opt:NegativeSampleSize")
	self := 0
	var at *kx // the round of the word itself
	type rnd struct {
		p *kpath
	}
	var rest []rnd
	for _, p := range l.paths {
		if p.end != "next" {
			continue
		}
		ss := o.steps(p)
		_, loops := updatesOf(p, isAnyVec)
		r.must(len(loops) == 0, "others", site, "there are further loops in the loop over the samples")
		if len(ss) > 1 {
			r.bad("target", site, "a round over the samples makes %d steps", len(ss))
			continue
		}
		if len(ss) == 1 {
			s := ss[0]
			if s.target == o.id {
				self++
				r.must(s.is(1), "step", site, "the word is trained with the label of others (%s)", s.pos)
				c := eqRound(p.guards, l.k)
				if c == nil {
					r.bad("target", site, "the word itself is trained in more than one round (%s)", s.pos)
					continue
				}
				r.must(at == nil || at == c, "target", site, "the word itself is trained in rounds %v and %v", at, c)
				at = c
				continue
			}
			ok := s.target != nil && s.target.op == "random" && s.target.args[0].has(l.k) && s.target.args[1] == mkx("V")
			r.must(ok, "target", site, "%v is trained, which is neither the word nor a random one drawn for this step (%s)", s.target, s.pos)
			r.must(s.is(0), "step", site, "a random word is trained with the label of the word itself (%s)", s.pos)
		} else if !o.mayskip(p, l) {
			r.bad("target", site, "a target is left out although it is not the word itself")
		}
		rest = append(rest, rnd{p})
	}
	switch {
	case at != nil:
		r.must(tops == 0, "target", site, "the word itself is trained twice")
		r.must(l.n != nil && kEq(l.n, kAdd(N, kInt(1))) && (at.isInt(0) || kEq(at, N)), "target", site, "there are %v rounds, of which round %v trains the word itself", l.n, at)
		for _, q := range rest {
			r.must(kImplied(q.p.guards, kNot(mkRel("eq", kSub(l.k, at)))) || o.mayskip(q.p, l), "target", site, "the word itself is left out on some path")
		}
	default:
		r.must(tops == 1, "target", site, "the word itself is trained %d times", tops)
		r.must(l.n != nil && kEq(l.n, N), "target", site, "there are %v random words", l.n)
	}
	r.must(len(rest) > 0, "target", site, "no random words are trained")
}

func (s *w2vStep) is(label int64) bool {
	for _, f := range s.factor {
		if f.isInt(label) {
			return true
		}
	}
	return len(s.factor) == 0 // reported already
}

// mayskip: the random word is the word itself, or there is nothing to learn.
func (o *w2vOpt) mayskip(p *kpath, l *kloop) bool {
	for _, g := range p.guards {
		if g.op == "eq" {
			for _, a := range g.args[0].atoms() {
				if a.op == "random" && (kEq(g.args[0], kSub(a, o.id)) || kEq(g.args[0], kSub(o.id, a))) {
					return true
				}
			}
		}
	}
	lo, hi := saturated(p.guards, func(x *kx) bool { return isInnerOf(x, o.x) })
	for _, g := range p.guards {
		if g.op != "eq" {
			continue
		}
		var sig []*kx
		if lo {
			sig = append(sig, kInt(0))
		}
		if hi {
			sig = append(sig, kInt(1))
		}
		for _, a := range g.args[0].atoms() {
			if a.op == "sigmoid" && isInnerOf(a.args[0], o.x) {
				sig = append(sig, a)
			}
		}
		for _, sg := range sig {
			for _, l := range []int64{0, 1} {
				if f := kSub(kInt(l), sg); !f.isInt(0) && (g == mkRel("eq", kMul(o.lr, f)) || g == mkRel("eq", f)) {
					return true
				}
			}
		}
	}
	if !lo && !hi {
		return false
	}
	word, other := false, false
	for _, g := range p.guards {
		g.each(func(y *kx) {
			if y.op == "row" {
				word = word || y.args[1] == o.id
				other = other || y.args[1].op == "random"
			}
		})
	}
	return lo && other && !word || hi && word && !other
}

// eqRound finds the one round in which a path is taken.
func eqRound(guards []*kx, k *kx) *kx {
	for _, g := range guards {
		if g.op != "eq" {
			continue
		}
		p := g.args[0]
		if kHasCoef(p, k, -1) {
			p = kNeg(p)
		}
		if kHasCoef(p, k, 1) {
			if c := kSub(k, p); !c.has(k) {
				return c
			}
		}
	}
	return nil
}

// w2vSigmoid composes the table of the sigmoid with its index.
func w2vSigmoid(r *Rep, w *w2vWorld) {
	n := 0
	var fs []*ssa.Function
	for f := range w.sigmoid {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	type table struct {
		entry *kx // of entry k
		k     *kx
		n     *kx
	}
	tables := map[string]*table{}
	for _, f := range r.P.Funcs {
		if f.Pkg != w.m.Pkg || f.Parent() != nil || len(f.Blocks) == 0 || w.sigmoid[f] {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isFloats(st.Val.Type()) {
					if _, ok := st.Addr.(*ssa.FieldAddr); ok {
						has = true
					}
				}
			}
		}
		if !has {
			continue
		}
		paths, _, abort := w.run(f)
		if abort != "" {
			continue
		}
		for _, q := range paths {
			made, size := map[*kx]string{}, map[*kx]*kx{}
			for _, e := range q.events {
				if (e.kind == "set" || e.kind == "write") && strings.HasPrefix(e.addr.op, "fa:") {
					switch v := e.val; {
					case strings.HasPrefix(v.op, "make#"):
						made[v], size[v] = e.addr.op, v.args[0]
					case v.op == "slice" && v.args[1].isInt(0): // of an array, if the size is constant
						made[v.args[0]], size[v.args[0]] = e.addr.op, v.args[2]
					}
				}
			}
			ups, _ := updatesOf(q, func(b *kx) bool { return made[b] != "" })
			for _, u := range ups {
				if u.over(kInt(0), size[u.base]) {
					i := mkx("i")
					tables[made[u.base]] = &table{u.at(u.val, i), i, size[u.base]}
				}
			}
		}
	}
	logistic := func(x *kx) *kx { return kDiv(kInt(1), kAdd(kInt(1), kExp(kNeg(x)))) }
	for _, f := range fs {
		w.more = func(x *kx) *kx {
			if x.op == "len" && x.args[0].op == "ld" {
				if t := tables[x.args[0].args[0].op]; t != nil {
					return t.n
				}
			}
			return nil
		}
		paths, _, abort := w.run(f)
		w.more = nil
		if abort != "" {
			r.bad("analysis-completes", fnName(f), "the analysis of %s does not finish: %s", fnName(f), abort)
			continue
		}
		site := fnName(f)
		x := mkx("param:" + f.Params[len(f.Params)-1].Name())
		n++
		for _, q := range paths {
			v := q.ret[0]
			if kEq(v, logistic(x)) {
				r.ok("sigmoid", site)
				continue
			}
			lo, hi := saturated(q.guards, func(y *kx) bool { return y == x })
			if v.isInt(0) && lo || v.isInt(1) && hi {
				r.ok("sigmoid", site)
				continue
			}
			if v.op != "ld" || v.args[0].op != "ia" || v.args[0].args[0].op != "ld" || tables[v.args[0].args[0].args[0].op] == nil {
				r.bad("sigmoid", site, "the sigmoid of x is %v, no entry of a table and not the logistic function", v)
				continue
			}
			t := tables[v.args[0].args[0].args[0].op]
			idx := v.args[0].args[1]
			// entry i is the logistic function of E(i)
			E := logitOf(t.entry)
			if E == nil || !kEq(t.entry, logistic(E)) {
				r.bad("sigmoid", site, "entry i of the table is %v, which is not the logistic function of an argument", t.entry)
				continue
			}
			at := func(i *kx) *kx { return kReplace(E, t.k, i) }
			cell := kSub(at(kInt(1)), at(kInt(0)))
			cw, ok := cell.konst()
			if !ok || cw.Sign() <= 0 || cw.Cmp(kDiv(kInt(1), kInt(10)).rat()) > 0 {
				r.bad("sigmoid", site, "an entry of the table covers %v", cell)
				continue
			}
			near := func(a, b *kx) bool {
				e := kSub(a, b)
				// a constant of the source may be a rounded one
				q := kSub(kReplace(e, x, kInt(1)), kReplace(e, x, kInt(0)))
				if c, ok := q.konst(); ok && new(big.Rat).Abs(c).Cmp(big.NewRat(1, 1e9)) < 0 {
					e = kSub(e, kMul(q, x))
				}
				d, ok := e.konst()
				return ok && d.Cmp(cw) <= 0 && d.Cmp(kNeg(cell).rat()) >= 0
			}
			// the position in the table
			pos := idx
			if pos.op == "trunc" {
				pos = pos.args[0]
				r.must(near(at(pos), x), "sigmoid", site, "the entry taken for x is that for %v", at(pos))
				continue
			}
			// an index out of range is put to the end that it is beyond
			raw := rawIndex(q.guards)
			last := kSub(t.n, kInt(1))
			good := raw != nil && near(at(raw.args[0]), x) &&
				(idx.isInt(0) && (kImplied(q.guards, mkRel("ile", kAdd(raw, kInt(1)))) || kImplied(q.guards, mkRel("ile", raw))) ||
					kEq(idx, last) && (kImplied(q.guards, mkRel("ile", kSub(t.n, raw))) || kImplied(q.guards, mkRel("ile", kSub(last, raw)))))
			r.must(good, "sigmoid", site, "the entry taken for x is number %v under %v", idx, q.guards)
			b := kNeg(at(kInt(0)))
			top := at(t.n)
			bq, ok1 := b.konst()
			tq, ok2 := top.konst()
			four := kInt(4).rat()
			r.must(ok1 && ok2 && bq.Cmp(four) >= 0 && tq.Cmp(four) >= 0, "sigmoid", site+" range", "the table covers %v to %v", kNeg(b), top)
		}
	}
	r.must(n > 0, "sigmoid", "sigmoid", "there is no function from a number to its sigmoid")
}

// logitOf gives the argument that entry is the logistic function of.
func logitOf(entry *kx) *kx {
	f := entry.num()
	n, d := kNum(&frac{f.n, polyConst(big.NewRat(1, 1))}), kNum(&frac{f.d, polyConst(big.NewRat(1, 1))})
	rest := kSub(d, n)
	if rest.isInt(0) || n.isInt(0) {
		return nil
	}
	return kLog(kDiv(n, rest))
}

// rawIndex finds the truncated position that guards speak of.
func rawIndex(guards []*kx) (out *kx) {
	for _, g := range guards {
		g.each(func(y *kx) {
			if y.op == "trunc" {
				out = y
			}
		})
	}
	return
}

// w2vWorkers checks what goroutines add to parameter rows.
func w2vWorkers(r *Rep, w *w2vWorld) {
	dim := mkx("opt:Dim")
	name := "(" + typKey(w.iface) + ")." + w.optim.Name()
	κ, i := mkx("κ"), mkx("i")
	left := map[*kx]*kx{} // element κ of the gradient that optim left
	_ = i
	w.hook = func(k *kern, s *kstate, in ssa.CallInstruction, fn *ssa.Function, nm string, args []*kx) (*kx, bool) {
		if nm != name {
			return nil, false
		}
		a := args[1:]
		g := a[w.vecs[w.grad]]
		k.bump(s, rootBase(mkx("ia", g, κ)))
		s.bases[rootBase(mkx("ia", g, κ))] = true
		v := k.load(s, mkx("ia", g, κ), types.Typ[types.Float64])
		left[v] = g
		s.events = append(s.events, kevent{kind: "optim", args: a, val: v, pos: k.p.posOf(in)})
		return nil, true
	}
	w.more = func(x *kx) *kx {
		if x.op == "len" && len(x.args) == 1 && !strings.HasPrefix(x.args[0].op, "param:") {
			// vectors of the scratch that workers share
			if isScratch(x.args[0]) {
				return dim
			}
		}
		return nil
	}
	param := w.param()
	if param == nil {
		r.bad("entry-points", "parameters", "the parameter matrix is not known")
		return
	}
	done := 0
	kinds := map[string]bool{}
	for _, f := range w.goFuncs() {
		if !r.P.inRepo(f) {
			continue
		}
		paths, _, abort := w.run(f)
		site := fnName(f)
		if abort != "" {
			r.bad("analysis-completes", site, "the analysis of %s does not finish: %s", site, abort)
			continue
		}
		some := false
		for _, q := range allPaths(paths) {
			for _, e := range q.events {
				some = some || e.kind == "optim"
			}
		}
		if !some {
			continue
		}
		done++
		seen := map[*kloop]bool{}
		var visit func(q *kpath, optim *kevent, in *kloop)
		visit = func(q *kpath, optim *kevent, in *kloop) {
			var here *kevent
			for n := range q.events {
				e := &q.events[n]
				switch {
				case e.kind == "optim":
					if here != nil {
						r.bad("row", site, "a word is trained twice (%s)", e.pos)
					}
					here = e
					w2vOptimArgs(r, w, site, param, q, e, in, kinds)
				case e.kind == "write" && isRow(rootBase(e.addr)):
					r.bad("others", site, "a single element of a row changes (%s)", e.pos)
				case e.kind == "loop":
					l := e.loop
					cur := here
					if cur == nil {
						cur = optim
					}
					direct, deep := false, false
					for _, p := range l.paths {
						for _, f := range p.events {
							direct = direct || f.kind == "write" && isRow(rootBase(f.addr))
							deep = deep || f.kind == "loop"
						}
					}
					if direct {
						w2vRowUpdate(r, w, site, param, q, n, cur, kinds)
						continue
					}
					if !deep && !hasOptim(l) || seen[l] {
						continue
					}
					seen[l] = true
					for _, p := range l.paths {
						if p.end == "next" || p.end == "exit" {
							visit(p, cur, l)
						}
					}
				}
			}
			if here != nil {
				// the gradient has to be used
				used := false
				for _, e := range q.events {
					if e.kind == "loop" && usesValue(e.loop, here.val, rootOf(here.args[w.vecs[w.grad]])) {
						used = true
					}
				}
				r.must(used, "row", site, "the gradient that the optimizer computes is not added to any row on some path (%s)", here.pos)
			}
		}
		for _, q := range paths {
			visit(q, nil, nil)
		}
	}
	r.must(done > 0, "row", "workers", "no goroutine of Train calls the optimizer")
	for _, kd := range []string{"predicts with a row", "predicts with a sum of rows"} {
		r.must(kinds[kd], "row", "worker "+kd, "no worker %s", kd)
	}
}

func rootOf(x *kx) *kx { return rootBase(mkx("ia", x, mkx("κ"))) }

func hasOptim(l *kloop) bool {
	for _, p := range l.paths {
		for _, e := range p.events {
			if e.kind == "optim" || e.kind == "loop" && hasOptim(e.loop) {
				return true
			}
		}
	}
	return false
}

func isScratch(x *kx) bool { return strings.Contains(x.key, "recv") }

// usesValue reports that rows are changed by what is in a vector.
func usesValue(l *kloop, v, base *kx) bool {
	for _, p := range l.paths {
		for _, e := range p.events {
			if e.kind == "write" && isRow(rootBase(e.addr)) && e.val.has(base) {
				return true
			}
			if e.kind == "loop" && usesValue(e.loop, v, base) {
				return true
			}
		}
	}
	return false
}

// isWord reports a row of the word of a text.
func isWordRow(x, param *kx) (doc, pos *kx) {
	if x.op == "row" && x.args[0] == param && x.args[1].op == "ld" && x.args[1].args[0].op == "ia" {
		return x.args[1].args[0].args[0], x.args[1].args[0].args[1]
	}
	return nil, nil
}

// w2vOptimArgs checks what the optimizer is called with.
func w2vOptimArgs(r *Rep, w *w2vWorld, site string, param *kx, q *kpath, e *kevent, in *kloop, kinds map[string]bool) {
	id, lr, x := e.args[w.id], e.args[w.lr], e.args[w.vecs[1-w.grad]]
	g := e.args[w.vecs[w.grad]]
	r.must(id.op == "ld" && id.args[0].op == "ia", "row", site, "the optimizer is asked for %v, which is no word of the text (%s)", id, e.pos)
	r.must(lr.op == "rate" || lr.op == "call:math.Float64frombits" && rateOf(lr) != nil, "row", site, "the rate given to the optimizer is %v (%s)", lr, e.pos)
	r.must(g != x && g.op != "row", "row", site, "the gradient is computed in %v (%s)", g, e.pos)
	if doc, pos := isWordRow(x, param); doc != nil {
		kinds["predicts with a row"] = true
		if id.op == "ld" && id.args[0].op == "ia" {
			r.must(doc == id.args[0].args[0] && pos != id.args[0].args[1], "row", site, "the word %v is predicted from %v of %v (%s)", id, pos, doc, e.pos)
			r.must(in != nil && pos.has(in.k) && !id.has(in.k), "row", site, "the word %v is predicted from the one at %v, instead of the trained word from each word of its window (%s)", id, pos, e.pos)
		}
		return
	}
	kinds["predicts with a sum of rows"] = true
	// the sum was made in a loop before
	summed := false
	for _, f := range q.events {
		if f.kind == "optim" {
			break
		}
		if f.kind == "loop" && sumsRows(r, w, site, f.loop, x, param) {
			summed = true
		}
	}
	r.must(summed, "row", site, "the word is predicted from %v, to which no rows of words are added (%s)", x, e.pos)
}

// sumsRows: the rounds of a loop add the row of a word to a vector.
func sumsRows(r *Rep, w *w2vWorld, site string, l *kloop, x, param *kx) bool {
	found := false
	i := mkx("i")
	for _, p := range l.paths {
		ups, _ := updatesOf(p, func(b *kx) bool { return b == x })
		for _, u := range ups {
			if u.k == nil {
				continue
			}
			d := kSub(u.at(u.val, i), u.at(u.old, i))
			if u.val.isInt(0) {
				continue
			}
			good := false
			if d.op == "ld" && d.args[0].op == "ia" && d.args[0].args[1] == i {
				doc, _ := isWordRow(d.args[0].args[0], param)
				good = doc != nil
			}
			r.must(good && u.over(kInt(0), mkx("opt:Dim")), "row", site, "%v is added to the vector that the word is predicted from (%s)", d, u.pos)
			found = true
		}
	}
	return found
}

// w2vRowUpdate checks a loop that changes elements of rows.
func w2vRowUpdate(r *Rep, w *w2vWorld, site string, param *kx, q *kpath, n int, optim *kevent, kinds map[string]bool) {
	one := *q
	one.events = q.events[n : n+1]
	ups, loops := updatesOf(&one, isRow)
	r.must(len(loops) == 0, "others", site, "rows change in a loop that is not one over their elements")
	i := mkx("i")
	for _, u := range ups {
		if optim == nil {
			r.bad("others", site, "a row changes without the optimizer (%s)", u.pos)
			continue
		}
		doc, pos := isWordRow(u.base, param)
		if doc == nil {
			r.bad("others", site, "%v changes, which is no row of a word of the text (%s)", u.base, u.pos)
			continue
		}
		id := optim.args[w.id]
		if id.op == "ld" && id.args[0].op == "ia" {
			r.must(doc == id.args[0].args[0] && pos != id.args[0].args[1], "row", site, "the row of the word itself changes (%s)", u.pos)
		}
		x := optim.args[w.vecs[1-w.grad]]
		if x.op == "row" {
			r.must(u.base == x, "row", site, "row %v changes by the gradient of row %v (%s)", u.base.args[1], x.args[1], u.pos)
		}
		d := kSub(u.at(u.val, i), u.at(u.old, i))
		want := kReplace(optim.val, mkx("κ"), i)
		if r.must(u.over(kInt(0), mkx("opt:Dim")) && kEq(d, want), "row", site, "a row changes by %v instead of all of the gradient %v (%s)", d, want, u.pos) {
			r.ok("others", site)
		}
	}
}
