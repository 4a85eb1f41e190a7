package main

import (
	"go/token"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:          "C38",
		Technique:   "symbolic value numbering over go/ssa with polynomial normal forms, one arbitrary round per loop; comparison of the condition of a random trial with a closed form",
		Explanation: "Every way through one round of a worker's loop over a text is followed: whether the word is trained has to be decided by one comparison with a random number drawn in that round. What the number is compared with is traced through the fields it is kept in to the code that computes it for every word, and each of its pieces, with the conditions under which it is chosen, is compared with min(1, sqrt(threshold / relative frequency)), and 1 for a threshold that is not positive.",
		Run:         runC38,
	})
}

var uniform01 = map[string]bool{
	"math/rand.Float64":            true,
	"(*math/rand.Rand).Float64":    true,
	"math/rand/v2.Float64":         true,
	"(*math/rand/v2.Rand).Float64": true,
}

func runC38(r *Rep) {
	r.rule("trial", 2, "one random trial decides whether an occurrence of a word is trained")
	r.rule("share", 2, "the share of a word is min(1, sqrt(threshold / relative frequency))")
	p := r.P
	u := &unitCheck{r: newRep(r.ID, p), p: p, rows: map[fieldID]int64{}, stored: map[fieldID]string{}, used: map[fieldID]string{}}
	trains := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function, d int)
	add = func(fn *ssa.Function, d int) {
		if d > 4 || !p.drawsUniform(fn) {
			trains[fn] = true
			return
		}
		// the trial is part of it: the functions that it gives a position train
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				ints, texts := 0, 0
				for _, a := range call.Common().Args {
					if isIntSlice(a.Type()) {
						texts++
					} else if isSignedInt(a.Type()) {
						ints++
					}
				}
				if ints == 0 || texts == 0 {
					continue
				}
				for _, g := range p.callees(call.Common()) {
					if p.inRepo(g) {
						add(g, d+1)
					}
				}
			}
		}
	}
	for _, fn := range p.positionFuncs(u) {
		add(fn, 0)
	}
	n := 0
	for _, m := range p.models(r) {
		any := false
		for fn := range trains {
			any = any || fn.Pkg == m.Pkg
		}
		if any {
			n++
			subsampling(r, m, trains)
		}
	}
	r.must(n >= 2, "trial", "models", "%d models train the positions of a text", n)
}

func subsampling(r *Rep, m *modelType, trains map[*ssa.Function]bool) {
	w := numWorld(r, m)
	w.hook = func(k *kern, s *kstate, in ssa.CallInstruction, fn *ssa.Function, name string, args []*kx) (*kx, bool) {
		t := fn != nil && trains[fn]
		if c := in.Common(); c.IsInvoke() {
			for _, f := range w.impls(c) {
				t = t || trains[f]
			}
		}
		if t {
			s.events = append(s.events, kevent{kind: "call", name: "train", args: args, pos: k.p.posOf(in)})
			return mkx("nil"), true
		}
		return nil, false
	}
	kept := newKept(w)
	found := false
	for _, f := range w.goFuncs() {
		paths, _, abort := w.run(f)
		if abort != "" {
			r.bad("analysis-completes", fnName(f), "the analysis of %s does not finish: %s", fnName(f), abort)
			continue
		}
		r.ok("analysis-completes", fnName(f))
		seen := map[*kloop]bool{}
		for _, q := range allPaths(paths) {
			for _, e := range q.events {
				if e.kind == "loop" && !seen[e.loop] {
					seen[e.loop] = true
					found = subsampled(r, w, f, e.loop, kept) || found
				}
			}
		}
		for _, q := range paths {
			for _, e := range q.events {
				if e.kind == "call" && e.name == "train" {
					r.bad("trial", "["+m.Name+"] "+fnName(f), "a word is trained outside of a loop over the text (%s)", e.pos)
				}
			}
		}
	}
	kept.unchanged()
	r.must(found, "trial", "["+m.Name+"]", "no worker of %s trains the words of a text", m.Name)
}

// subsampled decides a loop in which words are trained.
func subsampled(r *Rep, w *kworld, f *ssa.Function, l *kloop, kept *keptFields) bool {
	site := "[" + w.m.Name + "] " + fnName(f)
	var with, without []*kpath
	var train kevent
	for _, q := range l.paths {
		n := 0
		for _, e := range q.events {
			if e.kind == "call" && e.name == "train" {
				n++
				train = e
			}
		}
		if n > 0 {
			with = append(with, q)
			r.must(n == 1, "trial", site, "an occurrence of a word is trained %d times (%s)", n, train.pos)
		} else if q.end == "next" {
			without = append(without, q)
		}
	}
	if len(with) == 0 {
		return false
	}
	// the word that is trained: the element of the text at the round
	var word, doc *kx
	for _, a := range train.args {
		for _, b := range train.args {
			if b == l.k || b.has(l.k) && b.n != nil {
				if l.n != nil && l.n.op == "len" && l.n.args[0] == a {
					doc, word = a, b
				}
			}
		}
	}
	if !r.must(doc != nil, "trial", site, "the text and the position of the trained word are not those of the loop (%s)", train.pos) {
		return true
	}
	id := mkx("ld", mkx("ia", doc, word))
	// what each way through a round says about the share of the word
	for i, q := range append(append([]*kpath{}, with...), without...) {
		trained := i < len(with)
		what := "left out"
		if trained {
			what = "trained"
		}
		var draw, cond *kx
		n := 0
		p := keptPiece{}
		for _, g := range q.guards {
			var d *kx
			g.each(func(y *kx) {
				if strings.HasPrefix(y.op, "res:") && uniform01[strings.SplitN(y.op[4:], "#", 2)[0]] {
					d = y
				}
			})
			if d == nil {
				p.guards = append(p.guards, g)
				continue
			}
			draw, cond = d, g
			n++
		}
		r.must(n <= 1, "trial", site, "%d conditions on random numbers decide whether an occurrence is %s", n, what)
		drawn, at := 0, ""
		for _, e := range q.events {
			if e.kind == "call" && uniform01[e.name] {
				drawn++
				at = e.pos
			}
		}
		switch {
		case cond == nil && trained:
			p.val = kInt(1)
		case cond == nil:
			p.val = kInt(0)
		default:
			r.must(drawn == 1, "trial", site, "%d random numbers are drawn in a round in which an occurrence is %s", drawn, what)
			if !trained {
				cond = kNot(cond)
			}
			p.val = shareOf(cond, draw)
			if !r.must(p.val != nil, "trial", site, "the condition of the trial, %v, does not compare the draw with a number (%s)", cond, at) {
				continue
			}
		}
		pieces := kept.pieces(p, id)
		if !r.must(len(pieces) > 0, "share", site, "the share %v is not computed by code that is understood (%s)", p.val, kept.why) {
			continue
		}
		for _, q := range pieces {
			if q.impossible() {
				continue
			}
			ok, why := rightShare(q.guards, q.val, id)
			r.must(ok, "share", site, "the share of a word is %v if %v: %s", q.val, q.guards, why)
		}
	}
	return true
}

// shareOf is the probability of a condition on a random number from [0, 1), not
// cut to the range of probabilities.
func shareOf(cond, draw *kx) *kx {
	if cond.op != "lt" && cond.op != "le" {
		return nil
	}
	// co*draw + rest < 0
	at := func(n int64) *kx { return kReplace(cond.args[0], draw, kInt(n)) }
	rest := at(0)
	co := kSub(at(1), rest)
	c, ok := co.konst()
	if !ok || c.Sign() == 0 || !kEq(kSub(at(2), at(1)), co) || !kEq(kSub(cond.args[0], kMul(co, draw)), rest) {
		return nil
	}
	limit := kMul(rest, kRat(new(big.Rat).Neg(new(big.Rat).Inv(c))))
	if c.Sign() < 0 {
		return kSub(kInt(1), limit)
	}
	return limit
}

// rightShare compares a share with min(1, sqrt(threshold*words/freq)).
func rightShare(guards []*kx, share, id *kx) (bool, string) {
	t := mkx("opt:SubsampleThreshold")
	κ := mkx("κ")
	off := kDecide(guards, mkRel("le", t)) == 1
	on := kDecide(guards, mkRel("lt", kNeg(t))) == 1
	atLeast1 := false
	if c, ok := share.konst(); ok {
		atLeast1 = c.Cmp(big.NewRat(1, 1)) >= 0
	} else {
		atLeast1 = kDecide(guards, mkRel("le", kSub(kInt(1), share))) == 1
	}
	if off && atLeast1 {
		return true, ""
	}
	for _, total := range []*kx{kSum(mkx("V"), κ, mkx("freq", κ)), mkx("words")} {
		f := mkx("freq", id)
		square := kDiv(kMul(t, total), f)
		want := kSqrt(square)
		if kEq(share, want) {
			if on {
				return true, ""
			}
			return false, "it is 0 for a threshold of 0"
		}
		if !atLeast1 {
			continue
		}
		for _, d := range []*kx{
			kSub(kInt(1), want), kSub(kInt(1), square), kSub(f, kMul(t, total)), kSub(kDiv(f, total), t),
			kSub(kDiv(kInt(1), square), kInt(1)), kSub(kDiv(kInt(1), want), kInt(1)),
		} {
			if kDecide(guards, mkRel("le", d)) == 1 || kDecide(guards, mkRel("lt", d)) == 1 {
				return true, ""
			}
		}
	}
	return false, "it has to be min(1, sqrt(threshold / relative frequency))"
}

// keptFields knows what the fields that a constructor fills hold.
type keptFields struct {
	w    *kworld
	why  string
	runs map[string][]keptRun
}

type keptPiece struct {
	guards []*kx
	val    *kx
}

// keptRun is what one way through a constructor stores in a field.
type keptRun struct {
	val    *kx
	pieces map[*kx][]keptPiece // for slices: per index symbol
	idx    *kx
	guards []*kx
}

func newKept(w *kworld) *keptFields { return &keptFields{w: w, runs: map[string][]keptRun{}} }

// constructors are the functions of the model's package that store a field or call
// a function that does.
func (c *keptFields) constructors(field string) (out []*ssa.Function) {
	p := c.w.r.P
	stores := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && "fa:"+fieldIDOf(fa).typ+"."+fieldIDOf(fa).field == field {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.Function]int{}
	var reach func(f *ssa.Function, d int) bool
	reach = func(f *ssa.Function, d int) bool {
		if f == nil || d > 4 || !p.inRepo(f) {
			return false
		}
		if v := seen[f]; v != 0 {
			return v == 1
		}
		seen[f] = 2
		ok := stores(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ok {
					break
				}
				if call, is := in.(ssa.CallInstruction); is {
					if g := call.Common().StaticCallee(); g != nil && reach(g, d+1) {
						ok = true
					}
				}
			}
		}
		if ok {
			seen[f] = 1
		}
		return ok
	}
	for _, f := range p.Funcs {
		if f.Pkg == c.w.m.Pkg && f.Parent() == nil && reach(f, 0) {
			out = append(out, f)
		}
	}
	// the outermost ones know the options
	called := map[*ssa.Function]bool{}
	for _, f := range out {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, is := in.(ssa.CallInstruction); is {
					if g := call.Common().StaticCallee(); g != nil && g != f {
						called[g] = true
					}
				}
			}
		}
	}
	var top []*ssa.Function
	for _, f := range out {
		if !called[f] {
			top = append(top, f)
		}
	}
	return top
}

// of lists what a field may hold.
func (c *keptFields) of(field string) []keptRun {
	if v, ok := c.runs[field]; ok {
		return v
	}
	c.runs[field] = nil
	var out []keptRun
	for _, f := range c.constructors(field) {
		paths, _, abort := c.w.run(f)
		if abort != "" {
			c.why = fnName(f) + ": " + abort
			return nil
		}
		for _, q := range paths {
			for i, e := range q.events {
				if e.kind != "set" && e.kind != "write" || e.addr.op != field {
					continue
				}
				out = append(out, c.run(q, i, e.val))
			}
		}
	}
	c.runs[field] = out
	return out
}

// run finds the content of a slice that a way through a function stores.
func (c *keptFields) run(q *kpath, _ int, v *kx) keptRun {
	run := keptRun{val: v, guards: q.guards}
	if !strings.HasPrefix(v.op, "make#") && v.op != "last" {
		return run
	}
	// what a round of a loop makes the element of the round
	element := func(l *kloop, t *kpath) (val *kx, touches bool) {
		for _, g := range t.events {
			switch {
			case g.kind == "write" && g.addr.op == "ia" && g.addr.args[0] == v:
				touches = true
				if val = g.val; g.addr.args[1] != l.k {
					val = mkx("unknown")
				}
			case g.kind == "append" && v.op == "last" && g.args[0] == v.args[1] && v.args[0] == l.k && len(g.args) == 2:
				from := l.init[v.args[1]]
				if touches || from == nil || from.op != "nil" && !(strings.HasPrefix(from.op, "make#") && from.args[0].isInt(0)) {
					return mkx("unknown"), true
				}
				touches = true
				val = appendedOne(t, g)
			case g.kind == "loop" && hasUpdates(g.loop, func(b *kx) bool { return b == v }):
				return mkx("unknown"), true
			}
		}
		return
	}
	for _, e := range q.events {
		switch {
		case e.kind == "write" && e.addr.op == "ia" && e.addr.args[0] == v:
			c.why = "single elements are assigned (" + e.pos + ")"
			run.idx, run.pieces = nil, nil
			return run
		case e.kind == "loop":
			var ps []keptPiece
			writes := false
			for _, t := range e.loop.paths {
				if t.end != "next" {
					continue
				}
				val, touches := element(e.loop, t)
				writes = writes || touches
				if val == nil {
					val = mkx("unknown")
					if v.op != "last" {
						val = kInt(0)
					}
				}
				ps = append(ps, keptPiece{append(append([]*kx{}, t.guards...), q.guards...), val})
			}
			if !writes {
				continue
			}
			if e.loop.breaks || e.loop.n == nil || !kEq(e.loop.n, mkx("V")) || run.idx != nil {
				c.why = "not every element is assigned once (" + e.pos + ")"
				run.idx, run.pieces = nil, nil
				return run
			}
			run.idx = e.loop.k
			run.pieces = map[*kx][]keptPiece{e.loop.k: ps}
		}
	}
	return run
}

// appendedOne is the one number that is appended.
func appendedOne(t *kpath, e kevent) *kx {
	var val *kx
	n := 0
	for _, g := range t.events {
		if g.kind == "write" && g.addr.op == "ia" && g.addr.args[0] == e.args[1] {
			n++
			if val = g.val; !g.addr.args[1].isInt(0) {
				n++
			}
		}
	}
	if n != 1 {
		return nil
	}
	return val
}

// pieces expands a number into what it may be, for one word.
func (c *keptFields) pieces(p keptPiece, id *kx) []keptPiece {
	work := []keptPiece{p}
	for n := 0; n < 6; n++ {
		again := false
		var next []keptPiece
		for _, p := range work {
			exp := c.expand(p, id)
			if exp == nil {
				next = append(next, p)
				continue
			}
			again = true
			next = append(next, exp...)
		}
		work = next
		if !again {
			break
		}
	}
	for _, p := range work {
		bad := false
		p.val.each(func(y *kx) {
			bad = bad || y.op == "unknown" || y.op == "ld" && y != id && !id.has(y)
		})
		if bad {
			if c.why == "" {
				c.why = "of " + p.val.String()
			}
			return nil
		}
	}
	return work
}

// impossible reports that the conditions contradict each other.
func (p keptPiece) impossible() bool {
	for i, g := range p.guards {
		if kDecide(p.guards[:i], g) == 0 {
			return true
		}
	}
	return false
}

// expand replaces one field that the number, or a condition, reads.
func (c *keptFields) expand(p keptPiece, id *kx) []keptPiece {
	for i, x := range append([]*kx{p.val}, p.guards...) {
		var elem, scalar, minmax *kx
		x.each(func(y *kx) {
			if (y.op == "min" || y.op == "max") && len(y.args) == 2 {
				minmax = y
			}
			if y.op != "ld" || y == id || id.has(y) {
				return
			}
			a := y.args[0]
			switch {
			case a.op == "ia" && a.args[1] == id && a.args[0].op == "ld" && strings.HasPrefix(a.args[0].args[0].op, "fa:"):
				elem = y
			case strings.HasPrefix(a.op, "fa:") && isNumericKx(x, y):
				scalar = y
			}
		})
		var out []keptPiece
		replace := func(from, to *kx, more ...*kx) {
			np := keptPiece{nil, kReplace(p.val, from, to)}
			for _, g := range p.guards {
				np.guards = append(np.guards, redecide(kReplace(g, from, to)))
			}
			np.guards = append(np.guards, more...)
			out = append(out, np)
		}
		switch {
		case elem != nil:
			for _, run := range c.of(elem.args[0].args[0].args[0].op) {
				if run.idx == nil {
					return nil
				}
				for _, q := range run.pieces[run.idx] {
					var gs []*kx
					for _, g := range q.guards {
						gs = append(gs, kReplace(g, run.idx, id))
					}
					replace(elem, kReplace(q.val, run.idx, id), gs...)
				}
			}
		case scalar != nil:
			for _, run := range c.of(scalar.args[0].op) {
				replace(scalar, run.val, run.guards...)
			}
		case minmax != nil && i == 0:
			a, b := minmax.args[0], minmax.args[1]
			if minmax.op == "max" {
				a, b = b, a
			}
			replace(minmax, minmax.args[0], mkRel("le", kSub(a, b)))
			replace(minmax, minmax.args[1], mkRel("lt", kSub(b, a)))
		}
		if len(out) > 0 {
			return out
		}
	}
	return nil
}

// redecide normalises a comparison after a replacement.
func redecide(g *kx) *kx {
	switch g.op {
	case "lt", "le", "ile", "eq":
		return mkRel(g.op, g.args[0])
	case "not":
		return kNot(redecide(g.args[0]))
	}
	return g
}

// isNumericKx reports that y occurs in x as a number, not as a part of an address.
func isNumericKx(x, y *kx) bool {
	if x == y {
		return true
	}
	if x.n == nil {
		switch x.op {
		case "lt", "le", "ile", "eq", "not", "min", "max":
		default:
			return false
		}
	}
	ok := false
	if x.n != nil {
		for _, p := range []poly{x.n.n, x.n.d} {
			for _, m := range p {
				for _, q := range m.f {
					ok = ok || q.a != x && isNumericKx(q.a, y)
				}
			}
		}
	}
	for _, a := range x.args {
		ok = ok || isNumericKx(a, y)
	}
	return ok
}

// drawsUniform reports that a function, or one that it calls without giving it a
// position, makes a random trial.
func (p *Prog) drawsUniform(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, d int) bool
	walk = func(f *ssa.Function, d int) bool {
		if f == nil || seen[f] || d > 3 {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil {
					continue
				}
				if uniform01[qualName(g)] {
					return true
				}
				if p.inRepo(g) && strings.Contains(pkgOf(g).Path(), "/modelutil") && walk(g, d+1) {
					return true
				}
			}
		}
		return false
	}
	return walk(fn, 0)
}

// unchanged demands that workers do not change the fields that were used.
func (c *keptFields) unchanged() {
	p := c.w.r.P
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.inRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(call.Common()) {
						walk(g)
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				if ia, ok := a.(*ssa.IndexAddr); ok {
					for _, v := range p.sources(ia.X) {
						if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
							a = l.X
						}
					}
				}
				if fa, ok := a.(*ssa.FieldAddr); ok {
					field := "fa:" + fieldIDOf(fa).typ + "." + fieldIDOf(fa).field
					if _, used := c.runs[field]; used {
						c.w.r.bad("share", "["+c.w.m.Name+"] "+fnName(f), "workers change %s, which decides which words are trained (%s)", fieldIDOf(fa), p.posOf(st))
					}
				}
			}
		}
	}
	for _, f := range c.w.goFuncs() {
		walk(f)
	}
}
