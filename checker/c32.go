package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C32",
		Technique: "abstract interpretation over go/ssa with an inductive hypothesis per loop (a ghost count of the words that are pending, or of those delivered) and one arbitrary iteration of each loop",
		Explanation: "BatchWords of each corpus is analysed with a ghost value: the number of words that were kept and not sent yet, or the position up to which the words were sent. It must be 0 first, every word must be put right behind the pending ones, every send must hand over exactly the pending words (or the words from the position on), a buffer that was sent must not be used again, any round of the loop must preserve this, and nothing may be pending when it returns without an error. " +
			"Every function that receives batches must, in each iteration, start one BatchWords on the channel it receives from, give each batch to exactly one worker, and go on until the channel is closed. Every worker must have one loop that handles each index of its batch exactly once, and reports progress exactly once per index.",
		Assumptions: []string{
			"The batch size is positive (C09), and which words are kept is decided by C21.",
		},
		Run: runC32,
	})
}

func runC32(r *Rep) {
	r.rule("batches", 2, "the batches are the kept words, each once and in order")
	r.rule("handed-out", 2, "each batch of each iteration is given to one worker")
	r.rule("every-word", 2, "a worker handles every word of its batch once")
	r.rule("progress", 3, "a worker reports its progress once per word")
	p := r.P
	cs := p.corpora(r)
	for _, c := range cs {
		batchesRule(r, c)
	}
	ws := p.trainWorkers()
	var batch []*ssa.Function
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) || fn.Parent() != nil {
			continue
		}
		if receivesBatches(fn) {
			for w, i := range handBatches(r, fn, cs) {
				if _, ok := ws[w]; !ok {
					ws[w] = i
				}
				batch = append(batch, w)
			}
		}
	}
	for _, fn := range p.Funcs {
		i, ok := ws[fn]
		if !ok {
			continue
		}
		rule := newRep("C22", p)
		h := everyItem(rule, fn, i)
		for _, w := range batch {
			if w == fn {
				why := ""
				for _, o := range rule.obl {
					if !o.OK {
						why = o.Msg
					}
				}
				r.must(h != nil, "every-word", fnName(fn), "%s", why)
			}
		}
		progressRule(r, fn, h)
	}
}

// ---- BatchWords ----

// A holder keeps the list of the pending words, or their number.
type holder struct {
	cell *Term
	phi  *Term
}

func (h *holder) get(s *State, now func(phi *Term) *Term) *Term {
	if h.phi != nil {
		if v := now(h.phi); v != nil {
			return s.norm(v)
		}
		return nil
	}
	if v := s.read(h.cell); v != nil {
		return s.norm(v)
	}
	return nil
}

func (h *holder) set(s *State, v *Term) {
	if h.phi != nil {
		s.env[h.phi] = v
	} else {
		s.mem[h.cell] = v
	}
}

// oneFresh: a list that was made where the round is, so that it is another
// one each time.
func oneFresh(s *State, t *Term, round *loopAt) bool {
	if t == nil {
		return false
	}
	if s.nilOf(t) == 1 || t.Kind == 'c' {
		return true
	}
	for t.Kind == 'o' && t.Op == "slice" {
		t = t.Args[0]
	}
	if t.Kind != 'l' || t.Extra != "" {
		return false
	}
	in, ok := t.Val.(ssa.Instruction)
	if !ok {
		return false
	}
	switch in.(type) {
	case *ssa.MakeSlice, *ssa.Alloc:
	default:
		return false
	}
	f, h := innermost(t.Frame, in.Block())
	if round == nil {
		return true
	}
	return f == round.f && h == round.h
}

type loopAt struct {
	f *Frame
	h *ssa.BasicBlock
}

func batchesRule(r *Rep, c *corpusType) {
	p := r.P
	fn := c.bw
	site := fnName(fn)
	var W *ssa.Parameter
	for _, q := range fn.Params {
		if isSignedInt(q.Type()) {
			W = q
		}
	}
	if W == nil {
		r.bad("batches", site, "the batch size is not an argument")
		return
	}
	intT := types.Typ[types.Int]
	var list, count *holder // the pending words, or the words that are left; their number, or the position
	var round *loopAt
	first := true
	slack := int64(1) // how much smaller than the batch size the number of pending words is
	bad := ""
	note := func(f string, args ...interface{}) {
		if bad == "" && !first {
			bad = fmt.Sprintf(f, args...)
		}
	}
	var D *Term
	sends, exits, stores, appends := 0, 0, 0, 0
	from := map[*Term]*Term{} // loaded value -> where it is kept
	qs := map[string]*Term{}
	Q := func(s *State) *Term { return qs[s.auto["q"]] }
	setQ := func(s *State, t *Term) {
		k := fmt.Sprint(t.id)
		qs[k] = t
		s.auto["q"] = k
	}
	P, B := mkSym("pending", intT), mkSym("buffer", types.NewSlice(intT))
	holderOf := func(t *Term) *holder {
		if a := from[t]; a != nil {
			return &holder{cell: a}
		}
		if _, ok := t.Val.(*ssa.Phi); ok && t.Kind == 'l' {
			return &holder{phi: t}
		}
		return nil
	}
	base := func(s *State, t *Term) (b, lo, hi *Term) {
		t = s.norm(t)
		if t.Kind == 'o' && t.Op == "slice" {
			return t.Args[0], t.Args[1], t.Args[2]
		}
		return t, mkInt(0), s.lenOf(t)
	}
	// what is known about the position when it is a counter
	position := func(s *State) {
		if D == nil || list != nil || count == nil || Q(s) != P {
			return
		}
		i := s.norm(count.get(s, func(ph *Term) *Term { return ph }))
		if i == nil {
			return
		}
		n := s.lenOf(D)
		if v := s.ivalOf(linOf(n).plus(linOf(i), -1)); v.hasLo && v.lo >= 0 {
			s.addLin(linOf(P).plus(linOf(i), -1), ival{hasLo: true, hasHi: true})
		} else if v.hasHi && v.hi <= 0 {
			s.addLin(linOf(P).plus(linOf(n), -1), ival{hasLo: true, hasHi: true})
		}
	}
	cl := &Client{
		Inline: func(k *Call) bool {
			return k.Fn != nil && p.inRepo(k.Fn) && k.Fn != c.idoc && !namedIsRecv(k.Fn, "corpus/dictionary", "Dictionary") && !namedIsRecv(k.Fn, "corpus/cpsutil", "Filters")
		},
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
		Pin:  func(v ssa.Value) bool { q, ok := v.(*ssa.Parameter); return ok && q.Parent() == fn },
	}
	// the list that the pending words are in
	current := func(x *Ctx, b *Term) bool {
		s := x.S
		if s.auto["sent"] == fmt.Sprint(b.id) {
			note("a batch is changed after it was sent (%s)", x.Pos())
			return false
		}
		if s.auto["cur"] == "" {
			if f, h := innermost(x.F, x.I.Block()); h == nil || !oneFresh(s, b, &loopAt{f, h}) {
				note("words are put into %s (%s)", b, x.Pos())
				return false
			}
			return true
		}
		if s.auto["cur"] != fmt.Sprint(b.id) {
			note("a word is put into %s, the pending words are in another list (%s)", b, x.Pos())
			return false
		}
		return true
	}
	words := func(s *State, t *Term) bool {
		b, _, _ := base(s, t)
		return b == D || s.auto["cur"] == fmt.Sprint(b.id) || s.auto["sent"] == fmt.Sprint(b.id)
	}
	cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		switch {
		case isVerboseDo(k.Name):
			return true, nil
		case k.Fn == c.idoc:
			t := mkOp("idoc", types.NewSlice(intT), s.norm(k.Args[0]))
			if D != nil && D != t {
				note("the words of two corpora are delivered (%s)", x.Pos())
			}
			D = t
			return true, t
		case k.Name == "builtin.append" && isIntSlice(k.Com.Args[0].Type()):
			appends++
			b := s.norm(k.Args[0])
			if first {
				if f, h := innermost(x.F, x.I.Block()); h != nil {
					list, round = holderOf(b), &loopAt{f, h}
				}
				return false, nil
			}
			el := elements(s, k.Args[1])
			if len(el) != 1 {
				note("the words that are added are not known (%s)", x.Pos())
				return false, nil
			}
			v, isV := x.I.(*ssa.Call)
			if !isV || !current(x, b) || !s.equal(s.lenOf(b), Q(s)) {
				note("a word is put at %s, %s words are pending (%s)", s.lenOf(b), Q(s), x.Pos())
				return false, nil
			}
			setQ(s, mkLin(linOf(Q(s)).plus(lin{c: 1}, 1)))
			s.auto["cur"] = fmt.Sprint(mkLeaf(x.F, v, "").id)
			return false, nil
		case k.Name == "builtin.len" || k.Name == "builtin.cap" || k.Name == "builtin.append":
			return false, nil
		}
		if cl.Inline(k) {
			return false, nil
		}
		for _, a := range k.Args {
			if a != nil && isIntSlice(a.Typ) && words(s, a) {
				note("the words are passed to %s (%s)", k.Name, x.Pos())
			}
		}
		return false, nil
	}
	cl.Go = func(x *Ctx, k *Call) { note("words are delivered by another goroutine (%s)", x.Pos()) }
	cl.Loop = func(x *Ctx, h *ssa.BasicBlock) {
		if first {
			return
		}
		if round == nil || x.F != round.f || h != round.h {
			return
		}
		s := x.S
		setQ(s, P)
		s.addLin(linOf(P), ival{hasLo: true})
		delete(s.auto, "sent")
		if D != nil {
			n := mkLen(D)
			s.addLin(linOf(n).plus(linOf(P), -1), ival{hasLo: true})
			if list != nil {
				list.set(s, mkOp("slice", D.Typ, D, P, n))
			} else if i := s.norm(count.get(s, func(ph *Term) *Term { return ph })); i != nil {
				s.addLin(linOf(i).plus(linOf(P), -1), ival{hasLo: true})
			}
			return
		}
		s.auto["cur"] = fmt.Sprint(B.id)
		list.set(s, B)
		w := mkLeaf(x.E.Root, W, "")
		if count != nil {
			count.set(s, P)
			s.addLin(linOf(w).plus(linOf(P), -1), ival{hasLo: true, lo: slack})
			s.addLin(linOf(mkLen(B)).plus(linOf(w), -1), ival{hasLo: true, hasHi: true})
		} else {
			s.addLin(linOf(mkLen(B)).plus(linOf(P), -1), ival{hasLo: true, hasHi: true})
		}
	}
	// the hypothesis holds here
	holds := func(x *Ctx, now func(*Term) *Term, in *loopAt, at string) {
		s := x.S
		q := Q(s)
		if D != nil {
			n := s.lenOf(D)
			if list != nil {
				v := list.get(s, now)
				if v == nil {
					note("the words that are left are not known (%s)", at)
					return
				}
				b, lo, hi := base(s, v)
				if b != D || !s.equal(lo, q) || !s.equal(hi, n) {
					note("the words before %s were sent, and %s are left (%s)", q, v, at)
				}
				return
			}
			position(s)
			i := count.get(s, now)
			if i == nil || !(s.equal(i, q) && s.lessEq(q, n) || s.equal(q, n) && s.lessEq(n, i)) {
				note("the words before %s were sent, and the next is %s (%s)", q, i, at)
			}
			return
		}
		l := list.get(s, now)
		if l == nil {
			note("the list of the pending words is not known (%s)", at)
			return
		}
		b, lo, _ := base(s, l)
		switch {
		case s.auto["cur"] != "" && s.auto["cur"] == fmt.Sprint(b.id) && s.equal(lo, mkInt(0)):
		case s.auto["sent"] != fmt.Sprint(b.id) && s.auto["cur"] == "" && oneFresh(s, b, in):
		default:
			note("the next words are put into %s (%s)", l, at)
			return
		}
		w := mkLeaf(x.E.Root, W, "")
		if count == nil {
			if !s.equal(s.lenOf(l), q) {
				note("%s words are pending, and the list has %s (%s)", q, s.lenOf(l), at)
			}
			return
		}
		n := count.get(s, now)
		switch {
		case n == nil || !s.equal(n, q):
			note("%s words are pending, and %s are counted (%s)", q, n, at)
		case !s.equal(s.lenOf(l), w):
			note("the list of the pending words has room for %s words (%s)", s.lenOf(l), at)
		}
		if v := s.ivalOf(linOf(w).plus(linOf(q), -1)); !v.hasLo || v.lo < slack {
			note("%s words can be pending, a batch has %s (%s)", q, w, at)
		}
	}
	cl.Next = func(x *Ctx, fromB, to *ssa.BasicBlock) {
		if first || round == nil {
			return
		}
		at := p.posOf(fromB.Instrs[len(fromB.Instrs)-1])
		body := naturalLoop(round.h)
		if x.F == round.f && fromB == round.h {
			position(x.S)
		}
		if x.F == round.f && to == round.h {
			k := predIndex(to, fromB)
			var in *loopAt
			if body[fromB] {
				in = round
			}
			holds(x, func(ph *Term) *Term {
				if v, ok := ph.Val.(*ssa.Phi); ok && v.Block() == to && ph.Frame == x.F {
					return x.Val(v.Edges[k])
				}
				return ph
			}, in, at)
		}
	}
	cl.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.UnOp:
			if in.Op == token.MUL && (isIntSlice(in.Type()) || isSignedInt(in.Type())) && first {
				if a := s.norm(x.Val(in.X)); a.Kind != 'o' || a.Op != "indexaddr" {
					from[mkLeaf(x.F, in, "")] = a
					if v := s.read(a); v != nil {
						from[s.norm(v)] = a
					}
				}
			}
		case *ssa.Store:
			ia, ok := in.Addr.(*ssa.IndexAddr)
			if !ok || !isIntSlice(ia.X.Type()) {
				return
			}
			stores++
			l, i := s.norm(x.Val(ia.X)), s.norm(x.Val(ia.Index))
			if first {
				if f, h := innermost(x.F, x.I.Block()); h != nil && D == nil {
					list, count, round = holderOf(l), holderOf(i), &loopAt{f, h}
				}
				return
			}
			if D != nil {
				note("the words are changed (%s)", x.Pos())
				return
			}
			b, lo, _ := base(s, l)
			if !s.equal(lo, mkInt(0)) || !current(x, b) {
				note("a word is put into %s (%s)", l, x.Pos())
				return
			}
			if !s.equal(i, Q(s)) {
				note("a word is put at %s, %s words are pending (%s)", i, Q(s), x.Pos())
			}
			setQ(s, mkLin(linOf(Q(s)).plus(lin{c: 1}, 1)))
			s.auto["cur"] = fmt.Sprint(b.id)
		case *ssa.Select:
			for _, st := range in.States {
				if st.Dir == types.SendOnly && isIntSlice(st.Send.Type()) {
					note("a batch is sent only if it can be at once (%s)", x.Pos())
				}
			}
		case *ssa.Send:
			if !isIntSlice(in.X.Type()) {
				return
			}
			sends++
			t := s.norm(x.Val(in.X))
			b, lo, hi := base(s, t)
			if first {
				if f, h := innermost(x.F, x.I.Block()); h != nil && D != nil {
					round = &loopAt{f, h}
					if b == D {
						count = holderOf(lo)
					} else {
						list = holderOf(b)
					}
				}
				return
			}
			q := Q(s)
			if D != nil {
				position(s)
				switch {
				case b != D:
					note("%s is sent, which is not a part of the words (%s)", t, x.Pos())
				case !s.equal(lo, q):
					note("the words from %s on are sent, those before %s were sent (%s)", lo, q, x.Pos())
				default:
					if hi == s.lenOf(D) || s.lessEq(hi, s.lenOf(D)) {
						setQ(s, hi)
					} else {
						note("the words up to %s are sent (%s)", hi, x.Pos())
					}
				}
				return
			}
			id := fmt.Sprint(b.id)
			switch {
			case s.equal(hi, lo) && s.equal(q, mkInt(0)):
			case s.auto["sent"] == id:
				note("a batch is sent twice (%s)", x.Pos())
			case s.auto["cur"] != id:
				note("%s is sent, the pending words are in another list (%s)", t, x.Pos())
			case !s.equal(lo, mkInt(0)) || !s.equal(hi, q):
				note("the words from %s to %s are sent, %s words are pending (%s)", lo, hi, q, x.Pos())
			}
			s.auto["sent"] = id
			delete(s.auto, "cur")
			setQ(s, mkInt(0))
		}
	}
	cl.Exit = func(x *Ctx, res []*Term) {
		s := x.S
		if n := len(res); n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) && s.nilOf(res[n-1]) == 0 {
			return
		}
		exits++
		q := Q(s)
		if D != nil {
			position(s)
			if !s.equal(q, s.lenOf(D)) {
				note("the words from %s on are not sent (%s)", q, x.Pos())
			}
			return
		}
		if !s.equal(q, mkInt(0)) {
			note("%s words are not sent (%s)", q, x.Pos())
		}
	}
	cl.Panic = func(x *Ctx) {}
	e := e0(newEngine(p, cl), fn)
	run := func() {
		st := newState()
		st.nils[mkLeaf(e.Root, fn.Params[0], "")] = false
		st.addLin(linOf(mkLeaf(e.Root, W, "")), ival{hasLo: true, lo: 1})
		setQ(st, mkInt(0))
		e.Run(e.Root, st)
	}
	run()
	first = false
	ok := D == nil && list != nil && round != nil || D != nil
	if D == nil && (list == nil || round == nil) {
		bad = "no list of pending words is found"
	}
	if D != nil && round != nil && list == nil && count == nil {
		bad = "what is left of the words is not kept in a variable"
		ok = false
	}
	if ok {
		try := []int64{1, 0}
		if count == nil || D != nil {
			try = try[:1]
		}
		why := ""
		for _, sl := range try {
			slack, bad, sends, exits = sl, "", 0, 0
			e.reset()
			run()
			if bad == "" && e.Abort == "" {
				break
			}
			if why == "" {
				why = bad
			}
		}
		if bad != "" {
			bad = why
		}
		if bad == "" && (sends == 0 || exits == 0) {
			bad = "nothing is sent, or it never returns without an error"
		}
	}
	r.absorb(e, site)
	r.must(bad == "", "batches", site, "%s", bad)
}

// ---- handing out ----

func receivedBatch(v ssa.Value) *ssa.UnOp {
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.ARROW {
		return nil
	}
	ch, ok := u.X.Type().Underlying().(*types.Chan)
	if !ok || !isIntSlice(ch.Elem()) {
		return nil
	}
	return u
}

func receivesBatches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && receivedBatch(u) == u {
				return true
			}
		}
	}
	for _, g := range fn.AnonFuncs {
		if receivesBatches(g) {
			return true
		}
	}
	return false
}

// handBatches decides that fn gives each batch to one worker, and gives the workers.
func handBatches(r *Rep, fn *ssa.Function, cs []*corpusType) map[*ssa.Function]int {
	p := r.P
	site := fnName(fn)
	bad := ""
	note := func(f string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
	}
	isBW := func(f *ssa.Function) bool {
		for _, c := range cs {
			if f == c.bw {
				return true
			}
		}
		return false
	}
	callsBW := p.reaches(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		for _, f := range p.callees(c.Common()) {
			if isBW(f) {
				return true
			}
		}
		return false
	})
	starts := p.reaches(func(in ssa.Instruction) bool {
		if u, ok := in.(*ssa.UnOp); ok && receivedBatch(u) == u {
			return true
		}
		_, ok := in.(*ssa.Go)
		return ok
	})
	workers := map[*ssa.Function]int{}
	var round *loopAt
	var ranged, filled *Term
	rounds, feeds := 0, 0
	isBatch := func(s *State, t *Term) bool {
		if t == nil {
			return false
		}
		t = s.norm(t)
		if t.Kind == 'o' && t.Op == "extract" {
			t = t.Args[0]
		}
		return t.Kind == 'l' && t.Val != nil && receivedBatch(t.Val) != nil
	}
	feeders := map[*ssa.Function]bool{}
	give := func(x *Ctx) {
		if x.S.auto["given"] != "" {
			note("a batch is given to two workers (%s)", x.Pos())
		}
		x.S.auto["given"] = "y"
	}
	c := &Client{
		Inline: func(k *Call) bool {
			return k.Fn != nil && p.inRepo(k.Fn) && !isBW(k.Fn) && (starts[k.Fn] || callsBW[k.Fn])
		},
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
	}
	c.Instr = func(x *Ctx) {
		u, ok := x.I.(*ssa.UnOp)
		if !ok || receivedBatch(u) != u {
			return
		}
		if x.F.goFrame() != nil {
			note("batches are received by several goroutines (%s)", x.Pos())
			return
		}
		f, h := innermost(x.F, u.Block())
		if h == nil || f != x.F || round != nil && (round.f != f || round.h != h) {
			note("batches are received at several places, or without a loop (%s)", x.Pos())
			return
		}
		round = &loopAt{f, h}
		ch := x.S.norm(x.Val(u.X))
		if ranged != nil && ranged != ch {
			note("batches are received from several channels (%s)", x.Pos())
		}
		ranged = ch
		rounds++
		// the loop must end when the channel is closed, and only then
		iff, isIf := u.Block().Instrs[len(u.Block().Instrs)-1].(*ssa.If)
		good := u.CommaOk && isIf && u.Block() == h
		if good {
			ex, isEx := iff.Cond.(*ssa.Extract)
			body := naturalLoop(h)
			good = isEx && ex.Tuple == ssa.Value(u) && ex.Index == 1 && body[h.Succs[0]] && !body[h.Succs[1]]
			for b := range body {
				for _, t := range b.Succs {
					if b != h && !body[t] && !p.neverReturns(t) {
						good = false
					}
				}
			}
		}
		if !good {
			note("batches are not received until the channel is closed (%s)", x.Pos())
		}
		delete(x.S.auto, "given")
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if isVerboseDo(k.Name) {
			return true, nil
		}
		s := x.S
		if isBW(k.Fn) {
			feeds++
			if g := x.F.goFrame(); g != nil {
				feeders[g.Fn] = true
			} else {
				note("BatchWords is not run beside the workers (%s)", x.Pos())
			}
			if s.auto["fed"] == "y" {
				note("BatchWords can be called twice (%s)", x.Pos())
			}
			s.auto["fed"] = "y"
			if _, h := innermost(x.F, x.I.Block()); h != nil && !isOuter(x, h) {
				note("BatchWords is called in a loop (%s)", x.Pos())
			}
			ch := s.norm(k.Args[1])
			if filled != nil && filled != ch {
				note("BatchWords fills several channels (%s)", x.Pos())
			}
			filled = ch
			return true, nil
		}
		if g := x.F.goFrame(); g != nil {
			if _, ok := workers[g.Fn]; ok {
				return false, nil
			}
		}
		for i, a := range k.Args {
			if isBatch(s, a) && !c.Inline(k) && k.Fn != nil && p.inRepo(k.Fn) {
				workers[k.Fn] = i
				if x.F.goFrame() == nil {
					give(x)
				} else {
					s.auto["worked"] += "1"
				}
			}
		}
		return false, nil
	}
	c.Go = func(x *Ctx, k *Call) {
		s := x.S
		if feeders[k.Fn] {
			s.auto["feeders"] += "1"
		}
		for i, a := range k.Args {
			if isBatch(s, a) {
				give(x)
				if k.Fn != nil {
					workers[k.Fn] = i
				}
			}
		}
		for _, b := range k.Bind {
			if b == nil {
				continue
			}
			v := s.norm(b)
			if c := s.read(v); c != nil {
				v = s.norm(c)
			}
			if isBatch(s, v) {
				give(x)
			}
		}
	}
	c.Loop = func(x *Ctx, h *ssa.BasicBlock) {
		if x.F.goFrame() == nil && !directReceive(h) {
			delete(x.S.auto, "feeders")
			delete(x.S.auto, "ranged")
		}
	}
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		s := x.S
		if x.F.goFrame() != nil {
			return
		}
		at := p.posOf(from.Instrs[len(from.Instrs)-1])
		body := naturalLoop(to)
		switch {
		case body == nil:
		case directReceive(to) && !body[from]:
			if s.auto["feeders"] != "1" {
				note("%d goroutines deliver batches (%s)", len(s.auto["feeders"]), at)
			}
			s.auto["ranged"] += "1"
			delete(s.auto, "given")
		case directReceive(to):
			if s.auto["given"] != "y" {
				note("a batch can be left out (%s)", at)
			}
		case body[from]:
			for b := range body {
				if b != to && directReceive(b) && s.auto["ranged"] != "1" {
					note("an iteration can be left out (%s)", at)
				}
			}
		}
	}
	c.Exit = func(x *Ctx, res []*Term) {
		if g := x.F.goFrame(); g != nil && feeders[g.Fn] && x.S.auto["fed"] != "y" {
			note("BatchWords can be left out (%s)", x.Pos())
		}
		if g := x.F.goFrame(); g != nil && len(x.S.auto["worked"]) > 1 {
			note("a batch is given to two workers (%s)", x.Pos())
		}
	}
	e := newEngine(p, c)
	for i := 0; i < 2; i++ {
		// the goroutines that deliver are known the second time
		e.reset()
		bad, round, rounds, feeds = "", nil, 0, 0
		e.Run(e.rootFrame(fn), newState())
		for _, sp := range e.Spawns {
			delete(sp.S.auto, "fed")
			delete(sp.S.auto, "worked")
		}
		e.RunSpawned()
	}
	r.absorb(e, site)
	switch {
	case bad != "":
	case rounds == 0 || feeds == 0:
		bad = "no batches are received, or none are delivered"
	case ranged != filled:
		bad = fmt.Sprintf("batches are received from %s and delivered to %s", ranged, filled)
	case len(workers) == 0:
		bad = "no worker gets the batches"
	}
	r.must(bad == "", "handed-out", site, "%s", bad)
	return workers
}

// isOuter: the loop is in a function that started the goroutine.
func isOuter(x *Ctx, h *ssa.BasicBlock) bool {
	for f := x.F; f != nil; f = f.Parent {
		if f.Fn == h.Parent() {
			return false
		}
		if f == x.F.goFrame() {
			return true
		}
	}
	return false
}

// directReceive: batches are received in this block, which is a loop header.
func directReceive(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if u, ok := in.(*ssa.UnOp); ok && receivedBatch(u) == u {
			return true
		}
	}
	return false
}

// neverReturns: the block ends in a panic.
func (p *Prog) neverReturns(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// ---- progress ----

// progressRule: a worker sends once on the channel of the progress per item.
func progressRule(r *Rep, fn *ssa.Function, h *ssa.BasicBlock) {
	p := r.P
	site := fnName(fn)
	if h == nil {
		r.bad("progress", site, "the loop over the items is not known")
		return
	}
	bad := ""
	note := func(f string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
	}
	// other channels are pools of buffers
	report := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Struct:
			return u.NumFields() == 0
		}
		return false
	}
	sends := p.reaches(func(in ssa.Instruction) bool {
		sd, ok := in.(*ssa.Send)
		return ok && report(sd.X.Type()) || in != nil && p.instrIn(in, h)
	})
	var hf *Frame
	total := 0
	var ch *Term
	c := &Client{
		Inline: func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) && sends[k.Fn] },
		Once:   func(*Frame, *ssa.BasicBlock) bool { return true },
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) { return isVerboseDo(k.Name), nil }
	c.Go = func(x *Ctx, k *Call) {
		if k.Fn == nil || sends[k.Fn] {
			note("progress is reported by another goroutine (%s)", x.Pos())
		}
	}
	c.Loop = func(x *Ctx, b *ssa.BasicBlock) {
		if b == h {
			hf = x.F
			x.S.auto["round"] = "y"
			delete(x.S.auto, "sent")
		}
	}
	c.Instr = func(x *Ctx) {
		switch in := x.I.(type) {
		case *ssa.Send:
			if !report(in.X.Type()) {
				return
			}
			total++
			if f, b := innermost(x.F, in.Block()); b != h || f != hf {
				note("progress is reported outside of the loop over the items (%s)", x.Pos())
			}
			t := x.S.norm(x.Val(in.Chan))
			if ch != nil && ch != t {
				note("progress is reported on several channels (%s)", x.Pos())
			}
			ch = t
			x.S.auto["sent"] += "1"
		case *ssa.Select:
			for _, st := range in.States {
				if st.Dir == types.SendOnly && report(st.Send.Type()) {
					note("progress is reported only if it can be at once (%s)", x.Pos())
				}
			}
		}
	}
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		if x.F != hf || to != h || !naturalLoop(h)[from] {
			return
		}
		at := p.posOf(from.Instrs[len(from.Instrs)-1])
		if n := len(x.S.auto["sent"]); n != 1 {
			note("progress is reported %d times for an item (%s)", n, at)
		}
	}
	e := e0(newEngine(p, c), fn)
	e.Run(e.Root, newState())
	r.absorb(e, site)
	if total == 0 {
		note("progress is never reported")
	}
	r.must(bad == "", "progress", site, "%s", bad)
}

func (p *Prog) instrIn(in ssa.Instruction, h *ssa.BasicBlock) bool { return in.Block() == h }
