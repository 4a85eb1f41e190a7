package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C08",
		Technique: "abstract interpretation over go/ssa of one arbitrary iteration per loop, with an inductive hypothesis on the window of words; the pairs a loop counts are derived as exact linear constraints",
		Explanation: "Load of each corpus is analysed together with the functions it reads the corpus with. In memory: every word that is read is appended once to the list of ids, and the pairs (i, j) of positions of that list that are counted are derived from the nested loops: exactly those with 1 <= j-i <= window, once each. " +
			"Streamed: the window of words starts empty, every word that is read is appended once at its end, and it loses its first word only, after the first word was paired with each of the others exactly once, while it holds window+1 words or (after the end of the corpus) at most that many; it is empty when Load succeeds. " +
			"The counts go to one table that is made once and is the one the corpus gives out; and the window is the hyperparameter of that name for every model.",
		Assumptions: []string{
			"The window is positive (C09), lower-casing is decided by C07, the vocabulary by C13, and the table by C14.",
		},
		Run: runC08,
	})
}

func runC08(r *Rep) {
	r.rule("pairs", 2, "the pairs that are counted are those within the window, each once")
	r.rule("words", 2, "the words that are paired are those of the corpus, in order")
	r.rule("table", 2, "the counts go to the table that the corpus gives out")
	r.rule("window", 2, "the window is the hyperparameter of that name")
	p := r.P
	for _, c := range p.corpora(r) {
		pairsRule(r, nil, c)
		tableRule(r, c)
	}
	windowRule(r)
}

// windowRule: what models pass as the window.
func windowRule(r *Rep) {
	p := r.P
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) != "Window" || !namedIs(fa.X.Type(), "pkg/corpus", "WithCooccurrence") {
					continue
				}
				_, good := fa.X.(*ssa.Alloc)
				what := "changed"
				for _, s := range p.sources(st.Val) {
					f, ok := p.fieldOfValue(s)
					if !ok || !p.isOptions(f) || f.field != "Window" {
						good = false
						what = s.String()
					}
				}
				r.must(good, "window", fnName(fn), "the window is %s (%s)", what, p.posOf(in))
			}
		}
	}
}

// tableRule: Cooccurrence gives out the table of the corpus.
func tableRule(r *Rep, c *corpusType) {
	p := r.P
	get := p.methodOf(c.Typ, "Cooccurrence")
	if get == nil {
		r.bad("table", c.Pkg, "Cooccurrence is not found")
		return
	}
	bad := ""
	for _, b := range get.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, s := range p.sources(ret.Results[0]) {
			if id, ok := p.fieldOfValue(s); !ok || !strings.HasSuffix(id.typ, c.Pkg+"."+namedOf(c.Typ).Obj().Name()) {
				bad = "it gives out " + s.String()
			}
		}
	}
	r.must(bad == "", "table", fnName(get), "%s", bad)
}

// pairsRule decides which pairs a corpus counts. With dist, it is also decided
// whether the distance that it gives is that of the words, or its negative (backwards).
func pairsRule(r, dist *Rep, c *corpusType) (backwards bool) {
	p := r.P
	fn := c.load
	site := fnName(fn)
	bad := map[string]string{}
	var wrong *string // a distance
	first := true
	note := func(rule, f string, args ...interface{}) {
		if bad[rule] == "" && !first {
			bad[rule] = fmt.Sprintf(f, args...)
		}
	}
	var with *ssa.Parameter
	for _, q := range fn.Params {
		if namedIs(q.Type(), "pkg/corpus", "WithCooccurrence") {
			with = q
		}
	}
	add := map[*ssa.Function]bool{}
	for _, f := range p.adders() {
		add[f] = true
	}
	mk := p.fn("pkg/corpus/cooccurrence", "New")
	if with == nil || len(add) == 0 || mk == nil {
		r.bad("pairs", site, "the window is not an argument, or the table of co-occurrences is not found")
		return true
	}
	wst := namedOf(with.Type()).Underlying().(*types.Struct)
	wi := -1
	for i := 0; i < wst.NumFields(); i++ {
		if wst.Field(i).Name() == "Window" {
			wi = i
		}
	}
	if wi < 0 {
		r.bad("pairs", site, "the window is not found")
		return true
	}
	intT := types.Typ[types.Int]
	isStrs := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isString(s.Elem())
	}
	wsym := mkSym("window", intT)

	// streamed
	var win *holder
	var scan, inner *loopAt // the loop that reads words, and the one that pairs the first word of a window
	drains := map[loopKey]bool{}
	slack := int64(0)
	// in memory
	var docAt *Term // where the list of ids is kept
	var nested, outer *loopAt

	from := map[*Term]*Term{}
	type elem struct{ base, idx *Term }
	loaded := map[*Term]elem{}
	vs, vsI := newVisits("second"), newVisits("first")
	var list *Term // of the pairs in memory
	firstIdx := map[string]*Term{}
	before := map[string]*Term{} // the first words, known from an earlier run
	lens := map[string]lin{}
	adds, kept, appends, exits := 0, 0, 0, 0
	streamed := false
	// a loop that ends because of an error leaves pairs out
	okExit := func(x *Ctx, from, to *ssa.BasicBlock) bool {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		b, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isErrorType(b.X.Type()) {
			return false
		}
		x.S.auto["left"] = "y"
		return true
	}
	vs.okExit, vsI.okExit = okExit, okExit
	inside := func(x *Ctx, l *loopAt) bool {
		if l == nil {
			return false
		}
		b := x.I.Block()
		for f := x.F; f != nil; f = f.Parent {
			if f == l.f {
				return naturalLoop(l.h)[b]
			}
			if f.Site == nil {
				return false
			}
			b = f.Site.Block()
		}
		return false
	}
	WS := func(f *Frame, h *ssa.BasicBlock) *Term {
		return mkSym(fmt.Sprintf("window%d:%d", f.id, h.Index), types.NewSlice(types.Typ[types.String]))
	}
	base := func(s *State, t *Term) (b, lo, hi *Term) {
		t = s.norm(t)
		if t.Kind == 'o' && t.Op == "slice" {
			return t.Args[0], t.Args[1], t.Args[2]
		}
		return t, mkInt(0), s.lenOf(t)
	}
	cl := &Client{
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
		Pin:  func(v ssa.Value) bool { q, ok := v.(*ssa.Parameter); return ok && q.Parent() == fn },
	}
	cl.Inline = func(k *Call) bool {
		return k.Fn != nil && p.inRepo(k.Fn) && !add[k.Fn] && k.Fn != mk && !namedIsRecv(k.Fn, "corpus/dictionary", "Dictionary")
	}
	wordID := func(w *Term) *Term { return mkOp("idof", intT, w) }
	position := func(s *State, t *Term) (elem, bool) {
		t = s.norm(t)
		if t.Kind == 'o' && t.Op == "idof" {
			t = s.norm(t.Args[0])
		}
		e, ok := loaded[t]
		return e, ok
	}
	cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		switch {
		case isVerboseDo(k.Name):
			return true, nil
		case k.Name == "strings.ToLower" || k.Name == "strings.ToUpper":
			return true, s.norm(k.Args[0])
		case k.Name == "bufio.Scanner.Text":
			if v, ok := x.I.(*ssa.Call); ok {
				s.tags[mkLeaf(x.F, v, "")] = "text"
			}
			return false, nil
		case k.Name == "bufio.Scanner.Scan":
			if v, ok := x.I.(*ssa.Call); ok {
				t := mkLeaf(x.F, v, "")
				s.tags[t] = "scan"
				if s.auto["scanned"] != "" && inside(x, scan) {
					note("words", "a word can be passed over (%s)", x.Pos())
				}
				s.auto["scanned"] = "y"
			}
			return false, nil
		case k.Fn == mk:
			if _, h := innermost(x.F, x.I.Block()); h != nil {
				note("table", "the table is made in a loop (%s)", x.Pos())
			}
			if s.auto["table"] != "" {
				note("table", "the table is made twice (%s)", x.Pos())
			}
			s.auto["table"] = "y"
			return false, nil
		case k.Fn != nil && namedIsRecv(k.Fn, "corpus/dictionary", "Dictionary") && k.Fn.Name() == "ID":
			id := wordID(s.norm(k.Args[1]))
			return true, mkOp("tuple", k.Fn.Signature.Results(), id, mkSym("known", types.Typ[types.Bool]))
		case k.Name == "builtin.append" && isStrs(k.Com.Args[0].Type()):
			l := s.norm(k.Args[0])
			if first {
				if f, h := innermost(x.F, x.I.Block()); h != nil {
					win, scan, streamed = holderOf(from, l), &loopAt{f, h}, true
				}
				return false, nil
			}
			el := elements(s, k.Args[1])
			v, isV := x.I.(*ssa.Call)
			switch {
			case !isV || len(el) != 1 || el[0] == nil || s.tags[el[0]] != "text":
				note("words", "what is appended is not the word that was read (%s)", x.Pos())
			case s.auto["cur"] != fmt.Sprint(l.id):
				note("words", "a word is appended to %s, which is not the window (%s)", l, x.Pos())
			case !inside(x, scan):
				note("words", "words are appended outside of the loop that reads them (%s)", x.Pos())
			default:
				appends++
				s.auto["appended"] += "1"
				s.auto["cur"] = fmt.Sprint(mkLeaf(x.F, v, "").id)
			}
			return false, nil
		case k.Name == "builtin.append" && isIntSlice(k.Com.Args[0].Type()):
			l := s.norm(k.Args[0])
			if first {
				if f, h := innermost(x.F, x.I.Block()); h != nil && from[l] != nil {
					docAt, scan = from[l], &loopAt{f, h}
				}
				return false, nil
			}
			el := elements(s, k.Args[1])
			v, isV := x.I.(*ssa.Call)
			switch {
			case docAt == nil:
			case !isV || len(el) != 1 || el[0] == nil || el[0].Kind != 'o' || el[0].Op != "idof" || s.tags[s.norm(el[0].Args[0])] != "text":
				note("words", "what is appended is not the word that was read (%s)", x.Pos())
			case s.read(docAt) != nil && s.norm(s.read(docAt)) != l:
				note("words", "a word is appended to %s, which is not the list of words (%s)", l, x.Pos())
			default:
				appends++
				s.auto["appended"] += "1"
				s.auto["cur"] = fmt.Sprint(mkLeaf(x.F, v, "").id)
			}
			return false, nil
		case add[k.Fn]:
			adds++
			recv := s.norm(k.Args[0])
			if recv.Kind == 'o' && recv.Op == "extract" {
				recv = recv.Args[0]
			}
			if call, ok := recv.Val.(*ssa.Call); !ok || call.Call.StaticCallee() != mk {
				note("table", "pairs are counted in %s (%s)", recv, x.Pos())
			}
			a, ok1 := position(s, k.Args[1])
			b, ok2 := position(s, k.Args[2])
			if !ok1 || !ok2 {
				note("pairs", "%s and %s are counted, which are not two words of the corpus (%s)", s.norm(k.Args[1]), s.norm(k.Args[2]), x.Pos())
				return false, nil
			}
			f, h := innermost(x.F, x.I.Block())
			if h == nil || a.base != b.base {
				note("pairs", "pairs are not counted in a loop over one list (%s)", x.Pos())
				return false, nil
			}
			if s.auto["added"] != "" {
				note("pairs", "a pair is counted twice (%s)", x.Pos())
			}
			s.auto["added"] = "y"
			if v, ok := x.I.(*ssa.Call); ok {
				s.tags[mkLeaf(x.F, v, "")] = "adderr"
				s.auto["unchecked"] = "y"
			}
			moves := func(t *Term) bool {
				for _, l := range t.leaves {
					if ph, ok := l.Val.(*ssa.Phi); ok && ph.Block() == h && l.Frame == f {
						return true
					}
				}
				return false
			}
			if moves(a.idx) == moves(b.idx) {
				note("pairs", "%s and %s are counted (%s)", a.idx, b.idx, x.Pos())
				return false, nil
			}
			if moves(a.idx) {
				a, b = b, a
			}
			d, far := mkInt(1), mkLin(linOf(b.idx).plus(linOf(a.idx), -1))
			if len(k.Args) > 3 {
				d = s.norm(k.Args[3])
			}
			switch {
			case s.equal(d, far):
			case s.equal(d, mkLin(lin{}.plus(linOf(far), -1))):
				backwards = true
			default:
				if !first {
					far := fmt.Sprintf("%s is given as the distance of the words at %s and %s (%s)", d, a.idx, b.idx, x.Pos())
					wrong = &far
				}
			}
			tag := strings.TrimPrefix(vs.record(x, b.idx), "visit ")
			s.auto["used "+tag] = "y"
			nested = &loopAt{f, h}
			if streamed {
				inner = nested
				if s.auto["cur"] != fmt.Sprint(b.base.id) {
					note("pairs", "pairs are taken from %s, which is not the window (%s)", b.base, x.Pos())
				}
				if !s.equal(a.idx, mkInt(0)) {
					note("pairs", "the word at %s of the window is paired (%s)", a.idx, x.Pos())
				}
				n := canonLin(s, linOf(s.lenOf(b.base)))
				if old, ok := lens[tag]; ok && mkLin(old.plus(n, -1)) != mkInt(0) {
					note("pairs", "the lengths of the window differ (%s)", x.Pos())
				}
				lens[tag] = n
			} else {
				list = canonical(s, b.base, 0)
				if docAt == nil || s.norm(s.content(docAt, b.base.Typ)) != b.base {
					note("pairs", "pairs are taken from %s, which is not the list of words (%s)", b.base, x.Pos())
				}
				if old := firstIdx[tag]; old != nil && old != a.idx {
					note("pairs", "pairs have several first words (%s)", x.Pos())
				}
				firstIdx[tag] = a.idx
				lens[tag] = canonLin(s, linOf(wsym))
			}
			return false, nil
		}
		return false, nil
	}
	cl.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return
			}
			a := s.norm(x.Val(in.X))
			l := mkLeaf(x.F, in, "")
			if a.Kind == 'o' && a.Op == "fieldaddr" && a.Field == wi && a.Args[0] == mkLeaf(x.E.Root, with, "") {
				s.mem[a] = wsym // it is never changed
				return
			}
			if a.Kind == 'o' && a.Op == "indexaddr" {
				if isSignedInt(in.Type()) || isString(in.Type()) {
					e := elem{a.Args[0], a.Args[1]}
					loaded[l] = e
					if v := s.read(a); v != nil {
						loaded[s.norm(v)] = e
					}
				}
				return
			}
			if first && (isIntSlice(in.Type()) || isStrs(in.Type())) {
				from[l] = a
				if v := s.read(a); v != nil {
					from[s.norm(v)] = a
				}
			}
		case *ssa.Store:
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				if isStrs(ia.X.Type()) || isIntSlice(ia.X.Type()) {
					note("words", "a word in the list is replaced (%s)", x.Pos())
				}
				return
			}
			a := s.norm(x.Val(in.Addr))
			if win != nil && a == win.cell {
				v := s.norm(x.Val(in.Val))
				if s.auto["cur"] == fmt.Sprint(v.id) {
					return
				}
				b, lo, hi := base(s, v)
				if s.auto["cur"] == "" {
					if !s.equal(s.lenOf(v), mkInt(0)) {
						note("words", "the window starts as %s (%s)", v, x.Pos())
					}
					s.auto["cur"] = fmt.Sprint(v.id)
					return
				}
				if s.auto["cur"] != fmt.Sprint(b.id) || !s.equal(lo, mkInt(1)) || !s.equal(hi, s.lenOf(b)) {
					note("pairs", "the window becomes %s (%s)", v, x.Pos())
					return
				}
				shrink(s, x.Pos(), b, wsym, inside(x, scan), note)
				s.auto["cur"] = fmt.Sprint(v.id)
			}
			if docAt != nil && a == docAt && !first {
				if v := s.norm(x.Val(in.Val)); s.auto["cur"] != fmt.Sprint(v.id) {
					note("words", "the list of words becomes %s (%s)", v, x.Pos())
				}
			}
		}
	}
	cl.Loop = func(x *Ctx, h *ssa.BasicBlock) {
		s := x.S
		if inner != nil && h == inner.h {
			delete(s.auto, "added")
		}
		if nested != nil && h == nested.h {
			delete(s.auto, "added")
		}
		if scan != nil && h == scan.h && x.F == scan.f {
			delete(s.auto, "appended")
			delete(s.auto, "scanned")
		}
		if first || !streamed || win == nil {
			return
		}
		if scan.h == h && x.F == scan.f || drains[loopKey{h.Parent(), h}] {
			w := WS(x.F, h)
			at := winAt(win, x.F, h)
			if at == nil {
				note("pairs", "the window is not known in the loop at %s", p.posOf(h.Instrs[0]))
				return
			}
			at.set(s, w)
			s.auto["cur"] = fmt.Sprint(w.id)
			delete(s.auto, "session")
			m := slack
			if scan.h != h {
				m = 1
			}
			s.addLin(linOf(wsym).plus(linOf(mkLen(w)), -1), ival{hasLo: true, lo: -m})
		}
	}
	cl.Next = func(x *Ctx, fromB, to *ssa.BasicBlock) {
		if first {
			// loops that shorten the window after the corpus was read
			vs.next(x, fromB, to)
			return
		}
		s := x.S
		at := p.posOf(fromB.Instrs[len(fromB.Instrs)-1])
		if nested != nil && outer == nil && x.F == nested.f {
			if o := loopAround(nested.h); o != nil {
				outer = &loopAt{x.F, o}
			}
		}
		if !streamed && outer != nil && to == nested.h && x.F == nested.f && !naturalLoop(nested.h)[fromB] {
			for _, i := range before {
				tag := strings.TrimPrefix(vsI.record(x, i), "visit ")
				s.auto["used "+tag] = "y"
			}
		}
		if !streamed && outer != nil && to == outer.h && x.F == outer.f && !naturalLoop(outer.h)[fromB] {
			s.auto["ran"] = "y"
		}
		for t, tag := range s.tags {
			if tag == "adderr" && s.nilOf(t) == 1 {
				delete(s.auto, "unchecked")
			}
		}
		if s.auto["unchecked"] != "" && naturalLoop(to)[fromB] {
			note("pairs", "an error of counting a pair can be passed over (%s)", at)
		}
		vs.next(x, fromB, to)
		vsI.next(x, fromB, to)
		if inner != nil && fromB == inner.h && !naturalLoop(inner.h)[to] {
			if s.auto["session"] != "" {
				note("pairs", "the words of a window are paired twice (%s)", at)
			}
			s.auto["session"] = s.auto["cur"]
		}
		if streamed && win != nil {
			for b := to; b == to; b = nil {
				body := naturalLoop(to)
				isScan := scan.h == to && scan.f == x.F
				if body == nil || !isScan && !drains[loopKey{to.Parent(), to}] {
					continue
				}
				k := predIndex(to, fromB)
				here := winAt(win, x.F, to)
				if here == nil {
					continue
				}
				l := here.get(s, func(ph *Term) *Term {
					if v, ok := ph.Val.(*ssa.Phi); ok && v.Block() == to && ph.Frame == x.F {
						return x.Val(v.Edges[k])
					}
					return ph
				})
				if b, lo, hi := base(s, mkOr(l)); here.phi != nil && l != nil && b != l && s.auto["cur"] == fmt.Sprint(b.id) && s.equal(lo, mkInt(1)) && s.equal(hi, s.lenOf(b)) {
					shrink(s, at, b, wsym, isScan && body[fromB], note)
					s.auto["cur"] = fmt.Sprint(l.id)
				}
				if l == nil || s.auto["cur"] != fmt.Sprint(l.id) && !(s.auto["cur"] == "" && s.equal(s.lenOf(l), mkInt(0))) {
					note("pairs", "the window is %s (%s)", l, at)
					continue
				}
				m := slack
				if !isScan {
					m = 1
				}
				if v := s.ivalOf(linOf(wsym).plus(linOf(s.lenOf(l)), -1)); !v.hasLo || v.lo < -m {
					note("pairs", "the window can grow to %s words (%s)", s.lenOf(l), at)
				}
				if !body[fromB] {
					if isScan && !s.equal(s.lenOf(l), mkInt(0)) {
						note("words", "the window starts with %s words (%s)", s.lenOf(l), at)
					}
				} else if s.auto["session"] != "" {
					note("pairs", "words are paired, and stay in the window (%s)", at)
				}
			}
		}
		if scan != nil && x.F == scan.f {
			body := naturalLoop(scan.h)
			if to == scan.h && body[fromB] {
				if n := len(s.auto["appended"]); n != 1 {
					note("words", "a word is appended %d times (%s)", n, at)
				}
				if docAt != nil && (s.read(docAt) == nil || s.auto["cur"] != fmt.Sprint(s.norm(s.read(docAt)).id)) {
					note("words", "the extended list is not kept (%s)", at)
				}
				kept++
			}
			if body[fromB] && !body[to] {
				ended := false
				for t, tag := range s.tags {
					if tag == "scan" && s.boolOf(t) == 0 {
						ended = true
					}
				}
				if !ended {
					s.auto["left"] = "y"
				} else if s.auto["left"] == "" {
					s.auto["read"] = "y"
				}
			}
		}
		if body := naturalLoop(to); body[fromB] && s.auto["left"] != "" {
			note("pairs", "words can be left out (%s)", at)
		}
	}
	cl.Exit = func(x *Ctx, res []*Term) {
		s := x.S
		if s.nilOf(res[len(res)-1]) == 0 {
			return
		}
		exits++
		if s.auto["left"] != "" {
			note("pairs", "it succeeds, and words can be left out (%s)", x.Pos())
		}
		if streamed && win != nil {
			if s.auto["read"] == "" {
				note("pairs", "it succeeds without counting pairs (%s)", x.Pos())
			}
			if s.auto["drained"] == "" {
				note("pairs", "words can be left in the window (%s)", x.Pos())
			}
		}
		if !streamed && s.auto["ran"] == "" {
			note("pairs", "it succeeds without counting pairs (%s)", x.Pos())
		}
	}
	cl.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) {
		s := x.S
		if first || !streamed || win == nil || s.auto["read"] == "" {
			return
		}
		if win.cell != nil {
			if l := s.read(win.cell); l != nil && s.equal(s.lenOf(s.norm(l)), mkInt(0)) {
				s.auto["drained"] = "y"
			}
			return
		}
		for k := range drains {
			if k.h.Parent() != x.F.Fn {
				continue
			}
			if at := winAt(win, x.F, k.h); at != nil {
				if l := s.env[at.phi]; l != nil && s.auto["cur"] == fmt.Sprint(s.norm(l).id) && s.equal(s.lenOf(s.norm(l)), mkInt(0)) {
					s.auto["drained"] = "y"
				}
			}
		}
	}
	e := e0(newEngine(p, cl), fn)
	run := func() {
		st := newState()
		st.nils[mkLeaf(e.Root, fn.Params[0], "")] = false
		st.nils[mkLeaf(e.Root, with, "")] = false
		st.addLin(linOf(wsym), ival{hasLo: true, lo: 1})
		e.Run(e.Root, st)
	}
	run()
	first = false
	if win != nil {
		// the loops around the places where the window is changed, other than the one that reads
		for h := range loopsThatStore(p, fn, win, e) {
			if h != scan.h {
				drains[loopKey{h.Parent(), h}] = true
			}
		}
	}
	try := []int64{0, 1}
	if !streamed {
		try = try[:1]
	}
	for _, sl := range try {
		slack = sl
		for i := 0; i < 2; i++ {
			// the loops that pair words are known the second time
			e.reset()
			bad, wrong = map[string]string{}, nil
			adds, kept, appends, exits = 0, 0, 0, 0
			before = firstIdx
			lens, firstIdx, list = map[string]lin{}, map[string]*Term{}, nil
			vs, vsI = newVisits("second"), newVisits("first")
			vs.okExit, vsI.okExit = okExit, okExit
			run()
		}
		if len(bad) == 0 {
			break
		}
	}
	r.absorb(e, site)
	vs.settle(e)
	for _, k := range vs.order {
		v := vs.m[k]
		switch {
		case v.undec != "":
			note("pairs", "%s", v.undec)
		case vs.skips[k] != "":
			note("pairs", "a pair can be left out (%s)", vs.skips[k])
		case streamed:
			if !v.is(vs.interval(1, lens[k])) {
				note("pairs", "the first word of the window is paired with {%s} (%s)", v.dom, v.where)
			}
		default:
			W := lens[k]
			i := linOf(firstIdx[k])
			n := linOf(mkLen(list))
			diff := linOf(vs.sym).plus(i, -1)
			facts := []linCon{{W, ival{hasLo: true, lo: 1}}, {i, ival{hasLo: true}}, {i.plus(n, -1), ival{hasHi: true, hi: -1}}}
			fwd := domain{"a": {diff, ival{hasLo: true, lo: 1}}, "b": {diff.plus(W, -1), ival{hasHi: true, hi: 0}}, "c": {linOf(vs.sym).plus(n, -1), ival{hasHi: true, hi: -1}}}
			back := domain{"a": {diff, ival{hasHi: true, hi: -1}}, "b": {diff.plus(W, 1), ival{hasLo: true}}, "c": {linOf(vs.sym), ival{hasLo: true}}}
			isFwd, isBack := v.is(fwd, facts...), v.is(back, facts...)
			if !isFwd && !isBack {
				note("pairs", "the words {%s} are paired with the word at %s (%s)", v.dom, mkLin(i), v.where)
				continue
			}
			vsI.settle(e)
			if len(vsI.order) == 0 {
				note("pairs", "the first words of the pairs are not known")
			}
			for _, k := range vsI.order {
				u := vsI.m[k]
				all := vsI.interval(0, n)
				some := vsI.interval(0, n.plus(lin{c: 1}, -1))
				if isBack {
					some = vsI.interval(1, n)
				}
				if u.undec != "" {
					note("pairs", "%s", u.undec)
					continue
				}
				lo, hi := polyhedron(some.sorted()), polyhedron(u.dom.sorted())
				good := true
				for _, c := range u.dom.sorted() {
					good = good && lo.entails(c)
				}
				for _, c := range all.sorted() {
					good = good && hi.entails(c)
				}
				if !good {
					note("pairs", "pairs are counted for the words {%s} (%s)", u.dom, u.where)
				}
			}
		}
	}
	switch {
	case adds == 0 || len(vs.order) == 0:
		note("pairs", "no pairs are counted")
	case exits == 0:
		note("pairs", "it never succeeds")
	case !streamed && len(vs.order) != 1:
		note("pairs", "pairs are counted at %d places", len(vs.order))
	}
	if appends == 0 || kept == 0 || scan == nil {
		note("words", "no list of the words is found")
	}
	for _, rule := range []string{"pairs", "words", "table"} {
		r.must(bad[rule] == "", rule, site, "%s", bad[rule])
	}
	if dist != nil {
		switch {
		case wrong != nil:
			dist.bad("distance", site, "%s", *wrong)
		default: // pairs that are not decided have no distance
			dist.must(bad["pairs"] == "", "distance", site, "%s", bad["pairs"])
		}
		dist.absorb(e, site)
	}
	return backwards
}

// adders gives the methods that count a pair.
func (p *Prog) adders() []*ssa.Function {
	var updates func(fn *ssa.Function, d int) bool
	updates = func(fn *ssa.Function, d int) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isCount(mu.Map.Type()) {
					return true
				}
				if call, ok := in.(ssa.CallInstruction); ok && d < 4 {
					if f := call.Common().StaticCallee(); f != nil && p.inRepo(f) && updates(f, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		ps := fn.Params
		if fn.Synthetic != "" || !p.inRepo(fn) || !namedIsRecv(fn, "corpus/cooccurrence", "Cooccurrence") || !token.IsExported(fn.Name()) || len(ps) < 3 || !isSignedInt(ps[1].Type()) || !isSignedInt(ps[2].Type()) {
			continue
		}
		if updates(fn, 0) {
			out = append(out, fn)
		}
	}
	return out
}

// shrink: the first word leaves the window.
func shrink(s *State, at string, b, w *Term, reading bool, note func(rule, f string, args ...interface{})) {
	n := s.lenOf(b)
	if s.auto["session"] != fmt.Sprint(b.id) && !s.lessEq(n, mkInt(1)) {
		note("pairs", "a word leaves the window without having been paired (%s)", at)
	}
	delete(s.auto, "session")
	if reading && !s.equal(n, mkLin(linOf(w).plus(lin{c: 1}, 1))) {
		note("pairs", "a word leaves the window when it has %s words (%s)", n, at)
	}
	if v := s.ivalOf(linOf(w).plus(linOf(n), -1)); !v.hasLo || v.lo < -1 {
		note("pairs", "a word leaves the window when it can have %s words (%s)", n, at)
	}
}

func holderOf(from map[*Term]*Term, t *Term) *holder {
	if a := from[t]; a != nil {
		return &holder{cell: a}
	}
	if _, ok := t.Val.(*ssa.Phi); ok && t.Kind == 'l' {
		return &holder{phi: t}
	}
	return nil
}

// winAt gives where the window is kept in a loop.
func winAt(win *holder, f *Frame, h *ssa.BasicBlock) *holder {
	if win.cell != nil {
		return win
	}
	var out *holder
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if sl, ok := ph.Type().Underlying().(*types.Slice); !ok || !isString(sl.Elem()) {
			continue
		}
		if out != nil {
			return nil
		}
		out = &holder{phi: mkLeaf(f, ph, "")}
	}
	return out
}

func mkOr(t *Term) *Term {
	if t == nil {
		return mkInt(0)
	}
	return t
}

func canonLin(s *State, l lin) lin {
	out := lin{c: l.c}
	for i, a := range l.at {
		out = out.plus(linOf(canonical(s, a, 0)), l.co[i])
	}
	return out
}

// loopAround gives the header of the loop around a loop.
func loopAround(h *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	n := 0
	for _, g := range h.Parent().Blocks {
		if body := naturalLoop(g); g != h && body[h] && (best == nil || len(body) < n) {
			best, n = g, len(body)
		}
	}
	return best
}

// loopsThatStore gives the loops in which the window is changed, directly or
// by a call of a closure.
func loopsThatStore(p *Prog, fn *ssa.Function, win *holder, e *Engine) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	if win.cell == nil {
		for _, h := range win.phi.Frame.Fn.Blocks {
			if naturalLoop(h) != nil && winAt(win, win.phi.Frame, h) != nil {
				out[h] = true
			}
		}
		return out
	}
	cell, ok := win.cell.Val.(*ssa.Alloc)
	if !ok {
		return out
	}
	stores := p.reaches(func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		return ok && cellOf(st.Addr) == cell
	})
	f := cell.Parent()
	for _, h := range f.Blocks {
		for b := range naturalLoop(h) {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && cellOf(st.Addr) == cell {
					out[h] = true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c.Common()) {
						if stores[g] && g.Parent() == f {
							out[h] = true
						}
					}
				}
			}
		}
	}
	return out
}
