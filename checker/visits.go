package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type linCon struct {
	f lin
	v ival
}

// domain is a conjunction of linear constraints on the visited position.
type domain map[string]linCon

// visit is an instruction that handles one position per iteration of a loop.
type visit struct {
	key    string
	f      *Frame
	h      *ssa.BasicBlock // header of the loop that moves the position
	at     []polyhedron    // what is known where the position is visited
	cand   domain          // constraints that mention the position
	dom    domain
	expr   lin                                 // the position, in terms of the loop variable
	leaf   *Term                               // the loop variable
	step   int                                 // how the loop variable moves in every iteration
	start  func(e *Engine, p pendingEnd) *Term // the loop variable at first
	read   bool
	change bool
	where  string
	undec  string
}

// visits derives the positions that loops visit. The loops are analysed for
// one arbitrary iteration (Client.Once).
type visits struct {
	sym   *Term // stands for the position
	m     map[string]*visit
	order []string
	ends  []pendingEnd
	// skips are the visits after which an iteration can end without the element
	// having been used
	skips map[string]string
	// okExit are the ways out of a loop that may leave positions out
	okExit func(x *Ctx, from, to *ssa.BasicBlock) bool
}

func newVisits(name string) *visits {
	return &visits{sym: mkSym(name, types.Typ[types.Int]), m: map[string]*visit{}, skips: map[string]string{}}
}

func ranKey(f *Frame, h *ssa.BasicBlock) string { return fmt.Sprintf("ran %d:%d", f.id, h.Index) }

// record notes that a position is visited by the current instruction and
// gives the tag of what is found there.
func (vs *visits) record(x *Ctx, idx *Term) (tag string) {
	s := x.S
	key := fmt.Sprintf("%d:%d:%d", x.F.id, x.I.Block().Index, instrID(x.I))
	v := vs.m[key]
	if v == nil {
		v = &visit{key: key, f: x.F, where: x.Pos()}
		vs.m[key] = v
		vs.order = append(vs.order, key)
	}
	tag = "visit " + key
	// the loop that moves it
	l := linOf(idx)
	var leaf *Term
	k := int64(0)
	for i, a := range l.at {
		if a.Kind != 'l' || l.co[i] != 1 && l.co[i] != -1 {
			continue
		}
		if ph, ok := a.Val.(*ssa.Phi); ok && naturalLoop(ph.Block()) != nil && unitStep(ph) != 0 {
			if leaf != nil && leaf.Frame == a.Frame && naturalLoop(ph.Block())[v.h] && ph.Block() != v.h {
				continue // the variable of an outer loop
			}
			leaf, k = a, l.co[i]
			v.h, v.step = ph.Block(), unitStep(ph)
			v.start = func(e *Engine, p pendingEnd) *Term { return e.val(p.f, ph.Edges[p.from], p.s) }
		} else if al, h, ok := countedCell(a); ok {
			leaf, k = a, l.co[i]
			v.h, v.step = h, cellStep(al, h)
			v.start = func(e *Engine, p pendingEnd) *Term { return p.s.content(mkLeaf(p.f, al, ""), a.Typ) }
		}
	}
	if leaf == nil {
		v.undec = "position " + idx.String() + " does not move by one in a loop"
		return tag
	}
	v.leaf = leaf
	v.f = leaf.Frame
	v.expr = lin{c: l.c}
	for i, a := range l.at {
		if a != leaf {
			a = canonical(s, a, 0)
		}
		v.expr = v.expr.plus(linOf(a), l.co[i])
	}
	s.auto["seen "+key] = "y"
	// what is known of the position
	rest := l.plus(linOf(leaf), -k) // idx = k*leaf + rest, leaf = k*(idx - rest)
	back := linOf(vs.sym).plus(rest, -1).times(k)
	var known polyhedron
	// other variables of the loop that this one determines
	type byLeaf struct {
		a *Term
		l lin
	}
	var subs []byLeaf
	for _, f := range s.lins {
		if !f.v.hasLo || !f.v.hasHi || f.v.lo != f.v.hi {
			continue
		}
		for i, a := range f.f.at {
			ph, ok := a.Val.(*ssa.Phi)
			if !ok || a == leaf || a.Kind != 'l' || ph.Block() != v.h || a.Frame != v.f || f.f.co[i] != 1 && f.f.co[i] != -1 {
				continue
			}
			// co*a + rest = lo
			rest := f.f.plus(linOf(a), -f.f.co[i])
			rest.c -= f.v.lo
			subs = append(subs, byLeaf{a, rest.times(-f.f.co[i])})
		}
	}
	for _, f0 := range s.lins {
		f := f0
		for _, sub := range subs {
			for i, a := range f.f.at {
				if a == sub.a && f.f.co[i] != 0 {
					g := *f
					g.f = f.f.plus(linOf(a), -f.f.co[i]).plus(sub.l, f.f.co[i])
					f = &g
					break
				}
			}
		}
		if len(f.f.at) == 0 {
			continue
		}
		g := lin{c: f.f.c}
		good, uses := true, false
		for i, a := range f.f.at {
			if a == leaf {
				g = g.plus(back, f.f.co[i])
				uses = true
				continue
			}
			good = good && !a.has(leaf) && !inLoopLeaf(a, v.f, v.h)
			g = g.plus(linOf(a), f.f.co[i])
		}
		h := lin{c: g.c}
		for i, a := range g.at {
			h = h.plus(linOf(canonical(s, a, 0)), g.co[i])
		}
		known = append(known, linCon{h, *f.v.clone()})
		if !uses || !good {
			continue
		}
		iv := f.v.clone()
		if h.c != 0 {
			shift(iv, -h.c)
			h.c = 0
		}
		key, flip := h.norm()
		if flip {
			h = h.times(-1)
			iv = negate(iv)
		}
		if v.cand == nil {
			v.cand = domain{}
		}
		if old, dup := v.cand[key]; dup {
			// the weakest of each, and all that are excluded
			if iv.hasLo && (!old.v.hasLo || iv.lo < old.v.lo) {
				old.v.hasLo, old.v.lo = true, iv.lo
			}
			if iv.hasHi && (!old.v.hasHi || iv.hi > old.v.hi) {
				old.v.hasHi, old.v.hi = true, iv.hi
			}
			old.v.neq = append(old.v.neq, iv.neq...)
			v.cand[key] = old
		} else {
			v.cand[key] = linCon{h, *iv}
		}
	}
	v.at = append(v.at, known)
	return tag
}

// of gives the visit that a value was found in.
func (vs *visits) of(s *State, t *Term) *visit {
	if t == nil {
		return nil
	}
	for _, l := range s.norm(t).leaves {
		if key, ok := strings.CutPrefix(s.tags[l], "visit "); ok {
			return vs.m[key]
		}
	}
	return nil
}

// use notes that the values are used.
func (vs *visits) use(s *State, ts ...*Term) {
	for _, t := range ts {
		if v := vs.of(s, t); v != nil {
			s.auto["used "+v.key] = "y"
		}
	}
}

// next is called when control moves between blocks.
func (vs *visits) next(x *Ctx, from, to *ssa.BasicBlock) {
	s := x.S
	clear := func(h *ssa.BasicBlock) {
		for k := range s.auto {
			if key, ok := strings.CutPrefix(k, "seen "); ok {
				if v := vs.m[key]; v != nil && v.h == h && v.f == x.F {
					delete(s.auto, k)
					if s.auto["used "+key] == "" {
						vs.skips[key] = x.Pos()
					}
					delete(s.auto, "used "+key)
				}
			}
		}
	}
	for h := from; h != nil; h = h.Idom() {
		body := naturalLoop(h)
		if body == nil || !body[from] {
			continue
		}
		if to != h && !body[to] && vs.okExit != nil && vs.okExit(x, from, to) {
			clear(h)
			continue
		}
		if to == h || !body[to] {
			vs.ends = append(vs.ends, pendingEnd{f: x.F, h: h, s: s.clone(), out: to != h, pos: x.Pos()})
			clear(h)
		}
	}
	if body := naturalLoop(to); body != nil && !body[from] {
		for i, q := range to.Preds {
			if q == from {
				vs.ends = append(vs.ends, pendingEnd{f: x.F, h: to, s: s.clone(), init: true, from: i, pos: x.Pos()})
				s.auto[ranKey(x.F, to)] = "y"
			}
		}
	}
}

// settle derives the constraints of every visit, and whether they are exact.
func (vs *visits) settle(e *Engine) {
	for _, k := range vs.order {
		v := vs.m[k]
		if v.undec == "" {
			v.settle()
			v.undec = exact(v, v.key, e, vs.ends, vs.sym)
		}
	}
}

// is reports whether the positions are exactly those that satisfy the constraints.
func (v *visit) is(d domain, facts ...linCon) bool {
	return v.undec == "" && sameDomain(v.dom, d, facts...)
}

// sameDomain compares two domains, given some facts.
func sameDomain(a, b domain, facts ...linCon) bool {
	x, y := append(polyhedron(a.sorted()), facts...), append(polyhedron(b.sorted()), facts...)
	for _, c := range x {
		if !y.entails(c) {
			return false
		}
	}
	for _, c := range y {
		if !x.entails(c) {
			return false
		}
	}
	return true
}

// interval is the domain lo <= sym < hi.
func (vs *visits) interval(lo int64, hi lin) domain {
	return domain{
		"lo": {linOf(vs.sym), ival{hasLo: true, lo: lo}},
		"hi": {linOf(vs.sym).plus(hi, -1), ival{hasHi: true, hi: -1}},
	}
}

// canonical renames the contents of memory after their addresses.
func canonical(s *State, t *Term, d int) *Term {
	if d > 8 || t == nil {
		return t
	}
	if _, param := t.Val.(*ssa.Parameter); param {
		return t
	}
	if t.Kind == 'l' && t.Val == nil && t.Frame == nil && t.Op == "" {
		return t // named by a check
	}
	if t.Kind == 'l' && t.Op != "memval" {
		var best *Term
		for a, v := range s.mem {
			if v == t && !a.has(t) && (best == nil || a.id < best.id) {
				best = a
			}
		}
		if best != nil {
			return memVal(canonical(s, best, d+1), t.Typ)
		}
		return t
	}
	if t.Kind == 'o' && len(t.Args) > 0 {
		args := make([]*Term, len(t.Args))
		changed := false
		for i, a := range t.Args {
			args[i] = canonical(s, a, d+1)
			changed = changed || args[i] != a
		}
		if changed {
			return rebuild(t, args)
		}
	}
	return t
}

func (d domain) sorted() []linCon {
	var ks []string
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []linCon
	for _, k := range ks {
		out = append(out, d[k])
	}
	return out
}

func (d domain) String() string {
	var out []string
	for _, c := range d.sorted() {
		f := mkLin(c.f).String()
		if c.v.hasLo {
			out = append(out, fmt.Sprintf("%s >= %d", f, c.v.lo))
		}
		if c.v.hasHi {
			out = append(out, fmt.Sprintf("%s <= %d", f, c.v.hi))
		}
		for _, n := range c.v.neq {
			out = append(out, fmt.Sprintf("%s != %d", f, n))
		}
	}
	return strings.Join(out, ", ")
}

// unitStep reports whether a loop variable moves by one in every iteration.
func unitStep(ph *ssa.Phi) int {
	step := 0
	b := ph.Block()
	for i, p := range b.Preds {
		if !backEdge(p, b) {
			continue
		}
		bo, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || bo.X != ph {
			return 0
		}
		st := 0
		switch {
		case bo.Op == token.ADD && intConst(bo.Y, 1), bo.Op == token.SUB && intConst(bo.Y, -1):
			st = 1
		case bo.Op == token.SUB && intConst(bo.Y, 1), bo.Op == token.ADD && intConst(bo.Y, -1):
			st = -1
		}
		if st == 0 || step != 0 && step != st {
			return 0
		}
		step = st
	}
	return step
}

// cellStep is unitStep for a variable that closures read, and which therefore
// lives in memory: it is assigned once in every iteration.
func cellStep(cell *ssa.Alloc, h *ssa.BasicBlock) int {
	body := naturalLoop(h)
	if body == nil || body[cell.Block()] || cell.Parent() != h.Parent() || !isSignedInt(elemType(cell)) {
		return 0
	}
	var store *ssa.Store
	n := 0
	var scan func(v ssa.Value, own bool) bool
	scan = func(v ssa.Value, own bool) bool {
		for _, ref := range *v.Referrers() {
			switch in := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if in.Val == v || !own {
					return false
				}
				if body[in.Block()] {
					store = in
					n++
				}
			case *ssa.MakeClosure:
				f := in.Fn.(*ssa.Function)
				for i, b := range in.Bindings {
					if b == v && !scan(f.FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !scan(cell, true) || n != 1 {
		return 0
	}
	bo, ok := store.Val.(*ssa.BinOp)
	if !ok || !loads(bo.X, cell) {
		return 0
	}
	for _, p := range h.Preds {
		if backEdge(p, h) && !store.Block().Dominates(p) {
			return 0
		}
	}
	// not in a loop within this one
	for g := store.Block(); g != nil && g != h; g = g.Idom() {
		if b := naturalLoop(g); b != nil && b[store.Block()] {
			return 0
		}
	}
	switch {
	case bo.Op == token.ADD && intConst(bo.Y, 1), bo.Op == token.SUB && intConst(bo.Y, -1):
		return 1
	case bo.Op == token.SUB && intConst(bo.Y, 1), bo.Op == token.ADD && intConst(bo.Y, -1):
		return -1
	}
	return 0
}

func elemType(cell *ssa.Alloc) types.Type { return cell.Type().Underlying().(*types.Pointer).Elem() }

func loads(v ssa.Value, cell *ssa.Alloc) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && u.X == cell
}

// cellAt names the content of a cell at the start of an iteration.
func cellAt(f *Frame, cell *ssa.Alloc, h *ssa.BasicBlock) *Term {
	return terms.get(fmt.Sprintf("cellat|%d|%p|%d", f.id, cell, h.Index), func() *Term {
		return &Term{Kind: 'l', Frame: f, Val: cell, Extra: fmt.Sprintf("@%d", h.Index), Typ: elemType(cell), Op: "cellat"}
	})
}

func countedCell(t *Term) (*ssa.Alloc, *ssa.BasicBlock, bool) {
	al, ok := t.Val.(*ssa.Alloc)
	if !ok || t.Op != "cellat" {
		return nil, nil, false
	}
	for _, h := range al.Parent().Blocks {
		if fmt.Sprintf("@%d", h.Index) == t.Extra && cellStep(al, h) != 0 {
			return al, h, true
		}
	}
	return nil, nil, false
}

type pendingEnd struct {
	f    *Frame
	h    *ssa.BasicBlock
	s    *State
	out  bool // leaves the loop early
	pos  string
	init bool // the start of the loop; s is the state before it
	from int  // index of the edge
}

// inLoopLeaf reports a value that is computed in the loop.
func inLoopLeaf(t *Term, f *Frame, h *ssa.BasicBlock) bool {
	body := naturalLoop(h)
	for _, l := range t.leaves {
		if l.Frame == nil {
			continue
		}
		g := l.Frame
		var b *ssa.BasicBlock
		if in, ok := l.Val.(ssa.Instruction); ok {
			b = in.Block()
		} else if l.Op == "memval" {
			continue
		}
		for g != nil && g != f {
			if g.Site != nil {
				b = g.Site.Block()
			}
			g = g.Parent
		}
		if g == f && b != nil && body[b] {
			if _, isLoad := l.Val.(*ssa.UnOp); isLoad && l.Frame == f {
				// what is loaded from memory that the loop does not change has a name
				continue
			}
			return true
		}
	}
	return false
}

func shift(v *ival, n int64) {
	v.lo += n
	v.hi += n
	var neq []int64
	for _, m := range v.neq {
		neq = append(neq, m+n)
	}
	v.neq = neq
}

func negate(v *ival) *ival {
	w := &ival{hasLo: v.hasHi, lo: -v.hi, hasHi: v.hasLo, hi: -v.lo}
	for _, m := range v.neq {
		w.neq = append(w.neq, -m)
	}
	return w
}

// settle keeps the constraints that hold at every visit.
func (v *visit) settle() {
	v.dom = domain{}
	holds := func(c linCon) bool {
		for _, k := range v.at {
			if !k.entails(c) {
				return false
			}
		}
		return true
	}
	for key, c := range v.cand {
		var iv ival
		if c.v.hasLo && holds(linCon{c.f, ival{hasLo: true, lo: c.v.lo}}) {
			iv.hasLo, iv.lo = true, c.v.lo
		}
		if c.v.hasHi && holds(linCon{c.f, ival{hasHi: true, hi: c.v.hi}}) {
			iv.hasHi, iv.hi = true, c.v.hi
		}
		seen := map[int64]bool{}
		for _, n := range c.v.neq {
			if !seen[n] && !(iv.hasLo && n < iv.lo) && !(iv.hasHi && n > iv.hi) && holds(linCon{c.f, ival{neq: []int64{n}}}) {
				iv.neq = append(iv.neq, n)
			}
			seen[n] = true
		}
		if !iv.trivial() {
			v.dom[key] = linCon{c.f, iv}
		}
	}
}

// exact explains why the constraints of a visit are not exactly those under
// which its position is visited.
func exact(v *visit, key string, e *Engine, ends []pendingEnd, symC *Term) string {
	for _, c := range v.dom.sorted() {
		for _, a := range c.f.at {
			if a != symC && a.Kind == 'l' && a.Op != "memval" && a.Frame == v.f {
				if in, ok := a.Val.(ssa.Instruction); ok && naturalLoop(v.h)[in.Block()] {
					return "the loop depends on " + a.String() + ", which it computes"
				}
			}
		}
	}
	step := int64(v.step)
	for _, p := range ends {
		if p.f != v.f || p.h != v.h {
			continue
		}
		s := p.s.clone()
		canon := func(l lin) lin {
			out := lin{c: l.c}
			for i, a := range l.at {
				out = out.plus(linOf(canonical(s, s.norm(a), 0)), l.co[i])
			}
			return out
		}
		// what is known here, under the names that the constraints use
		var t polyhedron
		for _, f := range p.s.lins {
			t = append(t, linCon{canon(f.f), *f.v})
		}
		var pos lin
		for i, a := range v.expr.at {
			if a == v.leaf && p.init {
				pos = pos.plus(canon(linOf(v.start(e, p))), v.expr.co[i])
				continue
			}
			if a == v.leaf {
				pos = pos.plus(canon(linOf(a)), v.expr.co[i])
			} else {
				pos = pos.plus(linOf(a), v.expr.co[i])
			}
		}
		pos.c += v.expr.c
		dir := step
		for i, a := range v.expr.at {
			if a == v.leaf {
				dir *= v.expr.co[i]
			}
		}
		// positions from here on (side = dir) or up to here (side = -dir), or
		// only this one (side = 0)
		side, seen := dir, p.s.auto["seen "+key] != ""
		switch {
		case p.init:
			side = -dir
			pos.c -= dir
		case p.out && seen:
			pos.c += dir
		case !p.out && seen:
			continue
		case !p.out:
			side = 0
		}
		for _, c := range v.dom.sorted() {
			f := lin{c: c.f.c}
			co := int64(0)
			for i, a := range c.f.at {
				if a == symC {
					co = c.f.co[i]
					f = f.plus(pos, co)
				} else {
					f = f.plus(linOf(a), c.f.co[i])
				}
			}
			iv := *c.v.clone()
			if side*co > 0 {
				iv.hasLo, iv.neq = false, nil
			} else if side*co < 0 {
				iv.hasHi, iv.neq = false, nil
			}
			t = append(t, linCon{f, iv})
		}
		if !t.empty() {
			return fmt.Sprintf("a position of the context {%s} can be skipped (%s)", v.dom, p.pos)
		}
	}
	return ""
}
