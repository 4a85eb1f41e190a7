package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C39",
		Technique: "symbolic value numbering over go/ssa with one arbitrary round per loop (which items are left out, on which condition), and path-sensitive abstract interpretation of one arbitrary iteration of the insertion",
		Explanation: "Every way through one round of the loop over all items of Searcher.Search either inserts the item, or leaves it out because its word is one of the excluded ones, or because its similarity - the cosine - is at most a limit that is 0 at first and from then on only ever the similarity of the last entry. " +
			"One arbitrary iteration of the insertion keeps both the entry and what is carried on, so that only what is carried beyond the last entry is dropped; what is returned ends at the first blank entry or at the last one. With C15 (entries descend) and C33 (cosine) these are the most similar ones.",
		Run: runC39,
	})
}

const neighborType = modPath + "/pkg/search.Neighbor"

func runC39(r *Rep) {
	r.rule("offered", 1, "an item is left out only if it is excluded or not more similar than the last entry")
	r.rule("all-items", 1, "all items are looked at")
	r.rule("exchange", 1, "an insertion drops nothing but the least similar entry")
	r.rule("returned", 1, "every entry with a word is returned")
	p := r.P
	search := p.method("pkg/search", "Searcher", "Search")
	if search == nil {
		r.bad("entry-points", "search", "Searcher.Search is not found")
		return
	}
	site := fnName(search)
	// the insertion
	q := newRep(r.ID, p)
	c15(q, r)
	// the loop over the items
	names := map[string]string{}
	for _, pa := range search.Params {
		switch {
		case typKey(pa.Type()) == "[]string":
			names["ignore"] = "param:" + pa.Name()
		case typKey(pa.Type()) == "int":
			names["k"] = "param:" + pa.Name()
		}
	}
	paths, k := kernelOf(r, search, func(k *kern) {
		k.inline = func(f *ssa.Function) bool {
			return numericFunc(f) || f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/pkg/search")
		}
	})
	if k == nil {
		return
	}
	s := &searchLoop{r: r, site: site, names: names}
	done := map[*kloop]bool{}
	n := 0
	// maps in which there are other words than the excluded ones
	s.others = map[*kx]bool{}
	walkEvents(paths, func(e kevent, _ []*kx, _ *kpath) {
		if e.kind == "map" && !e.key.has(mkx(names["ignore"])) {
			s.others[e.addr] = true
		}
	})
	for _, q := range paths {
		if len(q.ret) != 2 || q.ret[1].op != "nil" {
			continue
		}
		// the list that is returned
		list, hi := q.ret[0], (*kx)(nil)
		if list.op == "slice" {
			if !r.must(list.args[1].isInt(0), "returned", site, "the entries before %v are not returned", list.args[1]) {
				continue
			}
			list, hi = list.args[0], list.args[2]
		}
		if !r.must(strings.HasPrefix(list.op, "make#"), "returned", site, "the result %v is not a list that Search makes", q.ret[0]) {
			continue
		}
		s.list, s.n = list, list.args[0]
		r.must(hi == nil || kEq(hi, s.n) || s.blankAt(q, hi), "returned", site, "the result ends before entry %v, which need not be blank", hi)
		r.must(s.n.op == names["k"], "returned", site, "%v entries are kept, not as many as asked for", s.n)
		// the loop over the items
		loops := 0
		for _, e := range q.events {
			if e.kind == "write" && rootBase(e.addr) == list {
				r.bad("exchange", site, "an entry is changed outside of the loop over the items (%s)", e.pos)
			}
			if e.kind != "loop" || !s.fills(e.loop) {
				continue
			}
			loops++
			l := e.loop
			items := l.n != nil && l.n.op == "len" && strings.HasSuffix(itemField(l.n.args[0]), "Searcher.Items")
			r.must(items, "all-items", site, "the loop that fills the result does not go through all items (%s)", e.pos)
			inside := false
			for _, g := range q.guards {
				inside = inside || g.has(l.k)
			}
			r.must(!inside, "all-items", site, "the search succeeds without having looked at all items (%s)", e.pos)
			if items && !done[l] {
				done[l] = true
				n++
				s.round(l)
			}
		}
		r.must(loops == 1, "all-items", site, "%d loops fill the result", loops)
	}
	r.must(n > 0, "offered", site, "no loop over the items fills the result")
}

func itemField(x *kx) string {
	if x.op == "ld" {
		return x.args[0].op
	}
	return x.op
}

type searchLoop struct {
	r       *Rep
	site    string
	names   map[string]string
	list, n *kx
	others  map[*kx]bool
}

// fills reports that a loop stores entries of the result.
func (s *searchLoop) fills(l *kloop) bool {
	for _, q := range l.paths {
		if s.stores(q) {
			return true
		}
	}
	return false
}

func (s *searchLoop) stores(q *kpath) bool {
	for _, e := range q.events {
		switch {
		case e.kind == "write" && s.inList(e.addr):
			return true
		case e.kind == "loop" && s.fills(e.loop):
			return true
		}
	}
	return false
}

func (s *searchLoop) inList(a *kx) bool {
	for strings.HasPrefix(a.op, "fa:") {
		a = a.args[0]
	}
	return a.op == "ia" && a.args[0] == s.list
}

// blankAt reports that the result ends at an entry without a word, with those
// before it looked at.
func (s *searchLoop) blankAt(q *kpath, hi *kx) bool {
	for _, g := range q.guards {
		if s.blank(g, hi) {
			return true
		}
	}
	// loops that go down from the end past blank entries
	for _, e := range q.events {
		if e.kind != "loop" || !e.loop.down || e.loop.n == nil || !kEq(e.loop.n, s.n) {
			continue
		}
		// it stops at an entry, or has been past all
		stopped := false
		for _, g := range q.guards {
			stopped = stopped || g.has(e.loop.k)
		}
		if !kEq(hi, kAdd(e.loop.k, kInt(1))) && (stopped || !kEq(hi, kInt(0))) {
			continue
		}
		all := len(e.loop.paths) > 0
		for _, t := range e.loop.paths {
			ok := t.end != "next"
			for _, g := range t.guards {
				ok = ok || s.blank(g, e.loop.k)
			}
			all = all && ok
		}
		if all {
			return true
		}
	}
	if hi.op == "last" && len(hi.args) == 2 {
		for _, e := range q.events {
			if e.kind != "loop" || e.loop.k != hi.args[0] {
				continue
			}
			l, v := e.loop, hi.args[1]
			if from := l.init[v]; from == nil || !kEq(from, s.n) {
				return false
			}
			for _, t := range l.paths {
				if t.end != "next" {
					continue
				}
				next, ok := t.next[v], false
				for _, g := range t.guards {
					ok = ok || next != nil && s.blank(g, next)
				}
				if !ok || !kEq(next, kSub(v, kInt(1))) {
					return false
				}
			}
			return len(l.paths) > 0
		}
	}
	return false
}

// blank reports that a condition says that an entry has no word.
func (s *searchLoop) blank(g, idx *kx) bool {
	if g.op == "eq" && len(g.args) == 1 {
		// the length of the word is zero
		if n := g.args[0]; n.op == "len" {
			return s.isField(n.args[0], "Word", idx)
		}
		return false
	}
	if g.op != "same" || len(g.args) != 2 {
		return false
	}
	for i, a := range g.args {
		if a.op == `str:""` && s.isField(g.args[1-i], "Word", idx) {
			return true
		}
	}
	return false
}

// isField reports that x is a field of an entry of the result.
func (s *searchLoop) isField(x *kx, name string, idx *kx) bool {
	if m := x.num(); x.n != nil {
		if t := m.n.single(); m.isPoly() && t != nil && len(t.f) == 1 && t.f[0].e == 2 && t.c.IsInt() && t.c.Num().IsInt64() && t.c.Num().Int64() == 1 {
			x = t.f[0].a
		}
	}
	var e *kx
	switch {
	case x.op == "ld" && x.args[0].op == "fa:"+neighborType+"."+name:
		e = x.args[0].args[0]
	case x.op == "f:"+neighborType+"."+name && x.args[0].op == "ld":
		e = x.args[0].args[0]
	default:
		return false
	}
	return e.op == "ia" && e.args[0] == s.list && kEq(e.args[1], idx)
}

// round decides what becomes of one item.
func (s *searchLoop) round(l *kloop) {
	r := s.r
	item := func(x *kx) bool { return x.op == "ia" && x.args[0] == l.n.args[0] && x.args[1] == l.k }
	// the limits: variables that are 0 at first, and the similarity of the last entry
	last := kSub(s.n, kInt(1))
	limit := func(x *kx) bool {
		if s.isField(x, "Similarity", last) {
			return true
		}
		from := l.init[x]
		if from == nil {
			return false
		}
		if c, ok := from.konst(); !ok || c.Sign() > 0 {
			return false
		}
		for _, q := range l.paths {
			if q.end != "next" {
				continue
			}
			v := q.next[x]
			if v == nil || v != x && !s.isField(v, "Similarity", last) {
				return false
			}
		}
		return true
	}
	for _, q := range l.paths {
		if q.end != "next" || s.stores(q) {
			r.ok("offered", s.site)
			continue
		}
		why := false
		for _, g := range q.guards {
			// excluded
			word, set := false, false
			g.each(func(y *kx) {
				word = word || y.op == "fa:"+embType+".Word" && item(y.args[0]) || y.op == "f:"+embType+".Word" && len(y.args) == 1 && y.args[0].op == "ld" && item(y.args[0].args[0])
				set = set || y.op == s.names["ignore"] || strings.HasPrefix(y.op, "makemap#") && !s.others[y]
			})
			if word && set && (g.op == "in" || g.op == "same" || g.op == "map") {
				why = true
			}
			// not more similar than the last one
			if g.op != "le" && g.op != "lt" {
				continue
			}
			for _, a := range g.args[0].atoms() {
				if !limit(a) {
					continue
				}
				score := kAdd(g.args[0], a)
				// a positive factor is taken out of a comparison
				why = why || !score.has(a) && s.isScore(score, q.guards, l)
			}
		}
		r.must(why, "offered", s.site, "an item can be left out although it is not excluded and may be more similar than the last entry (if %v)", q.guards)
	}
}

// isScore reports that x is the cosine of the query and the item, or 0 where a norm is.
func (s *searchLoop) isScore(x *kx, guards []*kx, l *kloop) bool {
	recv := ""
	l.n.args[0].each(func(y *kx) {
		if strings.HasPrefix(y.op, "param:") {
			recv = y.op
		}
	})
	isQuery := func(x *kx) bool {
		q := false
		x.each(func(y *kx) { q = q || strings.HasPrefix(y.op, "param:") && y.op != recv })
		return q
	}
	normOf := func(v, n *kx) bool {
		if e := embPart(v, "Vector", "Norm"); e == n {
			return true
		}
		b := mkx("κ")
		return kEq(n, kSqrt(kSum(n, b, kMul(mkx("ld", mkx("ia", v, b)), mkx("ld", mkx("ia", v, b))))))
	}
	if x.isInt(0) {
		for _, g := range guards {
			if g.op != "eq" {
				continue
			}
			if m := g.args[0].num().n.single(); m != nil {
				norms := len(m.f) > 0
				for _, q := range m.f {
					norms = norms && embPart(q.a, "Norm", "Vector") != nil
				}
				if norms {
					return true
				}
			}
		}
		return false
	}
	return isCosine(x, isQuery, normOf)
}
