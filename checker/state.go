package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// interval of a linear form; has* tell whether a bound is present.
type ival struct {
	lo, hi       int64
	hasLo, hasHi bool
	neq          []int64 // excluded values (sorted, at most 4)
}

func (v *ival) eq(w *ival) bool {
	if v.hasLo != w.hasLo || v.hasHi != w.hasHi || (v.hasLo && v.lo != w.lo) || (v.hasHi && v.hi != w.hi) || len(v.neq) != len(w.neq) {
		return false
	}
	for i := range v.neq {
		if v.neq[i] != w.neq[i] {
			return false
		}
	}
	return true
}

func (v *ival) clone() *ival {
	w := *v
	w.neq = append([]int64(nil), v.neq...)
	return &w
}

func (v *ival) trivial() bool { return !v.hasLo && !v.hasHi && len(v.neq) == 0 }

// tighten trims bounds by excluded values; false when the interval is empty.
func (v *ival) tighten() bool {
	for changed := true; changed; {
		changed = false
		var keep []int64
		for _, n := range v.neq {
			switch {
			case v.hasLo && n == v.lo:
				v.lo++
				changed = true
			case v.hasHi && n == v.hi:
				v.hi--
				changed = true
			case v.hasLo && n < v.lo, v.hasHi && n > v.hi:
				changed = true
			default:
				keep = append(keep, n)
			}
		}
		v.neq = keep
	}
	return !(v.hasLo && v.hasHi && v.lo > v.hi)
}

type linFact struct {
	f lin // normalised: first coefficient positive, constant 0
	v *ival
}

type strFact struct {
	eq  *Term
	neq map[*Term]bool
}

const (
	relLT = 1
	relEQ = 2
	relGT = 4
)

type deferred struct {
	in   *ssa.Defer
	fn   *Term
	args []*Term
}

// State is one abstract state: what is known on all the executions that the
// analysis has folded into it.
type State struct {
	env    map[*Term]*Term // what a leaf (or len of a leaf) is known to equal
	nils   map[*Term]bool  // pointer-like value: nil or not
	bools  map[*Term]bool
	strs   map[*Term]*strFact
	lins   map[string]*linFact
	rels   map[[2]*Term]uint8 // possible order of two opaque values, by id
	mem    map[*Term]*Term    // content of an address
	tags   map[*Term]string   // the client's marks on values
	auto   map[string]string  // the client's automaton
	defers map[*Frame][]deferred
	dead   bool
}

func newState() *State {
	return &State{
		env: map[*Term]*Term{}, nils: map[*Term]bool{}, bools: map[*Term]bool{}, strs: map[*Term]*strFact{},
		lins: map[string]*linFact{}, rels: map[[2]*Term]uint8{}, mem: map[*Term]*Term{}, tags: map[*Term]string{},
		auto: map[string]string{}, defers: map[*Frame][]deferred{},
	}
}

func (s *State) clone() *State {
	n := newState()
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.nils {
		n.nils[k] = v
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	for k, v := range s.strs {
		n.strs[k] = v // immutable once stored
	}
	for k, v := range s.lins {
		n.lins[k] = v // immutable once stored
	}
	for k, v := range s.rels {
		n.rels[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.tags {
		n.tags[k] = v
	}
	for k, v := range s.auto {
		n.auto[k] = v
	}
	for k, v := range s.defers {
		n.defers[k] = v // append copies
	}
	return n
}

type key128 [2]uint64

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// add makes the key depend on a set element, whatever the order of the elements.
func (k *key128) add(parts ...uint64) {
	a, b := uint64(0x1234567), uint64(0xfedcba987)
	for _, p := range parts {
		a = mix(a ^ p)
		b = mix(b + p*0x9e3779b97f4a7c15)
	}
	k[0] += a
	k[1] += b
}

var strIDs = map[string]uint64{}

func strID(s string) uint64 {
	if n, ok := strIDs[s]; ok {
		return n
	}
	n := uint64(len(strIDs) + 1)
	strIDs[s] = n
	return n
}

func boolID(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (s *State) autoKey() key128 {
	var k key128
	for a, v := range s.auto {
		k.add(1, strID(a), strID(v))
	}
	for t, v := range s.tags {
		k.add(2, uint64(t.id), strID(v))
	}
	for f, ds := range s.defers {
		ps := []uint64{3, uint64(f.id)}
		for _, d := range ds {
			ps = append(ps, uint64(instrID(d.in)), uint64(d.fn.id))
			for _, a := range d.args {
				ps = append(ps, uint64(a.id))
			}
		}
		k.add(ps...)
	}
	return k
}

var instrIDs = map[ssa.Instruction]int{}

func instrID(in ssa.Instruction) int {
	if n, ok := instrIDs[in]; ok {
		return n
	}
	n := len(instrIDs) + 1
	instrIDs[in] = n
	return n
}

func (s *State) factKey() key128 {
	var k key128
	for a, v := range s.env {
		k.add(4, uint64(a.id), uint64(v.id))
	}
	for a, v := range s.nils {
		k.add(5, uint64(a.id), boolID(v))
	}
	for a, v := range s.bools {
		k.add(6, uint64(a.id), boolID(v))
	}
	for a, v := range s.strs {
		if v.eq != nil {
			k.add(7, uint64(a.id), uint64(v.eq.id))
		} else {
			for n := range v.neq {
				k.add(8, uint64(a.id), uint64(n.id))
			}
		}
	}
	for a, v := range s.lins {
		ps := []uint64{9, strID(a), boolID(v.v.hasLo), uint64(v.v.lo), boolID(v.v.hasHi), uint64(v.v.hi)}
		for _, n := range v.v.neq {
			ps = append(ps, uint64(n))
		}
		k.add(ps...)
	}
	for a, v := range s.rels {
		k.add(10, uint64(a[0].id), uint64(a[1].id), uint64(v))
	}
	for a, v := range s.mem {
		k.add(11, uint64(a.id), uint64(v.id))
	}
	return k
}

// join keeps what both states know.
func (s *State) join(o *State) *State {
	s, o = alignCells(s, o)
	n := newState()
	same := joinEqual(s, o)
	for k, v := range s.env {
		if o.env[k] == v {
			n.env[k] = v
		} else if same[k] != nil {
			n.env[k] = same[k]
		} else {
			joinValue(s, o, n, k)
		}
	}
	for k := range o.env {
		if s.env[k] == nil {
			if same[k] != nil {
				n.env[k] = same[k]
			} else {
				joinValue(s, o, n, k)
			}
		}
	}
	for k, v := range s.nils {
		if w := o.nilOf(k); w == int(boolID(v)) {
			n.nils[k] = v
		}
	}
	for k, v := range o.nils {
		if w := s.nilOf(k); w == int(boolID(v)) {
			n.nils[k] = v
		}
	}
	for k, v := range s.bools {
		if w := o.boolOf(k); w == int(boolID(v)) {
			n.bools[k] = v
		}
	}
	for k, v := range s.strs {
		w, ok := o.strs[k]
		if !ok {
			continue
		}
		if v.eq != nil && w.eq == v.eq {
			n.strs[k] = v
			continue
		}
		keep := map[*Term]bool{}
		for _, p := range [][2]*strFact{{v, w}, {w, v}} {
			for c := range p[0].neq {
				if p[1].neq[c] || (p[1].eq != nil && p[1].eq != c) {
					keep[c] = true
				}
			}
		}
		if len(keep) > 0 {
			n.strs[k] = &strFact{neq: keep}
		}
	}
	for k, v := range s.lins {
		if w, ok := o.lins[k]; ok {
			iv := &ival{}
			if v.v.hasLo && w.v.hasLo {
				iv.hasLo, iv.lo = true, min(v.v.lo, w.v.lo)
			}
			if v.v.hasHi && w.v.hasHi {
				iv.hasHi, iv.hi = true, max(v.v.hi, w.v.hi)
			}
			if !iv.trivial() {
				n.lins[k] = &linFact{f: v.f, v: iv}
			}
		}
	}
	joinRenamed(s, o, n)
	for k, v := range s.rels {
		if w, ok := o.rels[k]; ok && (v|w) != relLT|relEQ|relGT {
			n.rels[k] = v | w
		}
	}
	joinRels(s, o, n)
	sm, om := alignMem(s.mem, o.mem)
	for k, v := range sm {
		if om[k] == v {
			n.mem[k] = v
		}
	}
	for k, v := range s.tags {
		n.tags[k] = v
	}
	for k, v := range s.auto {
		n.auto[k] = v
	}
	for k, v := range s.defers {
		n.defers[k] = v
	}
	return n
}

// joinEqual finds the integer variables that get a new value in a join and are
// equal to each other in both states: all but one are defined as that one.
func joinEqual(s, o *State) map[*Term]*Term {
	first := map[[2]*Term]*Term{}
	var keys []*Term
	for _, p := range [][2]*State{{s, o}, {o, s}} {
		for k, v := range p[0].env {
			w := p[1].env[k]
			if k.Kind != 'l' || k.Typ == nil || !isSignedInt(k.Typ) || w == v || w != nil && p[0] == o {
				continue
			}
			keys = append(keys, k)
			pair := [2]*Term{s.norm(k), o.norm(k)}
			if c := first[pair]; c == nil || k.Frame.idOr0() < c.Frame.idOr0() || k.Frame == c.Frame && k.id < c.id {
				first[pair] = k
			}
		}
	}
	var out map[*Term]*Term
	for _, k := range keys {
		if c := first[[2]*Term{s.norm(k), o.norm(k)}]; c != k {
			if out == nil {
				out = map[*Term]*Term{}
			}
			out[k] = c
		}
	}
	return out
}

// joinRels keeps what both states know about the order of a floating-point
// variable that stands for different values in them.
func joinRels(s, o, n *State) {
	if len(s.rels) == 0 && len(o.rels) == 0 {
		return
	}
	keys := map[*Term]bool{}
	for _, p := range [][2]*State{{s, o}, {o, s}} {
		for k, v := range p[0].env {
			if k.Kind == 'l' && k.Typ != nil && isFloat(k.Typ) && p[1].env[k] != v && n.env[k] == nil {
				keys[k] = true
			}
		}
	}
	for k := range keys {
		vs, vo := s.norm(k), o.norm(k)
		var ys []*Term
		add := func(y *Term) {
			if y != k && s.norm(y) == y && o.norm(y) == y && !y.has(k) {
				ys = append(ys, y)
			}
		}
		for _, p := range []struct {
			s *State
			v *Term
		}{{s, vs}, {o, vo}} {
			if p.v.Kind == 'c' || p.v.Kind == 'o' && p.v.Op == "opt" {
				add(p.v)
			}
			for q := range p.s.rels {
				switch p.v {
				case q[0]:
					add(q[1])
				case q[1]:
					add(q[0])
				}
			}
		}
		for _, y := range ys {
			if m := s.relOf(vs, y) | o.relOf(vo, y); m != relLT|relEQ|relGT {
				n.addRel(k, y, m)
			}
		}
	}
}

// widen makes a chain of joins end: bounds that moved are dropped, and when
// hard no fact is kept that the earlier state did not have.
func (n *State) widen(j *State, hard bool) {
	for k, v := range n.lins {
		w, ok := j.lins[k]
		if !ok {
			if hard {
				delete(n.lins, k)
			}
			continue
		}
		iv := v.v.clone()
		// a bound that moved goes to the next of a few thresholds
		if iv.hasLo && w.v.hasLo && iv.lo != w.v.lo && (hard || iv.lo < -8) {
			switch {
			case iv.lo >= 1:
				iv.lo = 1
			case iv.lo >= -1:
			default:
				iv.hasLo, iv.lo = false, 0
			}
		}
		if iv.hasHi && w.v.hasHi && iv.hi != w.v.hi && (hard || iv.hi > 8) {
			switch {
			case iv.hi <= -1:
				iv.hi = -1
			case iv.hi <= 1:
			default:
				iv.hasHi, iv.hi = false, 0
			}
		}
		if hard {
			if !w.v.hasLo {
				iv.hasLo, iv.lo = false, 0
			}
			if !w.v.hasHi {
				iv.hasHi, iv.hi = false, 0
			}
			iv.neq = nil
		}
		if iv.trivial() {
			delete(n.lins, k)
		} else {
			n.lins[k] = &linFact{f: v.f, v: iv}
		}
	}
	if !hard {
		return
	}
	for k := range n.nils {
		if _, ok := j.nils[k]; !ok {
			delete(n.nils, k)
		}
	}
	for k := range n.bools {
		if _, ok := j.bools[k]; !ok {
			delete(n.bools, k)
		}
	}
	for k := range n.strs {
		if _, ok := j.strs[k]; !ok {
			delete(n.strs, k)
		}
	}
	for k, v := range n.rels {
		if w, ok := j.rels[k]; !ok || v != w && v&w != w {
			delete(n.rels, k)
		}
	}
}

// joinRenamed keeps linear facts that hold in both states of variables that
// stand for different things in them.
func joinRenamed(s, o, n *State) {
	opaque := func(t *Term) bool {
		return t.Kind == 'l' || t.Kind == 'o' && t.Op != "lin" && t.Op != "zero" && t.Op != "struct" && t.Op != "closure" && t.Op != "tuple"
	}
	var keys []*Term
	diff := func(m, w map[*Term]*Term) {
		for k, v := range m {
			if k.Kind == 'l' && w[k] != v && k.Typ != nil && opaque(v) {
				keys = append(keys, k)
			}
		}
	}
	diff(s.env, o.env)
	diff(o.env, s.env)
	if len(keys) == 0 {
		return
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, p := range [][2]*State{{s, o}, {o, s}} {
		a, b := p[0], p[1]
		// what the variables stand for in a, by their names
		toKey, fromKey := map[*Term]*Term{}, map[*Term]*Term{}
		for _, k := range keys {
			va, vb := a.norm(k), b.norm(k)
			if va == vb || !opaque(va) {
				continue
			}
			if _, ok := toKey[va]; !ok {
				toKey[va] = k
				fromKey[k] = vb
			}
		}
		if len(toKey) == 0 {
			continue
		}
		for _, k := range keys {
			va := a.norm(k)
			if va.Kind != 'o' || !opaque(va) || n.env[k] != nil || b.norm(k) == va {
				continue
			}
			args := make([]*Term, len(va.Args))
			changed := false
			for i, x := range va.Args {
				args[i] = substMany(x, toKey)
				changed = changed || args[i] != x
			}
			if !changed {
				continue
			}
			if g := rebuild(va, args); g.Kind == 'o' && !g.has(k) && b.norm(substMany(g, fromKey)) == b.norm(k) {
				n.env[k] = g
			}
		}
		for _, f := range a.lins {
			g, changed := substLin(f.f, toKey)
			if !changed || len(g.at) == 0 {
				continue
			}
			h, _ := substLin(g, fromKey)
			iv := ival{}
			w := b.ivalOf(h)
			if f.v.hasLo && w.hasLo {
				iv.hasLo, iv.lo = true, min(f.v.lo, w.lo)
			}
			if f.v.hasHi && w.hasHi {
				iv.hasHi, iv.hi = true, max(f.v.hi, w.hi)
			}
			if g.c != 0 {
				iv.lo += g.c
				iv.hi += g.c
			}
			if iv.hasLo || iv.hasHi {
				n.addLin(g, iv)
			}
		}
	}
}

func substLin(f lin, m map[*Term]*Term) (lin, bool) {
	acc, changed := lin{c: f.c}, false
	for i, a := range f.at {
		b := substMany(a, m)
		changed = changed || a != b
		acc = acc.plus(linOf(b), f.co[i])
	}
	return acc, changed
}

// substMany replaces terms simultaneously.
func substMany(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if t.Kind != 'o' || len(t.leaves) == 0 {
		return t
	}
	var args []*Term
	for i, a := range t.Args {
		b := substMany(a, m)
		if b != a && args == nil {
			args = append(args, t.Args...)
		}
		if args != nil {
			args[i] = b
		}
	}
	if args == nil {
		return t
	}
	return rebuild(t, args)
}

// joinValue keeps what two states agree on about a leaf that they equate with
// different terms.
func joinValue(s, o, n *State, k *Term) { joinAs(s, o, n, s.norm(k), o.norm(k), k) }

// joinAs keeps what s knows of x and o knows of y as what n knows of k.
func joinAs(s, o, n *State, x, y, k *Term) {
	if k.Typ == nil {
		return
	}
	switch {
	case isSignedInt(k.Typ):
		a, b := s.ivalOf(linOf(x)), o.ivalOf(linOf(y))
		iv := ival{}
		if a.hasLo && b.hasLo {
			iv.hasLo, iv.lo = true, min(a.lo, b.lo)
		}
		if a.hasHi && b.hasHi {
			iv.hasHi, iv.hi = true, max(a.hi, b.hi)
		}
		if !iv.trivial() {
			n.addLin(linOf(k), iv)
		}
		for _, p := range []struct {
			a, b *State
			x, y *Term
		}{{s, o, x, y}, {o, s, y, x}} {
			lx := linOf(p.x)
			if len(lx.at) == 0 {
				continue
			}
			if len(lx.at) <= 2 && p.x != k && !p.x.has(k) {
				// the difference to the value it has in one of the states
				whole := linOf(k).plus(lx, -1)
				w := p.b.ivalOf(linOf(p.y).plus(lx, -1))
				iv := ival{}
				if w.hasLo {
					iv.hasLo, iv.lo = true, min(0, w.lo)
				}
				if w.hasHi {
					iv.hasHi, iv.hi = true, max(0, w.hi)
				}
				if !iv.trivial() {
					n.addLin(whole, iv)
				}
			}
			for _, f := range p.a.lins {
				// a fact about the whole sum and one more value
				i := -1
				for j, a := range f.f.at {
					if a == lx.at[0] {
						i = j
					}
				}
				if i < 0 || f.f.co[i]%lx.co[0] != 0 || len(f.f.at) > len(lx.at)+2 {
					continue
				}
				c := f.f.co[i] / lx.co[0]
				rest := f.f.plus(lx, -c)
				if len(rest.at) == 0 || len(rest.at) > 2 || p.x != k && (rest.at[0].has(k) || rest.at[len(rest.at)-1].has(k)) {
					continue
				}
				whole := rest.plus(linOf(k), c)
				v := f.v.clone()
				w := p.b.ivalOf(rest.plus(linOf(p.y), c))
				iv := ival{}
				if v.hasLo && w.hasLo {
					iv.hasLo, iv.lo = true, min(v.lo, w.lo)
				}
				if v.hasHi && w.hasHi {
					iv.hasHi, iv.hi = true, max(v.hi, w.hi)
				}
				if !iv.trivial() {
					n.addLin(whole, iv)
				}
			}
		}
	case isBool(k.Typ):
		if a := s.boolOf(x); a >= 0 && a == o.boolOf(y) {
			n.bools[k] = a == 1
		}
	case isString(k.Typ):
		if f, g := s.strs[x], o.strs[y]; f != nil && g != nil && f.eq != nil && f.eq == g.eq {
			n.strs[k] = f
		}
	default:
		if _, ok := k.Typ.Underlying().(*types.Struct); ok {
			return
		}
		if a := s.nilOf(x); a >= 0 && a == o.nilOf(y) {
			n.nils[k] = a == 1
		}
	}
}

// norm replaces a term by what it is known to equal.
func (s *State) norm(t *Term) *Term {
	for i := 0; i < 8; i++ {
		r, ok := s.env[t]
		if !ok {
			return t
		}
		t = r
	}
	return t
}

func (s *State) lenOf(x *Term) *Term {
	t := mkLen(x)
	return s.norm(t)
}

// ---- linear facts ----

func (s *State) ivalOf(l lin) ival {
	if len(l.at) == 0 {
		return ival{lo: l.c, hi: l.c, hasLo: true, hasHi: true}
	}
	base := s.linPart(lin{at: l.at, co: l.co})
	if base.hasLo {
		base.lo += l.c
	}
	if base.hasHi {
		base.hi += l.c
	}
	for i := range base.neq {
		base.neq[i] += l.c
	}
	return base
}

func (s *State) direct(l lin) ival {
	var r ival
	k, flip := l.norm()
	if f, ok := s.lins[k]; ok {
		v := f.v.clone()
		if flip {
			r.hasLo, r.lo, r.hasHi, r.hi = v.hasHi, -v.hi, v.hasLo, -v.lo
			for _, n := range v.neq {
				r.neq = append(r.neq, -n)
			}
		} else {
			r = *v
		}
	}
	if len(l.at) == 1 {
		a := l.at[0]
		if nonNeg(a) {
			switch {
			case l.co[0] > 0:
				if !r.hasLo || r.lo < 0 {
					r.hasLo, r.lo = true, 0
				}
			case l.co[0] < 0:
				if !r.hasHi || r.hi > 0 {
					r.hasHi, r.hi = true, 0
				}
			}
		}
		if l.co[0] != 1 && l.co[0] != -1 {
			// k*a from a
			u := s.direct(lin{at: l.at, co: []int64{1}})
			c := l.co[0]
			lo, hi, hl, hh := u.lo*c, u.hi*c, u.hasLo, u.hasHi
			if c < 0 {
				lo, hi, hl, hh = hi, lo, hh, hl
			}
			if hl && (!r.hasLo || lo > r.lo) {
				r.hasLo, r.lo = true, lo
			}
			if hh && (!r.hasHi || hi < r.hi) {
				r.hasHi, r.hi = true, hi
			}
		}
	}
	return r
}

func nonNeg(a *Term) bool {
	if a.Kind == 'o' && (a.Op == "len" || a.Op == "cap" || a.Op == "nonneg" || a.Op == "dicLen") {
		return true
	}
	return a.Kind == 'l' && isUnsigned(a.Typ)
}

func meet(r *ival, v ival) {
	if v.hasLo && (!r.hasLo || v.lo > r.lo) {
		r.hasLo, r.lo = true, v.lo
	}
	if v.hasHi && (!r.hasHi || v.hi < r.hi) {
		r.hasHi, r.hi = true, v.hi
	}
}

func addIval(a, b ival) ival {
	return ival{lo: a.lo + b.lo, hi: a.hi + b.hi, hasLo: a.hasLo && b.hasLo, hasHi: a.hasHi && b.hasHi}
}

// linPart bounds a linear form by its own facts, by the sums of facts about a
// partition of its atoms and by subtracting one known form from it.
func (s *State) linPart(l lin) ival { return s.linDepth(l, 2) }

func (s *State) linDepth(l lin, depth int) ival {
	if len(l.at) == 0 {
		return ival{lo: l.c, hi: l.c, hasLo: true, hasHi: true}
	}
	r := s.direct(l)
	if len(l.at) == 1 && depth <= 1 || depth == 0 {
		return r
	}
	if len(l.at) > 1 {
		acc := ival{hasLo: true, hasHi: true}
		for i := range l.at {
			acc = addIval(acc, s.direct(lin{at: l.at[i : i+1], co: l.co[i : i+1]}))
		}
		meet(&r, acc)
	}
	// l = f + rest for each known fact f that shares an atom
	for _, f := range s.lins {
		for _, sign := range []int64{1, -1} {
			share := false
			for i, a := range f.f.at {
				for j, b := range l.at {
					if a == b && (f.f.co[i]*sign > 0) == (l.co[j] > 0) {
						share = true
					}
				}
			}
			if !share || (len(f.f.at) == 1 && len(l.at) == 1) {
				continue
			}
			rest := l.plus(f.f, -sign)
			if len(rest.at) > len(l.at) || len(rest.at) > 3 {
				continue
			}
			fv := *f.v
			if sign < 0 {
				fv = ival{lo: -f.v.hi, hi: -f.v.lo, hasLo: f.v.hasHi, hasHi: f.v.hasLo}
			}
			meet(&r, addIval(fv, s.linDepth(rest, depth-1)))
		}
	}
	return r
}

// addLin records lo <= l <= hi (bounds optional); false when impossible.
func (s *State) addLin(l lin, v ival) bool {
	if len(l.at) == 0 {
		if v.hasLo && l.c < v.lo || v.hasHi && l.c > v.hi {
			return false
		}
		for _, n := range v.neq {
			if n == l.c {
				return false
			}
		}
		return true
	}
	cur := s.ivalOf(l)
	c := ival{lo: cur.lo, hi: cur.hi, hasLo: cur.hasLo, hasHi: cur.hasHi, neq: cur.neq}
	meet(&c, v)
	c.neq = append(append([]int64(nil), c.neq...), v.neq...)
	sort.Slice(c.neq, func(i, j int) bool { return c.neq[i] < c.neq[j] })
	var uniq []int64
	for i, n := range c.neq {
		if i == 0 || n != c.neq[i-1] {
			uniq = append(uniq, n)
		}
	}
	if len(uniq) > 4 {
		uniq = uniq[:4]
	}
	c.neq = uniq
	if !c.tighten() {
		return false
	}
	// store relative to the normalised linear part
	k, flip := l.norm()
	d := s.direct(lin{at: l.at, co: l.co}) // what is stored already
	_ = d
	st := &ival{}
	set := func(lo, hi int64, hl, hh bool, neq []int64) {
		st.lo, st.hi, st.hasLo, st.hasHi = lo, hi, hl, hh
		st.neq = append([]int64(nil), neq...)
		sort.Slice(st.neq, func(i, j int) bool { return st.neq[i] < st.neq[j] })
	}
	shift := func(ns []int64, f func(int64) int64) []int64 {
		var r []int64
		for _, n := range ns {
			r = append(r, f(n))
		}
		return r
	}
	form := lin{at: l.at}
	if flip {
		set(-(c.hi - l.c), -(c.lo - l.c), c.hasHi, c.hasLo, shift(c.neq, func(n int64) int64 { return -(n - l.c) }))
		for _, x := range l.co {
			form.co = append(form.co, -x)
		}
	} else {
		set(c.lo-l.c, c.hi-l.c, c.hasLo, c.hasHi, shift(c.neq, func(n int64) int64 { return n - l.c }))
		form.co = l.co
	}
	if !st.hasLo {
		st.lo = 0
	}
	if !st.hasHi {
		st.hi = 0
	}
	if st.trivial() {
		return true
	}
	s.lins[k] = &linFact{f: form, v: st}
	return true
}

// ---- queries ----

// nilOf: 1 nil, 0 non-nil, -1 unknown.
func (s *State) nilOf(t *Term) int {
	t = s.norm(t)
	if v, ok := s.nils[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch t.Kind {
	case 'c':
		if t.C == nil {
			return 1
		}
		return 0
	case 'g', 'f':
		return 0
	case 'l':
		switch v := t.Val.(type) {
		case *ssa.Alloc, *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
			if t.Extra == "" {
				return 0
			}
		case *ssa.UnOp:
			if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && isErrorType(g.Type().(*types.Pointer).Elem()) {
				return 0 // error variables such as io.EOF are never nil
			}
		}
	case 'o':
		switch t.Op {
		case "iface", "closure", "fieldaddr", "indexaddr", "newerror", "struct", "ext":
			return 0
		case "globalval":
			if isErrorType(t.Typ) {
				return 0
			}
		case "errwrap":
			return s.nilOf(t.Args[0])
		}
	}
	return -1
}

// boolOf: 1 true, 0 false, -1 unknown.
func (s *State) boolOf(t *Term) int {
	t = s.norm(t)
	if t == tTrue {
		return 1
	}
	if t == tFalse {
		return 0
	}
	if v, ok := s.bools[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if t.Kind != 'o' {
		return -1
	}
	switch t.Op {
	case "!":
		if r := s.boolOf(t.Args[0]); r >= 0 {
			return 1 - r
		}
	case "istype":
		// a value has one concrete type, and nil has none
		if s.nilOf(t.Args[0]) == 1 {
			return 0
		}
		if t.Typ != nil && !types.IsInterface(t.Typ) {
			for k, v := range s.bools {
				if v && k.Kind == 'o' && k.Op == "istype" && k.Args[0] == t.Args[0] && k.Typ != nil && !types.IsInterface(k.Typ) && !types.Identical(k.Typ, t.Typ) {
					return 0
				}
			}
		}
	case "==", "<", "<=":
		x, y := s.norm(t.Args[0]), s.norm(t.Args[1])
		switch t.Field {
		case 1:
			d := linOf(x).plus(linOf(y), -1)
			v := s.ivalOf(d)
			switch t.Op {
			case "==":
				if v.hasLo && v.lo > 0 || v.hasHi && v.hi < 0 {
					return 0
				}
				for _, n := range v.neq {
					if n == 0 {
						return 0
					}
				}
				if v.hasLo && v.hasHi && v.lo == 0 && v.hi == 0 {
					return 1
				}
			case "<":
				if v.hasHi && v.hi < 0 {
					return 1
				}
				if v.hasLo && v.lo >= 0 {
					return 0
				}
			case "<=":
				if v.hasHi && v.hi <= 0 {
					return 1
				}
				if v.hasLo && v.lo > 0 {
					return 0
				}
			}
			return -1
		case 4:
			if t.Op == "==" {
				return s.strEq(x, y)
			}
		case 5:
			if t.Op == "==" {
				a, b := s.boolOf(x), s.boolOf(y)
				if a >= 0 && b >= 0 {
					if a == b {
						return 1
					}
					return 0
				}
			}
		case 0:
			if t.Op == "==" {
				a, b := s.nilOf(x), s.nilOf(y)
				if a == 1 && b == 1 {
					return 1
				}
				if a >= 0 && b >= 0 && a != b {
					return 0
				}
				if x == y {
					return 1
				}
			}
		}
		m := s.relOf(x, y)
		switch t.Op {
		case "==":
			if m == relEQ {
				return 1
			}
			if m&relEQ == 0 {
				return 0
			}
		case "<":
			if m == relLT {
				return 1
			}
			if m&relLT == 0 {
				return 0
			}
		case "<=":
			if m&relGT == 0 {
				return 1
			}
			if m == relGT {
				return 0
			}
		}
	}
	return -1
}

func (s *State) strEq(x, y *Term) int {
	if x == y {
		return 1
	}
	if x.Kind == 'c' && y.Kind == 'c' {
		return 0
	}
	if y.Kind == 'c' {
		x, y = y, x
	}
	if x.Kind == 'c' {
		f := s.strs[y]
		if f != nil {
			if f.eq != nil {
				if f.eq == x {
					return 1
				}
				return 0
			}
			if f.neq[x] {
				return 0
			}
		}
		return -1
	}
	if f, g := s.strs[x], s.strs[y]; f != nil && g != nil {
		if f.eq != nil && g.eq != nil {
			if f.eq == g.eq {
				return 1
			}
			return 0
		}
		for _, p := range [][2]*strFact{{f, g}, {g, f}} {
			if p[0].eq != nil && p[1].neq[p[0].eq] {
				return 0
			}
		}
	}
	m := s.relOf(x, y)
	if m == relEQ {
		return 1
	}
	if m&relEQ == 0 {
		return 0
	}
	return -1
}

func flipRel(m uint8) uint8 {
	r := m & relEQ
	if m&relLT != 0 {
		r |= relGT
	}
	if m&relGT != 0 {
		r |= relLT
	}
	return r
}

func (s *State) relOf(x, y *Term) uint8 {
	if x == y {
		return relEQ
	}
	if a, ok := constFloat(x); ok {
		if b, ok := constFloat(y); ok {
			switch {
			case a < b:
				return relLT
			case a > b:
				return relGT
			default:
				return relEQ
			}
		}
	}
	flip := x.id > y.id
	if flip {
		x, y = y, x
	}
	m, ok := s.rels[[2]*Term{x, y}]
	if !ok {
		m = relLT | relEQ | relGT
	}
	if flip {
		m = flipRel(m)
	}
	return m
}

func (s *State) addRel(x, y *Term, m uint8) bool {
	m &= s.relOf(x, y)
	if m == 0 {
		return false
	}
	if m == relLT|relEQ|relGT || (x.Kind == 'c' && y.Kind == 'c') || x == y {
		return true
	}
	if x.id > y.id {
		x, y = y, x
		m = flipRel(m)
	}
	s.rels[[2]*Term{x, y}] = m
	return true
}

// emptyStr reads a comparison of the length of a string that asks whether the
// string is empty as the comparison of the string itself, or gives nil.
func emptyStr(cond *Term) *Term {
	if cond.Kind != 'o' {
		return nil
	}
	if cond.Op == "!" {
		if e := emptyStr(cond.Args[0]); e != nil {
			return mkNot(e)
		}
		return nil
	}
	if cond.Field != 1 || len(cond.Args) != 2 {
		return nil
	}
	d := linOf(cond.Args[0]).plus(linOf(cond.Args[1]), -1)
	if len(d.at) != 1 || d.at[0].Kind != 'o' || d.at[0].Op != "len" {
		return nil
	}
	str := d.at[0].Args[0]
	if str.Typ == nil || !isString(str.Typ) {
		return nil
	}
	empty := mkBin(token.EQL, types.Typ[types.String], types.Typ[types.Bool], str, mkStr(""))
	switch {
	case cond.Op == "==" && d.c == 0,
		cond.Op == "<" && d.co[0] == 1 && d.c == -1,
		cond.Op == "<=" && d.co[0] == 1 && d.c == 0:
		return empty
	case cond.Op == "<" && d.co[0] == -1 && d.c == 0,
		cond.Op == "<=" && d.co[0] == -1 && d.c == 1:
		return mkNot(empty)
	}
	return nil
}

// assume restricts the state to executions where cond has the given value;
// false when there are none.
func (s *State) assume(cond *Term, val bool) bool {
	cond = s.norm(cond)
	switch s.boolOf(cond) {
	case 1:
		if !val {
			return false
		}
	case 0:
		if val {
			return false
		}
	}
	if cond.Kind == 'c' {
		return true
	}
	if cond.Kind == 'o' {
		switch cond.Op {
		case "!":
			return s.assume(cond.Args[0], !val)
		case "==", "<", "<=":
			x, y := s.norm(cond.Args[0]), s.norm(cond.Args[1])
			switch cond.Field {
			case 1:
				if e := emptyStr(cond); e != nil && !s.assume(e, val) {
					return false
				}
				d := linOf(x).plus(linOf(y), -1)
				switch {
				case cond.Op == "==" && val:
					return s.addLin(d, ival{hasLo: true, hasHi: true})
				case cond.Op == "==":
					return s.addLin(d, ival{neq: []int64{0}})
				case cond.Op == "<" && val:
					return s.addLin(d, ival{hasHi: true, hi: -1})
				case cond.Op == "<":
					return s.addLin(d, ival{hasLo: true, lo: 0})
				case val:
					return s.addLin(d, ival{hasHi: true, hi: 0})
				default:
					return s.addLin(d, ival{hasLo: true, lo: 1})
				}
			case 4:
				if cond.Op == "==" {
					if y.Kind == 'c' {
						x, y = y, x
					}
					if x.Kind == 'c' {
						return s.addStr(y, x, val)
					}
				}
			case 5:
				if cond.Op == "==" {
					if b := s.boolOf(x); b >= 0 {
						return s.assume(y, (b == 1) == val)
					}
					if b := s.boolOf(y); b >= 0 {
						return s.assume(x, (b == 1) == val)
					}
				}
			case 0:
				if cond.Op == "==" {
					if s.nilOf(y) == 1 {
						x, y = y, x
					}
					if s.nilOf(x) == 1 {
						return s.addNil(y, val)
					}
					if val {
						if s.nilOf(x) == 0 && !s.addNil(y, false) || s.nilOf(y) == 0 && !s.addNil(x, false) {
							return false
						}
					}
				}
			}
			var m uint8
			switch cond.Op {
			case "==":
				m = relEQ
			case "<":
				m = relLT
			case "<=":
				m = relLT | relEQ
			}
			if !val {
				m = (relLT | relEQ | relGT) &^ m
			}
			return s.addRel(x, y, m)
		}
	}
	s.bools[cond] = val
	return true
}

func (s *State) addNil(t *Term, isNil bool) bool {
	t = s.norm(t)
	switch s.nilOf(t) {
	case 1:
		return isNil
	case 0:
		return !isNil
	}
	if t.Kind == 'o' && t.Op == "errwrap" {
		return s.addNil(t.Args[0], isNil)
	}
	s.nils[t] = isNil
	if isNil {
		// the length of a nil slice or map is 0
		switch t.Typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			s.addLin(linOf(mkLen(t)), ival{hasLo: true, hasHi: true})
		}
	}
	return true
}

func (s *State) addStr(t, c *Term, eq bool) bool {
	switch s.strEq(t, c) {
	case 1:
		return eq
	case 0:
		return !eq
	}
	if c == mkStr("") {
		v := ival{hasLo: true, lo: 1}
		if eq {
			v = ival{hasLo: true, hasHi: true}
		}
		if !s.addLin(linOf(s.lenOf(t)), v) {
			return false
		}
	}
	if eq {
		s.strs[t] = &strFact{eq: c}
		return true
	}
	n := map[*Term]bool{c: true}
	if f := s.strs[t]; f != nil {
		for k := range f.neq {
			n[k] = true
		}
	}
	s.strs[t] = &strFact{neq: n}
	return true
}

// implies reports whether lo <= t (or t <= hi) is known.
func (s *State) atLeast(t *Term, n int64) bool {
	v := s.ivalOf(linOf(s.norm(t)))
	return v.hasLo && v.lo >= n
}

func (s *State) atMost(t *Term, n int64) bool {
	v := s.ivalOf(linOf(s.norm(t)))
	return v.hasHi && v.hi <= n
}

func (s *State) less(x, y *Term) bool {
	v := s.ivalOf(linOf(s.norm(x)).plus(linOf(s.norm(y)), -1))
	return v.hasHi && v.hi < 0
}

func (s *State) lessEq(x, y *Term) bool {
	v := s.ivalOf(linOf(s.norm(x)).plus(linOf(s.norm(y)), -1))
	return v.hasHi && v.hi <= 0
}

func (s *State) equal(x, y *Term) bool {
	x, y = s.norm(x), s.norm(y)
	if x == y {
		return true
	}
	if isSignedInt(x.Typ) || isSignedInt(y.Typ) {
		v := s.ivalOf(linOf(x).plus(linOf(y), -1))
		return v.hasLo && v.hasHi && v.lo == 0 && v.hi == 0
	}
	if isString(x.Typ) {
		return s.strEq(x, y) == 1
	}
	return s.relOf(x, y) == relEQ
}

// ---- forgetting and renaming ----

// solve finds r such that replacing l by r expresses l through k, given env[k]=t.
func solve(k, t, l *Term) *Term {
	if t == l {
		return k
	}
	if t.Kind == 'o' && t.Op == "lin" {
		for i, a := range t.Args {
			if a == l && (t.Coef[i] == 1 || t.Coef[i] == -1) {
				rest := linOf(t).plus(lin{at: []*Term{l}, co: []int64{t.Coef[i]}}, -1)
				for _, o := range rest.at {
					if o.has(l) {
						return nil
					}
				}
				// k = c*l + rest  =>  l = c*(k-rest)
				return mkLin(linOf(k).plus(rest, -1).times(t.Coef[i]))
			}
		}
	}
	return nil
}

// kill forgets leaf l, because its value is about to change. What is known of
// the old value moves to another name of it where there is one. onLost is told
// of the marks that had no other name.
func (s *State) kill(l *Term, onLost func(t *Term, tag string)) {
	used := false
	for k, v := range s.env {
		if v.has(l) || k.has(l) {
			used = true
			break
		}
	}
	if !used && !s.mentions(l) {
		return
	}
	delete(s.env, l)
	// another name
	var best, rep *Term
	var keys []*Term
	for k, v := range s.env {
		if k != l && !k.has(l) && v.has(l) && k.Kind == 'l' {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, k := range keys {
		if s.env[k] == l {
			best, rep = k, k
			break
		}
		if best == nil {
			if r := solve(k, s.env[k], l); r != nil {
				best, rep = k, r
			}
		}
	}
	if best == nil {
		// a memory cell that holds exactly the old value keeps it under a name of its own
		var addrs []*Term
		for a, v := range s.mem {
			if v == l && !a.has(l) {
				addrs = append(addrs, a)
			}
		}
		if len(addrs) > 0 {
			sort.Slice(addrs, func(i, j int) bool { return addrs[i].id < addrs[j].id })
			rep = memVal(addrs[0], l.Typ)
			if rep != l {
				s.kill(rep, onLost)
			} else {
				rep = nil
			}
		}
	}
	if best != nil {
		delete(s.env, best)
	}
	s.replace(l, rep, onLost)
}

// memVal names the content of an address when nothing else does.
func memVal(a *Term, typ types.Type) *Term {
	return terms.get(fmt.Sprintf("memval|%d", a.id), func() *Term {
		return &Term{Kind: 'l', Frame: a.rootFrame(), Extra: "in " + a.String(), Typ: typ, Op: "memval", Args: []*Term{a}}
	})
}

// split replaces what is known of the objects that a lies in by what is known
// of their parts, so that a can be forgotten and the other parts stay.
func split(mem map[*Term]*Term, a *Term) {
	if !isPath(a) {
		return
	}
	q := a.Args[0]
	split(mem, q)
	v, ok := mem[q]
	if !ok {
		return
	}
	delete(mem, q)
	if st := structOf2(q); st != nil && a.Op == "fieldaddr" {
		for i := 0; i < st.NumFields(); i++ {
			fa := mkFieldAddr(q, i, structTypOf(q))
			if _, ok := mem[fa]; !ok {
				mem[fa] = mkField(v, i, structTypOf(q))
			}
		}
	}
}

// alignCells gives the content of a cell one name in two states where they only
// differ in the name of what was loaded from it.
func alignCells(s, o *State) (*State, *State) {
	loaded := func(l *Term) bool {
		if l == nil || l.Kind != 'l' {
			return false
		}
		if l.Op == "memval" || l.Op == "memphi" {
			return true
		}
		u, ok := l.Val.(*ssa.UnOp)
		return ok && u.Op == token.MUL
	}
	cloned := false
	done := map[*Term]bool{}
	for n := 0; n < 64; n++ {
		var k *Term
		for a, v := range s.mem {
			if w := o.mem[a]; w != v && loaded(v) && loaded(w) && !done[a] && (k == nil || a.id < k.id) {
				k = a
			}
		}
		if k == nil {
			break
		}
		done[k] = true
		if !cloned {
			s, o, cloned = s.clone(), o.clone(), true
		}
		for _, st := range []*State{s, o} {
			l := st.mem[k]
			m := memVal(k, l.Typ)
			if l == m {
				continue
			}
			st.kill(m, nil)
			if st.mem[k] != l {
				continue
			}
			st.replace(l, m, nil)
			if l.Val != nil {
				st.env[l] = m
			}
		}
	}
	return s, o
}

// alignMem splits what two states know of memory until the entries that differ
// lie in no object that either knows as a whole.
func alignMem(s, o map[*Term]*Term) (map[*Term]*Term, map[*Term]*Term) {
	var differ []*Term
	add := func(m, w map[*Term]*Term) {
		for k, v := range m {
			if w[k] != v && isPath(k) {
				differ = append(differ, k)
			}
		}
	}
	add(s, o)
	add(o, s)
	covered := func(m map[*Term]*Term, a *Term) bool {
		for isPath(a) {
			a = a.Args[0]
			if _, ok := m[a]; ok {
				return true
			}
		}
		return false
	}
	var todo []*Term
	for _, k := range differ {
		if covered(s, k) || covered(o, k) {
			todo = append(todo, k)
		}
	}
	if len(todo) == 0 {
		return s, o
	}
	s, o = maps.Clone(s), maps.Clone(o)
	sort.Slice(todo, func(i, j int) bool { return todo[i].id < todo[j].id })
	for _, k := range todo {
		split(s, k)
		split(o, k)
	}
	return s, o
}

// dropAround forgets the objects that an address with no name any more lies in.
func (s *State) dropAround(a *Term) {
	for isPath(a) {
		a = a.Args[0]
		delete(s.mem, a)
	}
}

// unknownAt forgets the content of an address.
func (s *State) unknownAt(a *Term) {
	for k := range s.mem {
		if k == a || under(k, a) {
			delete(s.mem, k)
		}
	}
	split(s.mem, a)
	delete(s.mem, a)
}

func (t *Term) rootFrame() *Frame {
	for _, l := range t.leaves {
		if l.Frame != nil {
			return l.Frame
		}
	}
	return nil
}

func (s *State) mentions(l *Term) bool {
	for k := range s.nils {
		if k.has(l) {
			return true
		}
	}
	for k := range s.bools {
		if k.has(l) {
			return true
		}
	}
	for k := range s.strs {
		if k.has(l) {
			return true
		}
	}
	for _, f := range s.lins {
		for _, a := range f.f.at {
			if a.has(l) {
				return true
			}
		}
	}
	for k := range s.rels {
		if k[0].has(l) || k[1].has(l) {
			return true
		}
	}
	for k, v := range s.mem {
		if k.has(l) || v.has(l) {
			return true
		}
	}
	for k := range s.tags {
		if k.has(l) {
			return true
		}
	}
	for _, ds := range s.defers {
		for _, d := range ds {
			if d.fn.has(l) {
				return true
			}
			for _, a := range d.args {
				if a.has(l) {
					return true
				}
			}
		}
	}
	return false
}

// replace renames l to rep everywhere, or forgets what mentions it when rep is nil.
func (s *State) replace(l, rep *Term, onLost func(*Term, string)) {
	sub := func(t *Term) *Term {
		if !t.has(l) {
			return t
		}
		if rep == nil {
			return nil
		}
		return subst(t, l, rep)
	}
	for k, v := range s.env {
		if !k.has(l) && !v.has(l) {
			continue
		}
		delete(s.env, k)
		nk, nv := sub(k), sub(v)
		if nk != nil && nv != nil && nk != nv && (nk.Kind == 'l' || nk.Kind == 'o' && (nk.Op == "len" || nk.Op == "cap" || nk.Op == "extract")) && !nv.has(nk) {
			if _, dup := s.env[nk]; !dup {
				s.env[nk] = nv
			}
		}
	}
	for k, v := range s.nils {
		if k.has(l) {
			delete(s.nils, k)
			if nk := sub(k); nk != nil && nk.Kind != 'c' {
				s.nils[nk] = v
			}
		}
	}
	for k, v := range s.bools {
		if k.has(l) {
			delete(s.bools, k)
			if nk := sub(k); nk != nil && nk.Kind != 'c' {
				s.bools[nk] = v
			}
		}
	}
	for k, v := range s.strs {
		if k.has(l) {
			delete(s.strs, k)
			if nk := sub(k); nk != nil && nk.Kind != 'c' {
				s.strs[nk] = v
			}
		}
	}
	var lf []*linFact
	for k, f := range s.lins {
		for _, a := range f.f.at {
			if a.has(l) {
				delete(s.lins, k)
				lf = append(lf, f)
				break
			}
		}
	}
	if rep != nil {
		for _, f := range lf {
			acc := lin{}
			for i, a := range f.f.at {
				acc = acc.plus(linOf(sub(a)), f.f.co[i])
			}
			s.addLinRaw(acc, f.v)
		}
	}
	for k, m := range s.rels {
		if k[0].has(l) || k[1].has(l) {
			delete(s.rels, k)
			a, b := sub(k[0]), sub(k[1])
			if a != nil && b != nil {
				s.addRel(a, b, m)
			}
		}
	}
	var gone []*Term
	for k, v := range s.mem {
		if k.has(l) || v.has(l) {
			delete(s.mem, k)
			nk, nv := sub(k), sub(v)
			switch {
			case nk != nil && nv != nil:
				s.mem[nk] = nv
			case nk != nil:
				gone = append(gone, nk)
			default:
				s.dropAround(k)
			}
		}
	}
	sort.Slice(gone, func(i, j int) bool { return gone[i].id < gone[j].id })
	for _, k := range gone {
		s.unknownAt(k)
	}
	for k, v := range s.tags {
		if k.has(l) {
			delete(s.tags, k)
			if nk := sub(k); nk != nil {
				if old, ok := s.tags[nk]; ok && old != v && onLost != nil {
					onLost(k, v)
				}
				s.tags[nk] = v
			} else if onLost != nil {
				onLost(k, v)
			}
		}
	}
	for f, ds := range s.defers {
		changed := false
		nd := make([]deferred, len(ds))
		for i, d := range ds {
			nd[i] = d
			if n := sub(d.fn); n != nil {
				nd[i].fn = n
			}
			nd[i].args = make([]*Term, len(d.args))
			for j, a := range d.args {
				nd[i].args[j] = a
				if n := sub(a); n != nil {
					nd[i].args[j] = n
				}
			}
			changed = true
		}
		if changed {
			s.defers[f] = nd
		}
	}
}

// addLinRaw records a fact about a form that may have a constant part.
func (s *State) addLinRaw(l lin, v *ival) {
	s.addLin(l, *v.clone())
}

// ---- memory ----

func typeKeyOf(t *Term) string { return typKey(t.Typ) }

// mayAlias reports whether two addresses can denote overlapping memory.
func mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	for x := a; ; x = x.Args[0] {
		if sameLevel(x, b) {
			return true
		}
		if !isPath(x) || inSlice(x) && !holdsArray(elemTyp(b)) {
			break
		}
	}
	for y := b; isPath(y); {
		if inSlice(y) && !holdsArray(elemTyp(a)) {
			break
		}
		y = y.Args[0]
		if sameLevel(a, y) {
			return true
		}
	}
	return false
}

// inSlice reports whether an address is that of an element of a slice, which
// lies in an array.
func inSlice(a *Term) bool {
	if a.Op != "indexaddr" || a.Args[0].Typ == nil {
		return false
	}
	t := a.Args[0].Typ
	if b := a.Args[0]; b.Kind == 'o' && b.Op == "field" {
		st := structOf(t)
		if st == nil || b.Field >= st.NumFields() {
			return false
		}
		t = st.Field(b.Field).Type()
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// holdsArray reports whether memory of a type contains an array. Unknown
// memory may.
func holdsArray(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t := t.Underlying().(type) {
	case *types.Array:
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if holdsArray(t.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isPath(a *Term) bool {
	return a.Kind == 'o' && (a.Op == "fieldaddr" || a.Op == "indexaddr")
}

// sameLevel reports whether two addresses can be equal.
func sameLevel(a, b *Term) bool {
	if a == b {
		return true
	}
	if isPath(a) && isPath(b) {
		if a.Op == b.Op {
			if a.Op == "fieldaddr" {
				return a.Field == b.Field && typKey(a.Typ) == typKey(b.Typ) && sameLevel(a.Args[0], b.Args[0])
			}
			if ea, eb := elemTyp(a), elemTyp(b); ea != nil && eb != nil && typKey(ea) != typKey(eb) {
				return false
			}
			if a.Args[0] == b.Args[0] {
				d := linOf(a.Args[1]).plus(linOf(b.Args[1]), -1)
				return !(len(d.at) == 0 && d.c != 0)
			}
			return !(freshRoot(a.Args[0]) && freshRoot(b.Args[0]))
		}
		return false
	}
	ea, eb := elemTyp(a), elemTyp(b)
	if ea != nil && eb != nil && typKey(ea) != typKey(eb) {
		return false
	}
	if isPath(a) {
		a, b = b, a
	}
	// a is a root
	if isPath(b) {
		return !freshRoot(a) && a.Kind != 'g' && !freshRoot(b.Args[0])
	}
	if a.Kind == 'g' && b.Kind == 'g' {
		return false
	}
	fa, fb := freshRoot(a), freshRoot(b)
	switch {
	case fa && fb:
		return false
	case fa && !escapes(a), fb && !escapes(b):
		return false
	case fa && b.Kind == 'g', fb && a.Kind == 'g':
		return false
	}
	return true
}

func elemTyp(a *Term) types.Type {
	switch {
	case a.Kind == 'o' && a.Op == "fieldaddr":
		if st := structOf(a.Typ); st != nil && a.Field < st.NumFields() {
			return st.Field(a.Field).Type()
		}
	case a.Kind == 'o' && a.Op == "indexaddr":
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	case a.Kind == 'l' || a.Kind == 'g':
		if a.Typ == nil {
			return nil
		}
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

func escapes(a *Term) bool {
	al, ok := a.Val.(*ssa.Alloc)
	return !ok || al.Heap
}

func addrRoot(a *Term) *Term {
	for a.Kind == 'o' && (a.Op == "fieldaddr" || a.Op == "indexaddr") {
		a = a.Args[0]
	}
	return a
}

func freshRoot(a *Term) bool {
	if a.Kind != 'l' || a.Extra != "" {
		return false
	}
	_, ok := a.Val.(*ssa.Alloc)
	return ok
}

// under reports whether address a lies within the object at address b.
func under(a, b *Term) bool {
	for x := a; x.Kind == 'o' && (x.Op == "fieldaddr" || x.Op == "indexaddr"); {
		x = x.Args[0]
		if x == b {
			return true
		}
	}
	return false
}

// read gives the content of an address, or nil when it is not known.
func (s *State) read(a *Term) *Term { return s.readWith(a, s.baseOf(a)) }

func (s *State) baseOf(a *Term) *Term {
	if v, ok := s.mem[a]; ok {
		return v
	}
	if a.Kind == 'o' && a.Op == "fieldaddr" {
		if b := s.baseOf(a.Args[0]); b != nil {
			return mkField(b, a.Field, a.Typ)
		}
	}
	if a.Kind == 'o' && a.Op == "indexaddr" {
		if b := s.baseOf(a.Args[0]); b != nil && b.Kind == 'o' && b.Op == "zero" {
			if at, ok := b.Typ.Underlying().(*types.Array); ok {
				for k := range s.mem {
					if k != a && k != a.Args[0] && under(k, a.Args[0]) && mayAlias(k, a) {
						return nil
					}
				}
				return mkZero(at.Elem())
			}
		}
	}
	return nil
}

// readWith overlays the parts of a that were stored after the whole.
func (s *State) readWith(a, base *Term) *Term {
	if v, ok := s.mem[a]; ok {
		base = v
	}
	parts := false
	for k := range s.mem {
		if under(k, a) {
			parts = true
			break
		}
	}
	if !parts {
		return base
	}
	st := structOf2(a)
	if st == nil {
		return nil // an array that was partly stored
	}
	args := make([]*Term, st.NumFields())
	for i := range args {
		fa := mkFieldAddr(a, i, structTypOf(a))
		var fb *Term
		if base != nil {
			fb = mkField(base, i, structTypOf(a))
		}
		if args[i] = s.readWith(fa, fb); args[i] == nil {
			return nil
		}
	}
	return mkStruct(structTypOf(a), args)
}

func structTypOf(a *Term) types.Type {
	switch {
	case a.Kind == 'l' || a.Kind == 'g':
		if a.Typ == nil {
			return nil
		}
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	case a.Kind == 'o' && a.Op == "fieldaddr":
		return elemTyp(a)
	case a.Kind == 'o' && a.Op == "indexaddr":
		return elemTyp(a)
	}
	return nil
}

func structOf2(a *Term) *types.Struct {
	t := structTypOf(a)
	if t == nil {
		return nil
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func mkStruct(t types.Type, args []*Term) *Term {
	return mkOpX("struct", t, nil, 0, args...)
}

func (s *State) write(a, v *Term) {
	var lost []*Term
	for k := range s.mem {
		if k != a && !under(a, k) && mayAlias(k, a) {
			delete(s.mem, k)
			if !under(a, k) && isPath(k) {
				lost = append(lost, k)
			}
		}
	}
	sort.Slice(lost, func(i, j int) bool { return lost[i].id < lost[j].id })
	for _, k := range lost {
		s.unknownAt(k)
	}
	s.mem[a] = v
}

func numericTerm(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func constNumeric(t *Term) bool {
	return t.Kind == 'c' && t.C != nil && (t.C.Kind() == constant.Int || t.C.Kind() == constant.Float)
}
