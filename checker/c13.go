package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C13",
		Technique: "inductive invariant of the dictionary checked by path-sensitive abstract interpretation of one symbolic addition, and of every accessor under the invariant",
		Explanation: "The invariant is that id2word and cfs have maxid elements and that word2id maps exactly the words of id2word to their positions. New must establish it; one round of Dictionary.Add from any state with the invariant must either add one to the count of the id of a known word and change nothing else, or give a new word the next id, append it and a count of one and increase the size; every word handed to Add goes through such a round; no other function of the package writes the dictionary. " +
			"Word, IDFreq, ID, WordFreq and Len are analysed from any state with the invariant: an id below the size gives its word and count, any other none and zero, a word that is not known zero.",
		Run: runC13,
	})
}

// elements gives the known elements of a slice with a constant number of elements.
func elements(s *State, sl *Term) []*Term {
	sl = s.norm(sl)
	n, ok := constInt(s.norm(s.lenOf(sl)))
	if !ok || n > 16 || n < 0 {
		return nil
	}
	out := make([]*Term, n)
	base, lo := sl, mkInt(0)
	if sl.Kind == 'o' && sl.Op == "slice" {
		base, lo = sl.Args[0], sl.Args[1]
	}
	off, ok := constInt(s.norm(lo))
	if !ok {
		return nil
	}
	for _, a := range sortedMem(s) {
		if a.Kind == 'o' && a.Op == "indexaddr" && (a.Args[0] == base || a.Args[0] == sl) {
			if i, ok := constInt(s.norm(a.Args[1])); ok && i-off >= 0 && i-off < n {
				out[i-off] = s.norm(s.mem[a])
			}
		}
	}
	return out
}

type dictFields struct {
	w2i, i2w, cfs, max *Term // addresses
	S0, C0, W0, M0     *Term // contents
}

func runC13(r *Rep) {
	r.rule("empty", 1, "a new dictionary is empty")
	r.rule("add", 1, "adding a word counts it once, or enters it with the next id and a count of one")
	r.rule("every-word", 1, "every word handed to Add is added")
	r.rule("accessor", 5, "words, ids and frequencies are what was added, and nothing beyond the size of the vocabulary")
	r.rule("writers", 1, "only Add changes the dictionary")
	p := r.P
	const pkg = "pkg/corpus/dictionary"
	add := p.method(pkg, "Dictionary", "Add")
	newFn := p.fn(pkg, "New")
	nt := p.namedType(pkg, "Dictionary")
	if add == nil || newFn == nil || nt == nil {
		r.bad("entry-points", "Dictionary", "Dictionary, its New or its Add is not found")
		return
	}
	inPkg := func(f *ssa.Function) bool {
		return f != nil && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/"+pkg)
	}
	inline := func(k *Call) bool { return inPkg(k.Fn) }
	st := structOf(nt)
	name := map[string]string{}
	for i := 0; st != nil && i < st.NumFields(); i++ {
		switch k := typKey(st.Field(i).Type().Underlying()); k {
		case "map[string]int", "[]string", "[]int", "int":
			if name[k] != "" {
				name[k] = "?"
				continue
			}
			name[k] = st.Field(i).Name()
		}
	}
	for _, k := range []string{"map[string]int", "[]string", "[]int"} {
		if name[k] == "" || name[k] == "?" {
			r.bad("entry-points", "Dictionary", "the field of type %s of Dictionary is not recognised", k)
			return
		}
	}
	// assume sets up a dictionary with the invariant
	assume := func(d *Term, s *State) *dictFields {
		f := &dictFields{w2i: fieldCell(d, nt, name["map[string]int"]), i2w: fieldCell(d, nt, name["[]string"]), cfs: fieldCell(d, nt, name["[]int"])}
		typ := func(n string) types.Type {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n {
					return st.Field(i).Type()
				}
			}
			return nil
		}
		cell := func(a *Term, t types.Type) *Term {
			v := memVal(a, t)
			s.mem[a] = v
			return v
		}
		f.W0 = cell(f.w2i, typ(name["map[string]int"]))
		f.S0 = cell(f.i2w, typ(name["[]string"]))
		f.C0 = cell(f.cfs, typ(name["[]int"]))
		f.M0 = s.lenOf(f.S0)
		s.addLin(linOf(s.lenOf(f.C0)).plus(linOf(f.M0), -1), ival{hasLo: true, hasHi: true})
		s.addNil(f.W0, false)
		if name["int"] != "" && name["int"] != "?" {
			f.max = fieldCell(d, nt, name["int"])
			m := cell(f.max, types.Typ[types.Int])
			s.addLin(linOf(m).plus(linOf(f.M0), -1), ival{hasLo: true, hasHi: true})
			f.M0 = m
		}
		s.addLin(linOf(f.M0), ival{hasLo: true})
		return f
	}
	read := func(s *State, a *Term) *Term {
		if v := s.read(a); v != nil {
			return s.norm(v)
		}
		return nil
	}
	// lookups in word2id are marked with their key; a found id lies within the size
	type look struct{ key *Term }
	looks := map[string]look{}
	elems := map[string][2]*Term{}
	hook := func(d func() *dictFields, next func(x *Ctx)) func(x *Ctx) {
		return func(x *Ctx) {
			f := d()
			switch in := x.I.(type) {
			case *ssa.UnOp:
				if in.Op != token.MUL || f == nil {
					break
				}
				if a := x.S.norm(x.Val(in.X)); a.Kind == 'o' && a.Op == "indexaddr" {
					if b := x.S.norm(a.Args[0]); b == f.C0 || b == f.S0 {
						i := x.S.norm(a.Args[1])
						n := fmt.Sprintf("elem %d %d", b.id, i.id)
						elems[n] = [2]*Term{b, i}
						x.S.tags[mkLeaf(x.F, in, "")] = n
					}
				}
			case *ssa.Lookup:
				if f != nil && x.S.norm(x.Val(in.X)) == f.W0 {
					key := x.S.norm(x.Val(in.Index))
					n := fmt.Sprint("look ", key.id)
					looks[n] = look{key}
					l := mkLeaf(x.F, in, "")
					x.S.tags[l] = n
				}
			}
			next(x)
		}
	}
	// known gives the ids of a word that was looked up and found, or not.
	foundID := func(s *State, t *Term) (key *Term, found int, ok bool) {
		l, comma := t, false
		if t.Kind == 'o' && t.Op == "extract" && t.Field == 0 {
			l, comma = t.Args[0], true
		}
		lk, isLk := looks[s.tags[l]]
		if !isLk {
			return nil, -1, false
		}
		found = -1
		if comma {
			found = s.boolOf(mkOpX("extract", types.Typ[types.Bool], nil, 1, l))
		}
		return lk.key, found, true
	}
	found := func(s *State, key *Term, val int) bool {
		for t, tag := range s.tags {
			if lk, ok := looks[tag]; ok && s.norm(lk.key) == s.norm(key) && s.boolOf(mkOpX("extract", types.Typ[types.Bool], nil, 1, t)) == val {
				return true
			}
		}
		return false
	}

	// New
	c := &Client{Inline: inline}
	c.Exit = func(x *Ctx, res []*Term) {
		s := x.S
		d := s.norm(res[0])
		good := s.nilOf(d) != 1
		for _, k := range []string{"[]string", "[]int"} {
			v := read(s, fieldCell(d, nt, name[k]))
			good = good && v != nil && s.atMost(s.lenOf(v), 0)
		}
		if name["int"] != "" {
			v := read(s, fieldCell(d, nt, name["int"]))
			good = good && v != nil && s.equal(v, mkInt(0))
		}
		m := read(s, fieldCell(d, nt, name["map[string]int"]))
		fresh := m != nil && m.Kind == 'l'
		if fresh {
			_, fresh = m.Val.(*ssa.MakeMap)
		}
		r.must(good && fresh && s.auto["updated"] == "", "empty", fnName(newFn), "a new dictionary is not seen to be empty (%s)", x.Pos())
	}
	c.Instr = func(x *Ctx) {
		if _, ok := x.I.(*ssa.MapUpdate); ok {
			x.S.auto["updated"] = "yes"
		}
	}
	p.analyse(r, newFn, newState(), c, fnName(newFn))

	// Add: the loop over the words
	site := fnName(add)
	var loop *overLoop
	run, self, words := add, 0, 1
	for try := 0; run != nil && loop == nil && try < 4; try++ {
		for _, o := range loopsOver(run) {
			if o.base == ssa.Value(run.Params[words]) {
				loop = o
			}
		}
		if loop == nil {
			// it does nothing but have a helper do it
			run, self, words = handsOver(run, self, words, inPkg)
		}
	}
	if loop == nil {
		r.bad("every-word", site, "Add has no loop over all its words")
	} else {
		body := naturalLoop(loop.header)
		full := true
		for b := range body {
			for _, t := range b.Succs {
				if !body[t] && b != loop.header {
					full = false
				}
			}
		}
		var d *dictFields
		c := &Client{Inline: inline}
		counted := func(x *Ctx, what, key string) {
			if x.S.auto[what] != "" {
				r.bad("add", site, "the same is done twice in one addition: %s (%s)", what, x.Pos())
			}
			x.S.auto[what] = key
		}
		word := func(x *Ctx) *Term {
			// the word of this round
			a := mkIndexAddr(x.E.val(x.E.Root, loop.base, x.S), x.E.val(x.E.Root, loop.idx, x.S), loop.elem.Type())
			return x.S.norm(x.S.content(a, types.Typ[types.String]))
		}
		c.Instr = hook(func() *dictFields { return d }, func(x *Ctx) {
			s := x.S
			switch in := x.I.(type) {
			case *ssa.MapUpdate:
				m := s.norm(x.Val(in.Map))
				if m != d.W0 {
					return
				}
				key, v := s.norm(x.Val(in.Key)), s.norm(x.Val(in.Value))
				r.must(key == word(x) && s.equal(v, d.M0) && found(s, key, 0), "add", site, "%s gets the id %s, which must be the next one, for a new word (%s)", key, v, x.Pos())
				counted(x, "entered", "yes")
			case *ssa.Store:
				a := s.norm(x.Val(in.Addr))
				if a.Kind == 'o' && a.Op == "indexaddr" {
					b := s.norm(a.Args[0])
					if b == d.C0 {
						key, f, ok := foundID(s, s.norm(a.Args[1]))
						old := memVal(a, types.Typ[types.Int])
						v := s.norm(x.Val(in.Val))
						good := ok && f == 1 && s.norm(key) == word(x) && (s.equal(v, mkLin(linOf(old).plus(linOf(mkInt(1)), 1))) || plusOne(x, v, a))
						r.must(good, "add", site, "the count of id %s becomes %s (%s)", a.Args[1], v, x.Pos())
						counted(x, "bumped", "yes")
					} else if b == d.S0 {
						r.bad("add", site, "the word of an id is changed (%s)", x.Pos())
					}
				}
			case *ssa.UnOp:
				// the count of an id before this round
				if in.Op == token.MUL && typKey(in.Type()) == "int" {
					a := s.norm(x.Val(in.X))
					if a.Kind == 'o' && a.Op == "indexaddr" && s.norm(a.Args[0]) == d.C0 {
						s.content(a, in.Type())
					}
				}
			}
		})
		c.Call = func(x *Ctx, k *Call) (bool, *Term) {
			s := x.S
			if k.Name == "builtin.append" && len(k.Args) == 2 {
				b := s.norm(k.Args[0])
				el := elements(s, k.Args[1])
				v, ok := x.I.(*ssa.Call)
				if !ok || b != d.S0 && b != d.C0 {
					return false, nil
				}
				one := len(el) == 1 && el[0] != nil
				if b == d.S0 {
					r.must(one && el[0] == word(x), "add", site, "something other than the new word is appended to the words (%s)", x.Pos())
					s.tags[mkLeaf(x.F, v, "")] = "words+1"
				} else {
					n, isInt := int64(0), false
					if one {
						n, isInt = constInt(el[0])
					}
					r.must(isInt && n == 1, "add", site, "a new word does not start with a count of one (%s)", x.Pos())
					s.tags[mkLeaf(x.F, v, "")] = "counts+1"
				}
			}
			if strings.HasPrefix(k.Name, "builtin.delete") || k.Name == "builtin.clear" {
				r.bad("add", site, "words are removed (%s)", x.Pos())
			}
			return false, nil
		}
		rounds := 0
		c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
			if x.F != x.E.Root {
				return
			}
			s := x.S
			if from == loop.header && body[to] {
				for _, k := range []string{"entered", "bumped"} {
					delete(s.auto, k)
				}
				word(x)
			}
			if !(body[from] && (to == loop.header || !body[to])) || from == loop.header && !body[to] {
				return
			}
			defer func() { s.dead = true }()
			rounds++
			W, S, C := read(s, d.w2i), read(s, d.i2w), read(s, d.cfs)
			M := d.M0
			if d.max != nil {
				M = read(s, d.max)
			}
			if W != d.W0 || S == nil || C == nil || M == nil {
				r.bad("add", site, "after an addition the parts of the dictionary are not known (%s)", x.Pos())
				return
			}
			known := s.auto["bumped"] == "yes" && s.auto["entered"] == "" && S == d.S0 && C == d.C0 && s.equal(M, d.M0)
			fresh := s.auto["bumped"] == "" && s.auto["entered"] == "yes" && s.tags[S] == "words+1" && s.tags[C] == "counts+1" &&
				(d.max == nil || s.equal(M, mkLin(linOf(d.M0).plus(linOf(mkInt(1)), 1))))
			r.must(known || fresh, "add", site, "a round neither counts a known word nor enters a new one with its count, its id and the size of the vocabulary (%s)", x.Pos())
		}
		e := newEngine(p, c)
		f := e.rootFrame(run)
		s := newState()
		d = assume(f.param(self), s)
		e.push(f, loop.header, 0, s)
		e.drain()
		r.absorb(e, site)
		x := &Ctx{e, f, loop.header.Instrs[0], newState()}
		full = full && x.S.equal(mkLin(linOf(again(x, loop.bound)).plus(linOf(mkInt(loop.minus)), -1)), x.S.lenOf(x.Val(loop.base)))
		// nothing leaves Add before the loop
		for _, b := range run.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !loop.header.Dominates(b) {
				n := -1
				_ = n
				full = false
			}
		}
		r.must(full, "every-word", site, "Add may leave out some of its words")
		r.must(rounds >= 2, "add", site, "no round of Add was seen")
	}

	// accessors
	type acc struct {
		name string
		byID bool
	}
	for _, a := range []acc{{"Word", true}, {"IDFreq", true}, {"ID", false}, {"WordFreq", false}, {"Len", false}} {
		fn := p.method(pkg, "Dictionary", a.name)
		if fn == nil {
			r.bad("accessor", a.name, "Dictionary.%s is not found", a.name)
			continue
		}
		for _, inside := range []bool{true, false} {
			if !a.byID && inside {
				continue
			}
			var d *dictFields
			var arg *Term
			c := &Client{Inline: inline}
			c.Instr = hook(func() *dictFields { return d }, func(x *Ctx) {
				ia, ok := x.I.(*ssa.IndexAddr)
				if !ok {
					return
				}
				i, b := x.S.norm(x.Val(ia.Index)), x.Val(ia.X)
				key, f, isID := foundID(x.S, i)
				good := inRange(x.S, i, b) || isID && f == 1 && x.S.norm(key) == arg
				r.must(good, "accessor", a.name, "the index %s may be outside of the vocabulary (%s)", i, x.Pos())
			})
			// a word that is found has an id of the vocabulary
			c.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) {
				for t, tag := range x.S.tags {
					if _, ok := looks[tag]; ok && x.S.boolOf(mkOpX("extract", types.Typ[types.Bool], nil, 1, t)) == 1 {
						id := mkOpX("extract", types.Typ[types.Int], nil, 0, t)
						if !x.S.addLin(linOf(id), ival{hasLo: true}) || !x.S.addLin(linOf(id).plus(linOf(d.M0), -1), ival{hasHi: true, hi: -1}) {
							x.S.dead = true
							return
						}
					}
				}
			}
			elem := func(x *Ctx, t, base *Term) (idx *Term, ok bool) {
				if e, ok := elems[x.S.tags[t]]; ok && x.S.norm(e[0]) == base {
					return x.S.norm(e[1]), true
				}
				return nil, false
			}
			c.Exit = func(x *Ctx, res []*Term) {
				s := x.S
				v := s.norm(res[0])
				good := false
				switch a.name {
				case "Len":
					good = s.equal(v, d.M0)
				case "Word":
					if inside {
						i, ok := elem(x, v, d.S0)
						good = ok && i == arg && s.boolOf(res[1]) == 1
					} else {
						good = s.strEq(v, mkStr("")) == 1 && s.boolOf(res[1]) == 0
					}
				case "IDFreq":
					if inside {
						i, ok := elem(x, v, d.C0)
						good = ok && i == arg
					} else {
						good = s.equal(v, mkInt(0))
					}
				case "ID":
					key, _, ok := foundID(s, v)
					ok1 := s.norm(res[1])
					good = ok && s.norm(key) == arg && (ok1.Kind == 'o' && ok1.Op == "extract" && ok1.Field == 1 && ok1.Args[0] == v.Args[0] || s.boolOf(ok1) >= 0 && found(s, arg, s.boolOf(ok1))) ||
						s.boolOf(ok1) == 0 && found(s, arg, 0)
				case "WordFreq":
					if i, ok := elem(x, v, d.C0); ok {
						key, f, isID := foundID(s, i)
						good = isID && f == 1 && s.norm(key) == arg
					} else {
						good = s.equal(v, mkInt(0)) && found(s, arg, 0)
					}
				}
				r.must(good, "accessor", a.name, "%s gives %v for an argument %s (%s)", a.name, res, map[bool]string{true: "inside of the vocabulary", false: "outside of the vocabulary, or any"}[inside], x.Pos())
			}
			e := newEngine(p, c)
			f := e.rootFrame(fn)
			s := newState()
			d = assume(f.param(0), s)
			if len(fn.Params) > 1 {
				arg = f.param(1)
			}
			if a.byID {
				if inside {
					s.addLin(linOf(arg), ival{hasLo: true})
					s.addLin(linOf(arg).plus(linOf(d.M0), -1), ival{hasHi: true, hi: -1})
				} else {
					s.addLin(linOf(arg).plus(linOf(d.M0), -1), ival{hasLo: true})
				}
			}
			e.Run(f, s)
			r.absorb(e, fmt.Sprint(fnName(fn), " inside=", inside))
		}
	}

	// no other writer
	reach := p.reachable(add)
	n := 0
	for _, fn := range p.Funcs {
		if !inPkg(fn) || fn == newFn || reach[fn] {
			continue
		}
		n++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bad := false
				switch in := in.(type) {
				case *ssa.MapUpdate:
					bad = typKey(in.Map.Type().Underlying()) == "map[string]int"
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && namedIs(fa.X.Type(), pkg, "Dictionary") {
						bad = true
					}
					if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
						if ld, ok := ia.X.(*ssa.UnOp); ok {
							if fa, ok := ld.X.(*ssa.FieldAddr); ok && namedIs(fa.X.Type(), pkg, "Dictionary") {
								bad = true
							}
						}
					}
				}
				if bad {
					r.bad("writers", fnName(fn), "%s changes the dictionary (%s)", fnName(fn), p.posOf(in))
				}
			}
		}
	}
	r.must(n > 0, "writers", pkg, "no other function of the package was found")
}

// plusOne reports whether v is the element at a, loaded in this round, plus one.
func plusOne(x *Ctx, v, a *Term) bool {
	l := linOf(v)
	if l.c != 1 || len(l.at) != 1 || l.at[0].Kind != 'l' {
		return false
	}
	ld, ok := l.at[0].Val.(*ssa.UnOp)
	return ok && l.co[0] == 1 && x.S.norm(x.E.val(l.at[0].Frame, ld.X, x.S)) == a
}

// handsOver finds the helper that a function that does nothing else calls with
// two of its parameters, and their places among those of the helper.
func handsOver(f *ssa.Function, p, q int, ok func(f *ssa.Function) bool) (g *ssa.Function, p2, q2 int) {
	for _, b := range f.Blocks {
		if len(f.Blocks) > 1 {
			return nil, 0, 0
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				h := in.Call.StaticCallee()
				if g != nil || !ok(h) {
					return nil, 0, 0
				}
				g, p2, q2 = h, -1, -1
				for i, a := range in.Call.Args {
					if a == ssa.Value(f.Params[p]) {
						p2 = i
					}
					if a == ssa.Value(f.Params[q]) {
						q2 = i
					}
				}
				if p2 < 0 || q2 < 0 {
					return nil, 0, 0
				}
			case *ssa.Return, *ssa.DebugRef:
			default:
				return nil, 0, 0
			}
		}
	}
	return
}
