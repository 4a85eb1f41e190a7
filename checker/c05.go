package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C05",
		Technique: "static race detection over go/ssa: may-happen-in-parallel from the typestate of Train's goroutines, provenance of every address within each goroutine, locksets with sync.Once and atomics, and a linear-ownership dataflow analysis of what is sent over channels",
		Explanation: "For each model and mode, the typestate analysis of Train says which goroutines may run at the same time, several times, and at each instruction of Train itself. For each goroutine every read and write of the functions it reaches is listed with what its address may be based on, followed back through parameters, captured variables and results within that goroutine. Memory that the goroutine made itself and did not publish, or that it received over a channel whose senders all give up what they send, is its own. " +
			"Two other accesses to the same field, elements of the same type, map, variable or external object, by goroutines that may run at the same time, conflict if one of them writes, unless both are atomic, a lock or a sync.Once orders them, or it is the elements of a parameter vector.",
		Assumptions: []string{
			"Memory is told apart by field and element type and by where the objects are made, so that objects made at the same place count as one.",
			"What the functions of imported packages do with their arguments is taken from a list of those that are safe; all others count as writing.",
			"The elements of the vectors of matrix.Matrix and of the nodes of the Huffman tree are the ones that the property allows to race.",
		},
		Run: runC05,
	})
}

// vectorFields lists the fields that hold the elements of parameter vectors.
func (p *Prog) vectorFields(ms []*modelType) map[string]bool {
	out := map[string]bool{}
	add := func(t types.Type) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			if floatSliceType(st.Field(i).Type()) {
				out[(fieldID{typKey(t), st.Field(i).Name()}).String()] = true
			}
		}
	}
	for _, m := range ms {
		if m.WV != nil && m.WV.Signature.Results().Len() > 0 {
			add(m.WV.Signature.Results().At(0).Type())
		}
	}
	for _, f := range p.Funcs {
		if !p.inRepo(f) || f.Signature.Recv() == nil || !strings.HasSuffix(pkgOf(f).Path(), "corpus/dictionary") {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if sl, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Slice); ok {
				add(sl.Elem())
			}
		}
	}
	return out
}

func floatSliceType(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

type racePair struct{ a, b string }

// raceModel is what is known of one model.
type raceModel struct {
	m     *modelType
	main  *rthread
	gos   map[string]*rthread
	order []string
	pairs map[racePair]bool
	at    map[ssa.Instruction]bool // the go statements
}

func (r *Rep) raceModel(m *modelType) *raceModel {
	p := r.P
	rm := &raceModel{m: m, gos: map[string]*rthread{}, pairs: map[racePair]bool{}, at: map[ssa.Instruction]bool{}}
	rm.main = p.newRthread(fnName(m.Train), m.Train, nil)
	rm.main.main = true
	ran := map[*ssa.Function]bool{}
	for _, md := range m.trainModes() {
		m.setMin(md.S, "Goroutines", 1)
		c := newConc(r, md.Name)
		c.live = func(x *Ctx, gs []*gsum) {
			ran[x.F.Fn] = true
			for _, g := range gs {
				rm.at[g.site] = true
				if rm.gos[g.name] == nil {
					t := p.newRthread(g.name, g.fn, g.site)
					rm.gos[g.name] = t
					rm.order = append(rm.order, g.name)
				}
				if rm.gos[g.name].fn != g.fn {
					r.must(false, "known", g.name, "two different goroutines have this name")
				}
				if x.S.auto[fmt.Sprintf("run %d", g.id)] == "many" {
					rm.pairs[racePair{g.name, g.name}] = true
				}
				if rm.main.live[x.I] == nil {
					rm.main.live[x.I] = map[string]bool{}
				}
				rm.main.live[x.I][g.name] = true
				for _, o := range gs {
					if o != g {
						rm.pairs[racePair{g.name, o.name}] = true
						rm.pairs[racePair{o.name, g.name}] = true
					}
				}
			}
		}
		c.run(m.Train, md.S)
		c.emit("known")
	}
	// what Train calls while goroutines run, where the typestate analysis does
	// not go
	for changed := true; changed; {
		changed = false
		for _, f := range rm.main.order {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					live := rm.main.live[in]
					if !ok || live == nil {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					for _, g := range rm.main.callees(ci) {
						if ran[g] {
							continue
						}
						for _, gb := range g.Blocks {
							for _, gi := range gb.Instrs {
								for n := range live {
									if !rm.main.live[gi][n] {
										if rm.main.live[gi] == nil {
											rm.main.live[gi] = map[string]bool{}
										}
										rm.main.live[gi][n] = true
										changed = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	sort.Strings(rm.order)
	rm.main.lockset()
	rm.main.escapes()
	for _, n := range rm.order {
		rm.gos[n].lockset()
		rm.gos[n].escapes()
	}
	return rm
}

func runC05(r *Rep) {
	p := r.P
	r.rule("known", 0, "the goroutines of Train are all known")
	r.rule("thread", 8, "the accesses of a goroutine to shared memory are ordered, atomic or reads only")
	r.rule("handover", 3, "what is sent over a channel and written to by the receiver is not used by the sender afterwards")
	r.rule("started", 10, "every go statement of the repository starts a goroutine that is analysed")
	ms := p.models(r)
	vec := p.vectorFields(ms)
	r.must(len(vec) >= 2, "known", "the vectors", "the fields that hold the parameter vectors are not found")
	var rms []*raceModel
	var threads []*rthread
	for _, m := range ms {
		rm := r.raceModel(m)
		rms = append(rms, rm)
		threads = append(threads, rm.main)
		for _, n := range rm.order {
			threads = append(threads, rm.gos[n])
		}
	}
	// what is sent over channels
	written := map[string]bool{}
	for _, t := range threads {
		if t.main {
			continue
		}
		t.accesses(func(a *raccess) {
			if !a.write {
				return
			}
			for _, rt := range a.roots {
				if rt.kind == "recv" {
					written[rt.key] = true
				}
			}
		})
	}
	transfer := map[string]bool{}
	sends := p.sendsOf()
	var keys []string
	for k := range sends {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		transfer[k] = true
		for _, top := range sends[k] {
			site := fnName(top) + ": sends " + short(k)
			msg := ""
			note := func(f string, args ...interface{}) {
				if msg == "" {
					msg = fmt.Sprintf(f, args...)
				}
			}
			h := &handover{p: p, key: k, strict: written[k]}
			h.bad = func(in ssa.Instruction, how string) {
				note("%s %s what it may have sent before (%s)", fnName(in.Parent()), how, p.posOf(in))
			}
			h.run(top)
			// it is the sender's own
			own := true
			for _, f := range p.family(top) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						sd, ok := in.(*ssa.Send)
						if !ok || sentType(sd.Chan) != k {
							continue
						}
						for _, t := range threads {
							if !t.reach[f] {
								continue
							}
							for _, rt := range t.walk(sd.X) {
								if al, ok := rt.val.(*ssa.Alloc); ok && rt.kind == "local" {
									for _, st := range p.structStores(al, -1) {
										if !refType(st.Type()) {
											continue
										}
										for _, q := range t.walk(st) {
											if !(q.kind == "fresh" || q.kind == "func" || q.kind == "recv" && q.key == k || q.kind == "local" && !t.esc[q.val]) {
												own = false
												if written[k] {
													note("what it sends (%s) holds something that is not its own (%s)", p.posOf(in), q)
												}
											}
										}
									}
								}
								mine := rt.kind == "fresh" || rt.kind == "func" || rt.kind == "recv" && rt.key == k || rt.kind == "local" && !t.esc[rt.val]
								if !mine && isErrorType(sd.X.Type()) {
									continue
								}
								if !mine {
									own = false
									if written[k] {
										note("what it sends (%s) is not its own (%s): receivers write to it", p.posOf(in), rt)
									}
								}
							}
						}
					}
				}
			}
			if msg != "" || !own {
				transfer[k] = false
			}
			r.must(msg == "", "handover", site, "%s", msg)
		}
	}
	started := map[ssa.Instruction]bool{}
	for _, rm := range rms {
		rm.check(r, vec, transfer)
		for g := range rm.at {
			started[g] = true
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					r.must(started[g], "started", fmt.Sprintf("go statement in %s (%s)", fnName(f), calledIn(g)), "it is not reached by the analysis of Train (%s)", p.posOf(in))
				}
			}
		}
	}
}

func calledIn(g *ssa.Go) string {
	if n := callName(g); n != "" {
		return short(n)
	}
	return "a function value"
}

func (r root) String() string {
	switch r.kind {
	case "field", "elem", "recv":
		return r.kind + " " + short(r.key)
	case "arg", "global", "cell":
		return r.kind + " " + r.val.Name()
	}
	return r.kind
}

// check decides the pairs of accesses of one model.
func (rm *raceModel) check(r *Rep, vec, transfer map[string]bool) {
	p := r.P
	type table map[string][]*raccess
	tabs := map[string]table{}
	build := func(t *rthread) table {
		tab := table{}
		t.accesses(func(a *raccess) {
			if !t.main && a.owned(transfer) {
				return
			}
			if a.class == "elem float64" {
				all := len(a.roots) > 0
				for _, rt := range a.roots {
					if !(rt.kind == "field" && vec[rt.key]) && !(rt.kind == "local" && !t.main && !t.esc[rt.val]) && !(rt.kind == "recv" && transfer[rt.key]) && rt.kind != "fresh" {
						all = false
					}
				}
				if all && !t.main {
					return
				}
			}
			tab[a.class] = append(tab[a.class], a)
		})
		return tab
	}
	mainTab := build(rm.main)
	for _, n := range rm.order {
		tabs[n] = build(rm.gos[n])
	}
	for _, n := range rm.order {
		t := rm.gos[n]
		msg := ""
		conflict := func(a, b *raccess) {
			if msg != "" || !(a.write || b.write) || ordered(a, b) || !p.mayAlias(a.base, b.base) {
				return
			}
			if a.t == b.t && (a.in == b.in && rm.ownIndex(a) || rm.ownObject(a) && rm.ownObject(b)) {
				return
			}
			if b.t.main && rm.older(a, b) {
				return
			}
			w, o := a, b
			if !a.write {
				w, o = b, a
			}
			verb := "reads"
			if o.write {
				verb = "writes"
			}
			msg = fmt.Sprintf("%s: %s writes it (%s) and %s %s it (%s) without synchronisation", w.class, w.t.name, p.posOf(w.in), o.t.name, verb, p.posOf(o.in))
		}
		for _, o := range rm.order {
			if o < n && rm.pairs[racePair{o, n}] || !rm.pairs[racePair{n, o}] {
				continue
			}
			for _, class := range sortedClasses(tabs[n]) {
				for _, a := range tabs[n][class] {
					for _, b := range tabs[o][class] {
						conflict(a, b)
					}
				}
			}
		}
		for _, class := range sortedClasses(tabs[n]) {
			for _, a := range tabs[n][class] {
				for _, b := range mainTab[class] {
					if rm.main.live[b.in][n] {
						conflict(a, b)
					}
				}
			}
		}
		r.must(msg == "", "thread", t.name, "%s", msg)
	}
}

func sortedClasses(m map[string][]*raccess) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ownIndex: each instance of the goroutine uses its own element: the index is a
// parameter for which the loop that starts the goroutines passes its counter.
func (rm *raceModel) ownIndex(a *raccess) bool {
	st, ok := a.in.(*ssa.Store)
	if !ok {
		return false
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok || a.t.site == nil {
		return false
	}
	pr, ok := ia.Index.(*ssa.Parameter)
	if !ok || pr.Parent() != a.t.fn {
		return false
	}
	com := a.t.site.Common()
	off := len(a.t.fn.Params) - len(com.Args)
	for i, q := range a.t.fn.Params {
		if q == pr && i >= off {
			ph, ok := com.Args[i-off].(*ssa.Phi)
			return ok && len(succOf(ph)) == 1
		}
	}
	return false
}

// ownObject: each instance of the goroutine has its own object: Train makes it
// anew for each of them.
func (rm *raceModel) ownObject(a *raccess) bool {
	for _, r := range a.roots {
		if r.kind == "arg" {
			// the content of a variable may be something older
			if _, ok := r.val.(*ssa.FreeVar); ok {
				return false
			}
		}
		if _, ok := madeFor(r, rm.sitesOf(a.t), a.t.fn); !ok {
			return false
		}
	}
	return len(a.roots) > 0
}

func (rm *raceModel) sitesOf(t *rthread) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	for g := range rm.at {
		for _, f := range t.p.callees(g.(ssa.CallInstruction).Common()) {
			if f == t.fn {
				out[g] = true
			}
		}
	}
	return out
}

// older: what Train accesses is not yet what the goroutine gets, or no longer:
// Train makes it anew before, in each round.
func (rm *raceModel) older(g, m *raccess) bool {
	if len(m.roots) != 1 || m.roots[0].kind != "local" {
		return false
	}
	o, ok := m.roots[0].val.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, r := range g.roots {
		if in, ok := madeFor(r, rm.sitesOf(g.t), g.t.fn); !ok || in != o {
			return false
		}
		if _, isFV := r.val.(*ssa.FreeVar); isFV && r.kind == "arg" {
			return false
		}
	}
	for s := range rm.sitesOf(g.t) {
		if reachesAvoiding(s, m.in, o) {
			return false
		}
	}
	return true
}
