package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C11",
		Technique: "abstract interpretation over go/ssa of options, flags and constructors on symbolic values, and provenance of what training is given",
		Explanation: "Every functional option is applied to an arbitrary value: it assigns exactly the hyperparameter that it names, that value (true when it takes none), and nothing else. " +
			"Every flag that LoadForCmd declares is bound to the hyperparameter of that name, each hyperparameter has exactly one flag, and the default of the flag is the value that DefaultOptions has for it. " +
			"New applies each option once, in order, to the default options and makes the model of the result; NewForOptions keeps the options as they are; nothing else assigns a hyperparameter. " +
			"Each command makes the model of the options that its flags are bound to, and --vec-type and --rank reach Save and the search. " +
			"Where training takes a hyperparameter (the corpus, the sampler, the buffers, the loops over iterations, the choice of corpus, model, optimizer, solver) it is the one of that name.",
		Assumptions: []string{
			"pflag assigns the value of a flag to the variable it is bound to, or its default.",
			"The parts of training that compute with a hyperparameter are decided by the properties about them (C07, C08, C15 to C22).",
		},
		Run: runC11,
	})
}

// flagNames are the documented flags of the hyperparameters.
var flagNames = map[string][2]string{
	"Alpha": {"alpha"}, "BatchSize": {"batch"}, "CountType": {"cnt"}, "Dim": {"dim", "d"},
	"Goroutines": {"goroutines"}, "DocInMemory": {"in-memory"}, "Initlr": {"initlr"}, "Iter": {"iter"},
	"LogBatch": {"log-batch"}, "MaxCount": {"max-count"}, "MaxDepth": {"max-depth"}, "MinCount": {"min-count"},
	"MinLR": {"min-lr"}, "ModelType": {"model"}, "NegativeSampleSize": {"sample"}, "OptimizerType": {"optimizer"},
	"RelationType": {"rel"}, "Smooth": {"smooth"}, "SolverType": {"solver"}, "SubsampleThreshold": {"threshold"},
	"ToLower": {"to-lower"}, "UpdateLRBatch": {"update-lr-batch"}, "Verbose": {"verbose"}, "Window": {"window", "w"},
	"Xmax": {"xmax"},
}

func runC11(r *Rep) {
	r.rule("option", 40, "an option assigns the hyperparameter it names, and nothing else")
	r.rule("flag", 45, "a flag is bound to the hyperparameter it names")
	r.rule("default", 45, "the default of a flag is the default of the option")
	r.rule("new", 3, "New applies each option once, in order, to the defaults")
	r.rule("kept", 3, "the options of a model are those it was made with")
	r.rule("command", 5, "what is given as a flag is used by the command")
	r.rule("reaches", 20, "what training takes for a hyperparameter is the one of that name")
	r.rule("used", 50, "a hyperparameter has an effect")
	r.rule("chosen", 3, "the document is kept in memory if and only if DocInMemory says so")
	r.rule("passes", 3, "training passes over the data as many times as Iter says")
	p := r.P
	for _, m := range p.models(r) {
		setters := map[*ssa.Function]bool{}
		p.optionRule(r, m, setters)
		p.flagRule(r, m)
		p.newRule(r, m)
		p.keptRule(r, m, setters)
		p.passesRule(r, m)
		p.usedRule(r, m)
		p.chosenRule(r, m)
	}
	p.flagsUsed(r)
	p.sinksRule(r)
}

// paramsOf gives a symbolic value for each parameter.
func symParams(fn *ssa.Function) []*Term {
	var out []*Term
	for _, q := range fn.Params {
		out = append(out, mkSym("arg:"+q.Name(), q.Type()))
	}
	return out
}

func isModelOption(t types.Type, m *modelType) bool {
	sig, ok := t.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
		return false
	}
	ptr, ok := sig.Params().At(0).Type().(*types.Pointer)
	return ok && namedOf(ptr) == m.Opts
}

func (p *Prog) optionRule(r *Rep, m *modelType, setters map[*ssa.Function]bool) {
	var names []string
	for n, mem := range m.Pkg.Members {
		if f, ok := mem.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && f.Signature.Results().Len() == 1 && isModelOption(f.Signature.Results().At(0).Type(), m) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		fn := m.Pkg.Func(n)
		site := m.Name + " " + n
		st := m.Opts.Underlying().(*types.Struct)
		want := ""
		for _, f := range []string{n, n + "Type"} {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f && want == "" {
					want = f
				}
			}
		}
		if want == "" {
			r.bad("option", site, "there is no hyperparameter %s", n)
			continue
		}
		bad := ""
		note := func(f string, args ...interface{}) {
			if bad == "" {
				bad = fmt.Sprintf(f, args...)
			}
		}
		args := symParams(fn)
		value := tTrue
		if len(args) == 1 {
			value = args[0]
		} else if len(args) > 1 {
			note("it has several parameters")
		}
		target := mkSym("options", types.NewPointer(m.Opts))
		local := func(s *State, a *Term) bool {
			for a.Kind == 'o' && (a.Op == "fieldaddr" || a.Op == "indexaddr") {
				a = a.Args[0]
			}
			_, ok := a.Val.(*ssa.Alloc)
			return ok && a.Kind == 'l'
		}
		cl := &Client{Inline: func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) }}
		cl.Instr = func(x *Ctx) {
			switch in := x.I.(type) {
			case *ssa.Store:
				a := x.S.norm(x.Val(in.Addr))
				if a.Kind == 'o' && a.Op == "fieldaddr" && a.Args[0] == target {
					for f := x.F; f != nil; f = f.Parent {
						setters[f.Fn] = true
					}
					f := fieldName(m.Opts, a.Field)
					x.S.auto["set "+f] = "y"
					if v := x.S.norm(x.Val(in.Val)); f == want && v != value && !(value == tTrue && x.S.boolOf(v) == 1) {
						note("%s becomes %s (%s)", f, v, x.Pos())
					}
				} else if !local(x.S, a) {
					note("it assigns %s (%s)", a, x.Pos())
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				note("it does something else (%s)", x.Pos())
			}
		}
		cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
			if k.Fn == nil || !p.inRepo(k.Fn) {
				for _, a := range k.Args {
					if mentions(x.S.norm(a), func(t *Term) bool { return t == target }) {
						note("it passes the options to %s (%s)", k.Name, x.Pos())
					}
				}
			}
			return false, nil
		}
		n := 0
		for _, x := range p.follow(r, fn, args, nil, newState(), cl, false, site) {
			f := x.S.norm(x.Res[0])
			for f.Kind == 'o' && strings.HasPrefix(f.Op, "conv") {
				f = f.Args[0]
			}
			var g *ssa.Function
			switch {
			case f.Kind == 'o' && f.Op == "closure":
				g = f.Val.(*ssa.Function)
			case f.Kind == 'f':
				g, _ = f.Val.(*ssa.Function)
			}
			if g == nil {
				note("the function that it returns is not known: %s", f)
				continue
			}
			s := x.S.clone()
			s.nils[target] = false
			for _, y := range p.follow(r, g, []*Term{target}, f.Args, s, cl, false, site) {
				n++
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i).Name()
					if set := y.S.auto["set "+f] != ""; set && f != want {
						note("it assigns %s", f)
					} else if !set && f == want {
						note("it can leave %s as it was (%s)", f, y.Pos)
					}
				}
			}
		}
		if n == 0 {
			note("it does not return")
		}
		r.must(bad == "", "option", site, "%s", bad)
	}
}

// resolve is the value of a package variable that is never assigned.
func (p *Prog) resolve(t *Term) *Term {
	if t == nil || t.Kind != 'o' || t.Op != "globalval" {
		return t
	}
	g, ok := t.Args[0].Val.(*ssa.Global)
	if !ok || !p.constGlobal(g) || g.Pkg == nil || g.Pkg.Func("init") == nil {
		return t
	}
	var vs []ssa.Value
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				vs = append(vs, st.Val)
			}
		}
	}
	if len(vs) == 1 {
		if c, ok := vs[0].(*ssa.Const); ok && c.Value != nil {
			return mkConst(normConst(c.Value, c.Type()), c.Type())
		}
	}
	return t
}

func sameConst(a, b *Term) bool {
	if a == b {
		return true
	}
	return a != nil && b != nil && a.Kind == 'c' && b.Kind == 'c' && a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() && constant.Compare(a.C, token.EQL, b.C)
}

func (p *Prog) flagRule(r *Rep, m *modelType) {
	load, def := m.Pkg.Func("LoadForCmd"), m.Pkg.Func("DefaultOptions")
	st := m.Opts.Underlying().(*types.Struct)
	if load == nil || def == nil || len(load.Params) != 2 {
		r.bad("flag", m.Name, "LoadForCmd or DefaultOptions is not found")
		return
	}
	inl := func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) }
	// the defaults
	var defs []map[string]*Term
	for _, x := range p.follow(r, def, nil, nil, newState(), &Client{Inline: inl}, false, m.Name+" DefaultOptions") {
		d := map[string]*Term{}
		for i := 0; i < st.NumFields(); i++ {
			d[st.Field(i).Name()] = p.resolve(x.S.norm(mkField(x.S.norm(x.Res[0]), i, m.Opts)))
		}
		defs = append(defs, d)
	}
	if len(defs) == 0 {
		r.bad("default", m.Name, "DefaultOptions does not return")
	}
	target := mkSym("options", types.NewPointer(m.Opts))
	cmd := mkSym("command", load.Params[0].Type())
	type decl struct {
		name, short string
		def         *Term
		pos         string
	}
	bound := map[string][]decl{}
	seen := map[string]string{}
	badFlags := ""
	cl := &Client{Inline: inl}
	cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
		i := strings.LastIndex(k.Name, "pflag.FlagSet.")
		if i < 0 {
			return false, nil
		}
		meth := k.Name[i+len("pflag.FlagSet."):]
		s := x.S
		if !strings.HasSuffix(strings.TrimSuffix(meth, "P"), "Var") || len(k.Args) < 4 {
			badFlags = fmt.Sprintf("the flag of %s is not followed (%s)", meth, x.Pos())
			return true, nil
		}
		a := s.norm(k.Args[1])
		d := decl{pos: x.Pos()}
		d.name, _ = constStr(s.norm(k.Args[2]))
		d.def = p.resolve(s.norm(k.Args[3]))
		if strings.HasSuffix(meth, "P") {
			d.short, _ = constStr(s.norm(k.Args[3]))
			d.def = p.resolve(s.norm(k.Args[4]))
		}
		if a.Kind != 'o' || a.Op != "fieldaddr" || a.Args[0] != target {
			badFlags = fmt.Sprintf("the flag %s is bound to %s (%s)", d.name, a, x.Pos())
			return true, nil
		}
		f := fieldName(m.Opts, a.Field)
		if old, ok := seen[d.name]; ok && old != f+" "+d.pos {
			badFlags = fmt.Sprintf("the flag %s is declared twice (%s)", d.name, x.Pos())
		}
		seen[d.name] = f + " " + d.pos
		if s.auto["flag "+d.name] != "" {
			badFlags = fmt.Sprintf("the flag %s is declared twice (%s)", d.name, x.Pos())
		}
		s.auto["flag "+d.name] = f
		dup := false
		for _, o := range bound[f] {
			dup = dup || o == d
		}
		if !dup {
			bound[f] = append(bound[f], d)
		}
		return true, nil
	}
	ends := p.follow(r, load, []*Term{cmd, target}, nil, newState(), cl, false, m.Name+" LoadForCmd")
	if len(ends) == 0 {
		badFlags = "LoadForCmd does not return"
	}
	if badFlags != "" {
		r.bad("flag", m.Name, "%s", badFlags)
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Name()
		site := m.Name + " " + f
		want, ok := flagNames[f]
		ds := bound[f]
		switch {
		case !ok:
			r.bad("flag", site, "the hyperparameter is not known")
			continue
		case len(ds) == 0:
			r.bad("flag", site, "no flag is bound to it")
			continue
		}
		bad := ""
		for _, d := range ds {
			if d.name != want[0] || d.short != want[1] {
				bad = fmt.Sprintf("it is bound to the flag %s %s (%s)", d.name, d.short, d.pos)
			}
		}
		if len(ds) > 1 {
			bad = fmt.Sprintf("%d flags are bound to it", len(ds))
		}
		for _, x := range ends {
			if x.S.auto["flag "+want[0]] == "" && bad == "" {
				bad = fmt.Sprintf("the flag %s can be missing", want[0])
			}
		}
		r.must(bad == "", "flag", site, "%s", bad)
		bad = ""
		for _, d := range defs {
			if v := d[f]; !sameConst(v, ds[0].def) {
				bad = fmt.Sprintf("the default is %s, and of the flag it is %s", v, ds[0].def)
			}
		}
		r.must(bad == "", "default", site, "%s", bad)
	}
}

// newRule: New applies the options to the defaults, and makes the model of the result.
func (p *Prog) newRule(r *Rep, m *modelType) {
	fn, def := m.New, m.Pkg.Func("DefaultOptions")
	site := m.Name + " New"
	bad := ""
	first := true
	note := func(f string, args ...interface{}) {
		if bad == "" && !first {
			bad = fmt.Sprintf(f, args...)
		}
	}
	if def == nil || len(fn.Params) != 1 {
		r.bad("new", site, "it does not take options, or DefaultOptions is not found")
		return
	}
	D := mkSym("defaults", m.Opts)
	one, final := mkSym("applied", m.Opts), mkSym("final", m.Opts)
	var at *Term
	opts := mkSym("given", fn.Params[0].Type())
	vs := newVisits("option")
	loaded := map[*Term]*Term{}
	var loop *loopAt
	applied, made, up := 0, 0, true
	cl := &Client{Once: func(*Frame, *ssa.BasicBlock) bool { return true }}
	cl.Inline = func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) && k.Fn != def && k.Fn != m.NewFO }
	cl.Instr = func(x *Ctx) {
		switch in := x.I.(type) {
		case *ssa.UnOp:
			if isModelOption(in.Type(), m) {
				if a := x.S.norm(x.Val(in.X)); a.Kind == 'o' && a.Op == "indexaddr" && a.Args[0] == opts {
					loaded[mkLeaf(x.F, in, "")] = a.Args[1]
				}
			}
		case *ssa.Store:
			if a := x.S.norm(x.Val(in.Addr)); a.Kind == 'o' && a.Op == "fieldaddr" && namedOf(in.Addr.(*ssa.FieldAddr).X.Type()) == m.Opts {
				note("it assigns %s (%s)", a, x.Pos())
			}
		}
	}
	cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		switch {
		case k.Fn == def:
			return true, D
		case k.Fn == m.NewFO:
			made++
			if v := s.norm(k.Args[0]); v != final {
				note("the model is made with %s (%s)", v, x.Pos())
			}
			return true, mkSym("model", fn.Signature.Results())
		case !k.Com.IsInvoke() && k.Com.StaticCallee() == nil && len(k.Com.Args) == 1 && isModelOption(k.Com.Value.Type(), m):
			f, h := innermost(x.F, x.I.Block())
			a := s.norm(x.Val(k.Com.Args[0]))
			o := s.norm(x.Val(k.Com.Value))
			if first {
				at = a
			}
			if v := s.read(a); at != a || v == nil || s.norm(v) != D {
				note("an option is applied to %s (%s)", a, x.Pos())
			}
			s.mem[a] = one
			if h == nil || loaded[o] == nil {
				note("%s is applied, which is not the option in turn (%s)", o, x.Pos())
				return true, nil
			}
			applied++
			loop = &loopAt{f, h}
			if s.auto["done"] != "" {
				note("an option is applied twice (%s)", x.Pos())
			}
			s.auto["done"] = "y"
			for _, l := range loaded[o].leaves {
				if ph, ok := l.Val.(*ssa.Phi); ok && ph.Block() == h && unitStep(ph) != 1 {
					up = false
				}
			}
			tag := strings.TrimPrefix(vs.record(x, loaded[o]), "visit ")
			s.auto["used "+tag] = "y"
			return true, nil
		}
		return false, nil
	}
	cl.Loop = func(x *Ctx, h *ssa.BasicBlock) {
		if loop != nil && h == loop.h {
			delete(x.S.auto, "done")
			x.S.mem[at] = D
		}
	}
	cl.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		vs.next(x, from, to)
		if loop == nil || x.F != loop.f || first {
			return
		}
		body := naturalLoop(loop.h)
		now := x.S.read(at)
		if now != nil {
			now = x.S.norm(now)
		}
		where := p.posOf(from.Instrs[len(from.Instrs)-1])
		switch {
		case to == loop.h && body[from] && now != one:
			note("the options that were applied are lost (%s)", where)
		case to == loop.h && !body[from] && now != D:
			note("the options are applied to %s (%s)", now, where)
		case body[from] && !body[to] && from == loop.h:
			x.S.mem[at] = final
		case body[from] && !body[to]:
			note("options can be left out (%s)", where)
		}
	}
	cl.Exit = func(x *Ctx, res []*Term) {
		for _, t := range res {
			if !mentions(x.S.norm(t), func(u *Term) bool { return u.Kind == 's' || strings.HasPrefix(u.String(), "model") }) {
				note("it returns %s, which is not what NewForOptions returns (%s)", x.S.norm(t), x.Pos())
			}
		}
	}
	e := e0(newEngine(p, cl), fn)
	run := func() {
		s := newState()
		s.env[mkLeaf(e.Root, fn.Params[0], "")] = opts
		e.Run(e.Root, s)
	}
	run()
	first = false
	e.reset()
	vs, applied, made = newVisits("option"), 0, 0
	run()
	r.absorb(e, site)
	vs.settle(e)
	for _, k := range vs.order {
		v := vs.m[k]
		switch {
		case v.undec != "":
			note("%s", v.undec)
		case vs.skips[k] != "":
			note("an option can be left out (%s)", vs.skips[k])
		case !v.is(vs.interval(0, linOf(mkLen(opts)))):
			note("the options {%s} are applied (%s)", v.dom, v.where)
		}
	}
	switch {
	case applied == 0 || len(vs.order) != 1:
		note("the options are applied at %d places", len(vs.order))
	case made == 0:
		note("no model is made")
	case !up:
		note("the options are not applied in order")
	}
	r.must(bad == "", "new", site, "%s", bad)
}

// keptRule: NewForOptions keeps the options, and nothing changes them.
func (p *Prog) keptRule(r *Rep, m *modelType, setters map[*ssa.Function]bool) {
	bad := ""
	note := func(f string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
	}
	ost := m.Opts.Underlying().(*types.Struct)
	mn := namedOf(m.Typ)
	mst, ok := mn.Underlying().(*types.Struct)
	fld := -1
	if ok {
		for i := 0; i < mst.NumFields(); i++ {
			if t := mst.Field(i).Type(); namedOf(t) == m.Opts {
				fld = i
			}
		}
	}
	if fld < 0 {
		r.bad("kept", m.Name, "the model does not keep its options")
		return
	}
	given := mkSym("given", m.Opts)
	inl := func(k *Call) bool { return true }
	n := 0
	for _, x := range p.follow(r, m.NewFO, []*Term{given}, nil, newState(), &Client{Inline: inl}, false, m.Name+" NewForOptions") {
		if x.Fail == 1 {
			continue
		}
		for _, t := range x.Res {
			t = x.S.norm(t)
			if t.Kind != 'o' || t.Op != "iface" {
				continue
			}
			n++
			a := mkFieldAddr(x.S.norm(t.Args[0]), fld, mn)
			v := x.S.read(a)
			if v == nil {
				note("the options of the model are not known (%s)", x.Pos)
				continue
			}
			v = x.S.norm(v)
			if _, isPtr := mst.Field(fld).Type().(*types.Pointer); isPtr {
				v = x.S.norm(x.S.content(v, m.Opts))
			}
			if v != given {
				for i := 0; i < ost.NumFields(); i++ {
					w := x.S.norm(mkField(v, i, m.Opts))
					if w != mkField(given, i, m.Opts) && w != mkOpt(m.Opts, ost.Field(i).Name(), ost.Field(i).Type()) {
						note("%s of the model is %s (%s)", ost.Field(i).Name(), w, x.Pos)
					}
				}
			}
		}
	}
	if n == 0 {
		note("the model that NewForOptions makes is not known")
	}
	newReach := p.reachable(m.NewFO)
	for _, f := range p.Funcs {
		if !p.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, isField := st.Addr.(*ssa.FieldAddr)
				switch {
				case isField && namedOf(fa.X.Type()) == m.Opts:
					if al, ok := fa.X.(*ssa.Alloc); ok && freshLiteral(al) || setters[f] {
						continue
					}
					note("%s assigns %s (%s)", fnName(f), fieldName(m.Opts, fa.Field), p.posOf(in))
				case types.Identical(st.Val.Type(), m.Opts):
					if _, ok := st.Addr.(*ssa.Alloc); ok {
						continue
					}
					if isField && namedOf(fa.X.Type()) == mn && newReach[f] {
						continue
					}
					note("%s assigns the options (%s)", fnName(f), p.posOf(in))
				}
			}
		}
	}
	for f := range setters {
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f && !setters[g] {
						note("%s assigns the options, by %s (%s)", fnName(g), fnName(f), p.posOf(in))
					}
				}
			}
		}
	}
	r.must(bad == "", "kept", m.Name, "%s", bad)
}

// freshLiteral: a variable that is assigned field by field only, as a
// composite literal is.
func freshLiteral(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		switch in := ref.(type) {
		case *ssa.FieldAddr:
		case *ssa.UnOp:
		default:
			_ = in
			return false
		}
	}
	return true
}

// flagsUsed: what the commands do with their flags.
func (p *Prog) flagsUsed(r *Rep) {
	ms := map[*ssa.Function]*modelType{}
	loads := map[*ssa.Function]*modelType{}
	for _, m := range p.models(r) {
		ms[m.NewFO] = m
		loads[m.Pkg.Func("LoadForCmd")] = m
	}
	search := map[string]bool{"Search": true, "SearchInternal": true, "SearchVector": true}
	isNew := map[*ssa.Function]bool{}
	for _, c := range p.commands(r) {
		isNew[c.New] = true
	}
	for _, c := range p.commands(r) {
		site := c.Name
		bad := ""
		note := func(f string, args ...interface{}) {
			if bad == "" {
				bad = fmt.Sprintf(f, args...)
			}
		}
		flags := map[string]*Term{}
		var cell, binds0 *Term
		var loaded *modelType
		var binds []*Term
		cl := &Client{Inline: func(k *Call) bool { return cmdInline(p)(k) && !isNew[k.Fn] }}
		cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
			s := x.S
			if m := loads[k.Fn]; k.Fn != nil && m != nil {
				a := s.norm(k.Args[1])
				if cell != nil && cell != a || s.auto["loaded"] != "" {
					note("flags are declared twice (%s)", x.Pos())
				}
				s.auto["loaded"] = "y"
				cell, loaded = a, m
				return true, nil
			}
			if i := strings.LastIndex(k.Name, "pflag.FlagSet."); i >= 0 && len(k.Args) > 3 {
				n, _ := constStr(s.norm(k.Args[2]))
				a := s.norm(k.Args[1])
				if o := flags[n]; o != nil && o != a || s.auto["flag "+n] != "" {
					note("the flag %s is declared twice (%s)", n, x.Pos())
				}
				for on, o := range flags {
					if on != n && o == a {
						note("%s and %s are one variable (%s)", on, n, x.Pos())
					}
				}
				s.auto["flag "+n] = "y"
				flags[n] = a
				return true, nil
			}
			return false, nil
		}
		cl.Instr = func(x *Ctx) {
			if st, ok := x.I.(*ssa.Store); ok {
				if v := x.Val(st.Val); v.Kind == 'o' && v.Op == "closure" && v.Val == c.Run {
					binds = v.Args
				}
			}
		}
		_ = binds0
		ends := p.follow(r, c.New, nil, nil, newState(), cl, false, site+" constructor")
		if len(ends) == 0 || len(flags) == 0 && loaded == nil {
			if c.Trains || strings.Contains(site, "query") {
				r.bad("command", site, "no flags are declared")
			}
			continue
		}
		if c.Trains && loaded == nil {
			r.bad("command", site, "the flags of the model are not declared")
			continue
		}
		if loaded != nil {
			for i, st := 0, loaded.Opts.Underlying().(*types.Struct); i < st.NumFields(); i++ {
				if flags[flagNames[st.Field(i).Name()][0]] != nil {
					note("the flag %s is declared twice", flagNames[st.Field(i).Name()][0])
				}
			}
		}
		run := &Client{Inline: cmdInline(p)}
		used := map[string]int{}
		given := mkSym("flags", types.Typ[types.Int])
		is := func(s *State, t *Term, n string) bool {
			v := flagVal(s, flags[n], p)
			return v != nil && s.norm(t) == v
		}
		run.Call = func(x *Ctx, k *Call) (bool, *Term) {
			s := x.S
			if m := ms[k.Fn]; k.Fn != nil && m != nil {
				used["options"]++
				if v := s.norm(k.Args[0]); m != loaded || v != given {
					note("the model is made with %s (%s)", v, x.Pos())
				}
				return false, nil
			}
			if k.Fn == nil || k.Fn.Signature.Recv() == nil && k.Fn.Name() != "New" {
				return false, nil
			}
			switch n := k.Fn.Name(); {
			case n == "Save" && len(k.Args) == 3 && flags["vec-type"] != nil:
				used["vec-type"]++
				if !is(s, k.Args[2], "vec-type") {
					note("vectors of the type %s are saved (%s)", s.norm(k.Args[2]), x.Pos())
				}
				return true, nil
			case flags["rank"] != nil && (search[n] || n == "New" && strings.HasSuffix(k.Fn.Pkg.Pkg.Path(), "search/console")):
				used["rank"]++
				if !is(s, k.Args[len(k.Args)-1], "rank") {
					note("%s neighbours are searched (%s)", s.norm(k.Args[len(k.Args)-1]), x.Pos())
				}
			}
			return false, nil
		}
		for _, x := range ends {
			s := x.S.clone()
			if cell != nil {
				for a := range s.mem {
					for b := a; b != nil; {
						if b == cell {
							delete(s.mem, a)
						}
						if b.Kind == 'o' && b.Op == "fieldaddr" {
							b = b.Args[0]
						} else {
							b = nil
						}
					}
				}
				given = mkSym("flags", loaded.Opts)
				s.mem[cell] = given
			}
			p.follow(r, c.Run, nil, binds, s, run, true, site)
		}
		for _, n := range []string{"vec-type", "rank"} {
			if flags[n] != nil && used[n] == 0 {
				note("the flag %s is not used", n)
			}
		}
		if c.Trains && (flags["vec-type"] == nil || used["options"] == 0) {
			note("the flag vec-type is not declared, or no model is made")
		}
		if !c.Trains && flags["rank"] == nil {
			note("the flag rank is not declared")
		}
		r.must(bad == "", "command", site, "%s", bad)
	}
}

// sinksRule: what training is given for a hyperparameter is the one of that name.
func (p *Prog) sinksRule(r *Rep) {
	type sink struct {
		what  string
		match func(c *ssa.CallCommon) ssa.Value // the argument
		want  string
		min   int
		n     int
	}
	static := func(rel, name string, arg int) func(c *ssa.CallCommon) ssa.Value {
		f := p.fn(rel, name)
		return func(c *ssa.CallCommon) ssa.Value {
			if f == nil || c.StaticCallee() != f || arg >= len(c.Args) {
				return nil
			}
			return c.Args[arg]
		}
	}
	method := func(typ, name string, arg int) func(c *ssa.CallCommon) ssa.Value {
		return func(c *ssa.CallCommon) ssa.Value {
			if c.IsInvoke() && c.Method.Name() == name && namedIs(c.Value.Type(), "pkg/corpus", typ) && arg < len(c.Args) {
				return c.Args[arg]
			}
			return nil
		}
	}
	sinks := []*sink{
		{what: "the log batch of Load", match: method("Corpus", "Load", 2), want: "LogBatch", min: 3},
		{what: "the log batch of Save", match: static("pkg/model/modelutil/vector", "Save", 4), want: "LogBatch", min: 3},
		{what: "the size of batches", match: method("Corpus", "BatchWords", 1), want: "BatchSize", min: 2},
		{what: "the threshold of the subsampler", match: static("pkg/model/modelutil/subsample", "New", 1), want: "SubsampleThreshold", min: 2},
		{what: "the verbose mode", match: static("pkg/util/verbose", "New", 0), want: "Verbose", min: 3},
		{what: "the number of parts of the data", match: static("pkg/model/modelutil", "IndexPerThread", 0), want: "Goroutines", min: 3},
		{what: "the number of workers", match: func(c *ssa.CallCommon) ssa.Value {
			if f := c.StaticCallee(); f != nil && f.Name() == "NewWeighted" && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/semaphore") {
				return c.Args[0]
			}
			return nil
		}, want: "Goroutines", min: 4},
	}
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, k := range sinks {
					a := k.match(c.Common())
					if a == nil {
						continue
					}
					k.n++
					got := p.optSource(a)
					r.must(got == k.want, "reaches", fnName(fn)+": "+k.what, "it is %s (%s)", got, p.posOf(in))
				}
			}
		}
	}
	p.directRule(r)
	for _, k := range sinks {
		if k.n == 0 {
			r.bad("reaches", k.what, "it is not found")
		}
	}
	// the way pairs are counted
	n := 0
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != "CountType" || !namedIs(fa.X.Type(), "pkg/corpus", "WithCooccurrence") {
					continue
				}
				n++
				got := p.optSource(st.Val)
				has := false
				if o := fn.Pkg.Type("Options"); o != nil {
					ost, _ := o.Type().Underlying().(*types.Struct)
					for i := 0; ost != nil && i < ost.NumFields(); i++ {
						has = has || ost.Field(i).Name() == "CountType"
					}
				}
				if c, ok := st.Val.(*ssa.Const); ok && !has {
					got = "the constant " + c.Value.String()
				}
				r.must(has && got == "CountType" || !has && got == `the constant "inc"`, "reaches", fnName(fn)+": the type of counts", "it is %s (%s)", got, p.posOf(in))
			}
		}
	}
	if n == 0 {
		r.bad("reaches", "the type of counts", "it is not found")
	}
}

// optionOf gives the hyperparameter that a value is, if it is one.
func (p *Prog) optionOf(v ssa.Value) string {
	for {
		switch c := v.(type) {
		case *ssa.Convert:
			v = c.X
			continue
		case *ssa.MakeInterface:
			v = c.X
			continue
		}
		break
	}
	if f, ok := p.fieldOfValue(v); ok && p.isOptions(f) {
		return f.field
	}
	return ""
}

// directRule: where a hyperparameter itself is kept in a field that has the
// name of one, or is an operand of an operation that has one meaning in this
// code, it is the right one.
func (p *Prog) directRule(r *Rep) {
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) || fn.Pkg == nil {
			continue
		}
		names := map[string]string{}
		if o := fn.Pkg.Type("Options"); o != nil {
			ost, _ := o.Type().Underlying().(*types.Struct)
			for i := 0; ost != nil && i < ost.NumFields(); i++ {
				names[strings.ToLower(ost.Field(i).Name())] = ost.Field(i).Name()
			}
		}
		one := func(in ssa.Instruction, v ssa.Value, what string, want ...string) {
			got := p.optionOf(v)
			if got == "" {
				return
			}
			ok := false
			for _, w := range want {
				ok = ok || w == got
			}
			r.must(ok, "reaches", fnName(fn)+": "+what, "it is %s (%s)", got, p.posOf(in))
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						break
					}
					id := fieldIDOf(fa)
					if p.isOptions(id) {
						break
					}
					if w := names[strings.ToLower(id.field)]; w != "" {
						one(in, in.Val, "the field "+id.field, w)
					}
				case *ssa.MakeSlice:
					if e, ok := in.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Float64 {
						one(in, in.Len, "the size of a vector", "Dim")
					}
				case *ssa.BinOp:
					if in.Op != token.MUL {
						break
					}
					for i, x := range []ssa.Value{in.X, in.Y} {
						y := []ssa.Value{in.Y, in.X}[i]
						if d, ok := y.(*ssa.BinOp); ok && d.Op == token.SUB && floatConst(d.X, 1) {
							one(in, x, "the learning rate that decreases", "Initlr")
						}
					}
				case ssa.CallInstruction:
					c := in.Common()
					switch callName(in) {
					case "math.Pow":
						one(in, c.Args[1], "an exponent", "Smooth", "Alpha")
					case "sync/atomic.Value.Store":
						one(in, c.Args[1], "the learning rate", "Initlr", "MinLR")
					}
					if f := c.StaticCallee(); f != nil && f.Name() == "NextRandom" && p.inRepo(f) {
						one(in, c.Args[0], "the bound of a random offset", "Window")
					}
				}
			}
		}
	}
}

func floatConst(v ssa.Value, f float64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	g, _ := constant.Float64Val(constant.ToFloat(c.Value))
	return g == f
}

// optSource names the hyperparameter that a value is.
func (p *Prog) optSource(v ssa.Value) string {
	f, ok := p.fieldOfValue(v)
	if !ok {
		var out []string
		for _, s := range p.sources(v) {
			out = append(out, s.String())
		}
		return strings.Join(out, ", ")
	}
	if !p.isOptions(f) {
		return f.String()
	}
	return f.field
}

// passesRule: training passes over the data as many times as Iter says.
func (p *Prog) passesRule(r *Rep, m *modelType) {
	ws := p.trainWorkers()
	worker := func(in ssa.Instruction) bool {
		g, ok := in.(*ssa.Go)
		if !ok {
			return false
		}
		for _, f := range p.callees(g.Common()) {
			if _, ok := ws[f]; ok {
				return true
			}
		}
		return false
	}
	rel := p.reaches(worker)
	bad := ""
	note := func(f string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
	}
	iter := m.opt("Iter")
	if iter == nil {
		r.bad("passes", m.Name, "there is no hyperparameter Iter")
		return
	}
	type pass struct {
		f    *Frame
		h, g *ssa.BasicBlock // the loop over passes, and where the workers are started in it
	}
	passes := map[pass]bool{}
	vs := newVisits("pass")
	first := true
	newVs := func() {
		vs = newVisits("pass")
		vs.okExit = func(x *Ctx, from, to *ssa.BasicBlock) bool {
			iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			b, ok := iff.Cond.(*ssa.BinOp)
			return ok && isErrorType(b.X.Type())
		}
	}
	newVs()
	cl := &Client{Once: func(*Frame, *ssa.BasicBlock) bool { return true }}
	cl.Inline = func(k *Call) bool { return rel[k.Fn] && pkgOf(k.Fn) == m.Pkg.Pkg }
	cl.Call = func(x *Ctx, k *Call) (bool, *Term) { return isVerboseDo(k.Name), nil }
	outermost := func(f *Frame, b *ssa.BasicBlock) (ps pass) {
		for f != nil {
			var best *ssa.BasicBlock
			n := 0
			var loops []*ssa.BasicBlock
			for _, h := range f.Fn.Blocks {
				if body := naturalLoop(h); body[b] {
					loops = append(loops, h)
					if best == nil || len(body) > n {
						best, n = h, len(body)
					}
				}
			}
			if best != nil {
				ps = pass{f, best, b}
				// the loop inside, if any
				m := 0
				for _, h := range loops {
					if body := naturalLoop(h); h != best && len(body) > m {
						ps.g, m = h, len(body)
					}
				}
			}
			if f.Site == nil {
				break
			}
			b = f.Site.Block()
			f = f.Parent
		}
		return ps
	}
	counter := func(ps pass) *Term {
		for _, in := range ps.h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isSignedInt(ph.Type()) && unitStep(ph) != 0 {
				return mkLeaf(ps.f, ph, "")
			}
		}
		return nil
	}
	see := func(x *Ctx, ps pass) {
		c := counter(ps)
		if c == nil {
			note("passes are not counted in the loop at %s", p.posOf(ps.h.Instrs[0]))
			return
		}
		tag := strings.TrimPrefix(vs.record(x, x.S.norm(c)), "visit ")
		if x.S.auto["used "+tag] != "" {
			note("the data is passed over twice (%s)", x.Pos())
		}
		x.S.auto["used "+tag] = "y"
	}
	cl.Instr = func(x *Ctx) {
		if !worker(x.I) {
			return
		}
		ps := outermost(x.F, x.I.Block())
		if ps.h == nil {
			note("workers are started outside of a loop over passes (%s)", x.Pos())
			return
		}
		passes[ps] = true
		if !first && naturalLoop(ps.g) == nil {
			see(x, ps)
		}
	}
	cl.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		if first {
			return
		}
		for ps := range passes {
			if ps.f == x.F && ps.g == to && naturalLoop(to) != nil && !naturalLoop(to)[from] {
				see(x, ps)
			}
		}
		vs.next(x, from, to)
	}
	e := e0(newEngine(p, cl), m.Train)
	e.Run(e.Root, newState())
	first = false
	bad = ""
	e.reset()
	newVs()
	e.Run(e.Root, newState())
	r.absorb(e, m.Name+" Train")
	vs.settle(e)
	n := linOf(iter)
	for _, k := range vs.order {
		v := vs.m[k]
		switch {
		case v.undec != "":
			note("%s", v.undec)
		case vs.skips[k] != "":
			note("a pass can be left out (%s)", vs.skips[k])
		case !v.is(vs.interval(0, n)) && !v.is(vs.interval(1, n.plus(lin{c: 1}, 1))):
			note("the passes {%s} are made (%s)", v.dom, v.where)
		}
	}
	if len(vs.order) == 0 {
		note("no loop over passes is found")
	}
	r.must(bad == "", "passes", m.Name, "%s", bad)
}

// usedRule: every hyperparameter is read by what Train, Save or NewForOptions do.
func (p *Prog) usedRule(r *Rep, m *modelType) {
	used := p.optReads(m, m.Train, m.Save)
	for f := range p.reachable(m.NewFO) {
		sig := f.Signature
		if !p.inRepo(f) || sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) {
			continue // it only tells whether the options are valid
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Field:
					if namedOf(in.X.Type()) == m.Opts {
						used[fieldName(in.X.Type(), in.Field)] = true
					}
				case *ssa.FieldAddr:
					if namedOf(in.X.Type()) != m.Opts {
						continue
					}
					for _, ref := range *in.Referrers() {
						if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
							used[fieldName(in.X.Type(), in.Field)] = true
						}
					}
				}
			}
		}
	}
	for i, st := 0, m.Opts.Underlying().(*types.Struct); i < st.NumFields(); i++ {
		f := st.Field(i).Name()
		r.must(used[f], "used", m.Name+" "+f, "nothing reads it: the flag and the option have no effect")
	}
}

// chosenRule: the corpus is kept in memory if and only if DocInMemory says so,
// and the list of its words is used only then.
func (p *Prog) chosenRule(r *Rep, m *modelType) {
	opt := m.opt("DocInMemory")
	if opt == nil {
		r.bad("chosen", m.Name, "there is no hyperparameter DocInMemory")
		return
	}
	mem := map[*ssa.Function]int{}
	for _, c := range p.corpora(r) {
		mem[c.New] = 0
		if strings.HasSuffix(c.Pkg, "memory") {
			mem[c.New] = 1
		}
	}
	made := map[int]bool{}
	bad := ""
	note := func(f string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
	}
	isDoc := func(c *ssa.CallCommon) bool {
		return c.IsInvoke() && c.Method.Name() == "IndexedDoc" && namedIs(c.Value.Type(), "pkg/corpus", "Corpus")
	}
	rel := p.reaches(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		_, is := mem[c.Common().StaticCallee()]
		return is || isDoc(c.Common())
	})
	cl := &Client{}
	cl.Inline = func(k *Call) bool {
		if _, is := mem[k.Fn]; is {
			return false
		}
		return rel[k.Fn] && pkgOf(k.Fn) == m.Pkg.Pkg
	}
	cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if isDoc(k.Com) && x.S.boolOf(opt) != 1 {
			note("the list of words is used where the document may not be in memory (%s)", x.Pos())
		}
		if want, is := mem[k.Fn]; is && k.Fn != nil {
			made[want] = true
			if got := x.S.boolOf(opt); got != want {
				note("%s is made where DocInMemory may be %v (%s)", fnName(k.Fn), want == 0, x.Pos())
			}
		}
		return isVerboseDo(k.Name), nil
	}
	e := e0(newEngine(p, cl), m.Train)
	e.Run(e.Root, newState())
	r.absorb(e, m.Name+" Train")
	if len(made) != 2 {
		note("%d kinds of corpus are made", len(made))
	}
	r.must(bad == "", "chosen", m.Name, "%s", bad)
}
