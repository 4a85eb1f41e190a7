package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C18",
		Technique: "path-sensitive abstract interpretation of Train and its goroutines with order facts about floating-point values, combined with a flow-insensitive taint analysis of the initial learning rate and of the shared rate",
		Explanation: "For each model with a MinLR option the shared cells that hold a learning rate are found: fields that receive the initial rate or a value computed from it. Wherever such a cell is written during Train, by any goroutine and in both corpus modes, the path must have established that the value is at least MinLR (or be MinLR itself), so that no intermediate value is ever visible. " +
			"A taint analysis shows that a rate computed from the initial rate reaches the parameter vectors only through such a cell, and that what is loaded from a cell is used as it is: it is not scaled, shifted or divided before it is applied.",
		Run: runC18,
	})
}

// atomicStore gives the address and the new value of a call that stores atomically.
func atomicStore(k *Call) (addr, val *Term, ok bool) {
	n := k.Name
	switch {
	case strings.HasPrefix(n, "sync/atomic.Value.") || strings.HasPrefix(n, "sync/atomic.") && strings.Contains(strings.TrimPrefix(n, "sync/atomic."), "."):
		m := n[strings.LastIndex(n, ".")+1:]
		switch m {
		case "Store", "Swap":
			return k.Args[0], k.Args[1], true
		case "CompareAndSwap":
			return k.Args[0], k.Args[2], true
		}
	case strings.HasPrefix(n, "sync/atomic.Store"), strings.HasPrefix(n, "sync/atomic.Swap"):
		return k.Args[0], k.Args[1], true
	case strings.HasPrefix(n, "sync/atomic.CompareAndSwap"):
		return k.Args[0], k.Args[2], true
	}
	return nil, nil, false
}

// plainFloat strips the packing of a float: an interface or its bits.
func plainFloat(s *State, t *Term) *Term {
	t = s.norm(t)
	for t.Kind == 'o' && (t.Op == "iface" || strings.HasSuffix(t.Op, "math.Float64bits")) {
		t = s.norm(t.Args[0])
	}
	return t
}

func runC18(r *Rep) {
	r.rule("publish", 2, "a learning rate that becomes visible is at least MinLR")
	r.rule("cell", 2, "the learning rate is shared through a field")
	r.rule("through-cell", 2, "a computed learning rate reaches the parameters only through the shared cell")
	r.rule("as-is", 2, "a learning rate is applied as it was published")
	p := r.P
	r.note("floating-point values are assumed to be numbers (not NaN) in order comparisons")
	for _, m := range p.models(r) {
		minlr, initlr := m.opt("MinLR"), m.opt("Initlr")
		if minlr == nil || initlr == nil {
			continue
		}
		cells := p.rateCells(m)
		r.must(len(cells) > 0, "cell", m.Name, "no field is found through which %s shares its learning rate", m.Name)
		for _, md := range m.trainModes() {
			c := &Client{}
			c.Inline = func(k *Call) bool {
				return k.Fn != nil && !isVerboseDo(k.Name) && !strings.Contains(qualName(k.Fn), "/pkg/corpus/") && !isMatrixNew(k.Fn)
			}
			publish := func(x *Ctx, addr, val *Term) {
				id, ok := fieldOfAddr(x.S.norm(addr))
				if !ok || !cells[id] {
					return
				}
				v := plainFloat(x.S, val)
				good := v == minlr || x.S.relOf(v, minlr)&relLT == 0 || atLeastTerm(x.S, v, minlr)
				r.must(good, "publish", m.Name+" "+fnName(x.F.Fn), "the learning rate %s becomes visible without being known to be at least MinLR (%s, %s)", v, x.Pos(), md.Name)
			}
			c.Call = func(x *Ctx, k *Call) (bool, *Term) {
				if a, v, ok := atomicStore(k); ok {
					publish(x, a, v)
				}
				if isVerboseDo(k.Name) {
					return true, nil
				}
				return false, nil
			}
			c.Instr = func(x *Ctx) {
				if st, ok := x.I.(*ssa.Store); ok {
					publish(x, x.Val(st.Addr), x.Val(st.Val))
				}
			}
			e := newEngine(p, c)
			f := e.rootFrame(m.Train)
			e.Run(f, md.S.clone())
			e.RunSpawned()
			r.absorb(e, md.Name+" Train")
		}
		p.rateFlows(r, m, cells)
	}
}

// atLeastTerm recognises the maximum of a value and a bound.
func atLeastTerm(s *State, v, bound *Term) bool {
	if v.Kind == 'o' && (v.Op == "call:math.Max" || v.Op == "max") {
		for _, a := range v.Args {
			a = s.norm(a)
			if a == bound || s.relOf(a, bound)&relLT == 0 {
				return true
			}
		}
	}
	return false
}

// optLoads finds the reads of a hyperparameter of m in the functions of its package.
func (p *Prog) optLoads(m *modelType, name string) []ssa.Value {
	var out []ssa.Value
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp:
					if fa, ok := in.X.(*ssa.FieldAddr); ok && in.Op == token.MUL {
						if namedOf(fa.X.Type()) == m.Opts && fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) == name {
							out = append(out, in)
						}
					}
				case *ssa.Field:
					if namedOf(in.X.Type()) == m.Opts && fieldName(in.X.Type(), in.Field) == name {
						out = append(out, in)
					}
				}
			}
		}
	}
	return out
}

// flow follows a value forwards: through phis, conversions, local variables,
// parameters, results and captures. visit is told of every other use; when it
// returns true, the result of the using instruction is followed too.
func (p *Prog) flow(from []ssa.Value, visit func(in ssa.Instruction, v ssa.Value) bool) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, in := range *refs {
			switch u := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				walk(u)
			case *ssa.ChangeType:
				walk(u)
			case *ssa.MakeInterface:
				walk(u)
			case *ssa.ChangeInterface:
				walk(u)
			case *ssa.TypeAssert:
				walk(u)
			case *ssa.Extract:
				walk(u)
			case *ssa.Store:
				if u.Val != v {
					continue
				}
				if cell := cellOf(u.Addr); cell != nil {
					for _, l := range p.cellLoads(cell) {
						walk(l)
					}
					continue
				}
				visit(in, v)
			case *ssa.MakeClosure:
				fn := u.Fn.(*ssa.Function)
				for i, b := range u.Bindings {
					if b == v {
						walk(fn.FreeVars[i])
					}
				}
			case *ssa.Return:
				for i, q := range u.Results {
					if q != v {
						continue
					}
					for _, c := range p.callsOf(u.Parent()) {
						if len(u.Results) == 1 {
							walk(c)
							continue
						}
						for _, ex := range *c.Referrers() {
							if e, ok := ex.(*ssa.Extract); ok && e.Index == i {
								walk(e)
							}
						}
					}
				}
			case ssa.CallInstruction:
				com := u.Common()
				known := false
				for _, g := range p.callees(com) {
					if len(g.Blocks) == 0 || !p.inRepo(g) {
						continue
					}
					known = true
					off := len(g.Params) - len(com.Args)
					for i, a := range com.Args {
						if a == v && i+off >= 0 {
							walk(g.Params[i+off])
						}
					}
				}
				if !known && visit(in, v) {
					if val, ok := in.(ssa.Value); ok {
						walk(val)
					}
				}
			default:
				if visit(in, v) {
					if val, ok := in.(ssa.Value); ok {
						walk(val)
					}
				}
			}
		}
	}
	for _, v := range from {
		walk(v)
	}
}

// cellLoads lists the reads of a local variable, here or in closures.
func (p *Prog) cellLoads(cell *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && cellOf(u.X) == cell {
					out = append(out, u)
				}
			}
		}
	}
	return out
}

// callsOf lists the calls whose result is what f returns.
func (p *Prog) callsOf(f *ssa.Function) []*ssa.Call {
	var out []*ssa.Call
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					for _, h := range p.callees(c.Common()) {
						if h == f {
							out = append(out, c)
						}
					}
				}
			}
		}
	}
	return out
}

// storeTarget gives the field that an instruction stores v into.
func storeTarget(in ssa.Instruction, v ssa.Value) (fieldID, bool) {
	var addr ssa.Value
	switch in := in.(type) {
	case *ssa.Store:
		addr = in.Addr
	case ssa.CallInstruction:
		f := in.Common().StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync/atomic" || len(in.Common().Args) < 2 || in.Common().Args[0] == v {
			return fieldID{}, false
		}
		addr = in.Common().Args[0]
	}
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		return fieldIDOf(fa), true
	}
	return fieldID{}, false
}

func isArith(op token.Token) bool {
	return op == token.ADD || op == token.SUB || op == token.MUL || op == token.QUO
}

// bitCast recognises the conversion of a float to its bits and back.
func bitCast(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "math"
}

func isMaxMin(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && (b.Name() == "max" || b.Name() == "min")
}

// rateCells finds the fields that receive the initial rate or a value computed from it.
func (p *Prog) rateCells(m *modelType) map[fieldID]bool {
	cells := map[fieldID]bool{}
	p.flow(p.optLoads(m, "Initlr"), func(in ssa.Instruction, v ssa.Value) bool {
		if id, ok := storeTarget(in, v); ok && !strings.HasSuffix(id.typ, ".Options") {
			cells[id] = true
		}
		if b, ok := in.(*ssa.BinOp); ok {
			return isArith(b.Op)
		}
		return bitCast(in) || isMaxMin(in)
	})
	return cells
}

func (p *Prog) rateFlows(r *Rep, m *modelType, cells map[fieldID]bool) {
	n := 0
	p.flow(p.optLoads(m, "Initlr"), func(in ssa.Instruction, v ssa.Value) bool {
		switch u := in.(type) {
		case *ssa.BinOp:
			return isArith(u.Op)
		case *ssa.Store:
			if _, ok := u.Addr.(*ssa.IndexAddr); ok {
				r.bad("through-cell", m.Name+" "+fnName(u.Parent()), "a value computed from the initial learning rate is put into a vector without passing the shared cell, where it is limited (%s)", p.posOf(in))
			}
			n++
		case *ssa.Send:
			r.bad("through-cell", m.Name+" "+fnName(u.Parent()), "a learning rate is handed over on a channel, past the shared cell (%s)", p.posOf(in))
		case ssa.CallInstruction:
			n++
			return bitCast(in) || isMaxMin(in)
		}
		return false
	})
	if n > 0 {
		r.ok("through-cell", m.Name)
	}
	loads := p.cellReads(cells)
	for _, l := range loads {
		r.ok("as-is", m.Name+" "+fnName(l.(ssa.Instruction).Parent()))
	}
	p.flow(loads, func(in ssa.Instruction, v ssa.Value) bool {
		b, ok := in.(*ssa.BinOp)
		if !ok || !isArith(b.Op) || !isFloat(b.Type()) {
			return bitCast(in)
		}
		other := b.X
		if b.X == v {
			other = b.Y
		}
		switch {
		case b.Op != token.MUL:
			r.bad("as-is", m.Name+" "+fnName(b.Parent()), "the learning rate is changed before it is used: %s (%s)", b, p.posOf(in))
		case p.scalarOnly(other):
			r.bad("as-is", m.Name+" "+fnName(b.Parent()), "the learning rate is scaled by %s before it is used (%s)", other.Name(), p.posOf(in))
		}
		return false
	})
}

// cellReads lists the values that are read from a rate cell.
func (p *Prog) cellReads(cells map[fieldID]bool) []ssa.Value {
	var out []ssa.Value
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch u := in.(type) {
				case *ssa.UnOp:
					if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL && cells[fieldIDOf(fa)] {
						out = append(out, u)
					}
				case *ssa.Call:
					g := u.Call.StaticCallee()
					if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync/atomic" || !strings.HasPrefix(g.Name(), "Load") || len(u.Call.Args) == 0 {
						continue
					}
					if fa, ok := u.Call.Args[0].(*ssa.FieldAddr); ok && cells[fieldIDOf(fa)] {
						out = append(out, u)
					}
				}
			}
		}
	}
	return out
}

// scalarOnly reports a factor that no vector element or training value goes
// into: constants, counters and hyperparameters.
func (p *Prog) scalarOnly(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, q := range p.sources(v) {
			switch u := q.(type) {
			case *ssa.Const:
			case *ssa.BinOp:
				if !walk(u.X) || !walk(u.Y) {
					return false
				}
			case *ssa.Convert:
				if p.fewValues(u.X) {
					return false // the label of a sample
				}
				if !walk(u.X) {
					return false
				}
			case *ssa.UnOp:
				if u.Op == token.SUB {
					if !walk(u.X) {
						return false
					}
					continue
				}
				if _, ok := u.X.(*ssa.FieldAddr); !ok || u.Op != token.MUL {
					return false
				}

			case *ssa.Field:
			case *ssa.Call:
				if _, ok := u.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				return false
			default:
				return false
			}
		}
		return true
	}
	return walk(v)
}

// fewValues reports a number that is computed from constants only, and not in rounds.
func (p *Prog) fewValues(v ssa.Value) bool {
	open := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		for _, q := range p.sources(v) {
			switch u := q.(type) {
			case *ssa.Const:
			case *ssa.BinOp:
				if open[u] {
					return false
				}
				open[u] = true
				if !walk(u.X) || !walk(u.Y) {
					return false
				}
				delete(open, u)
			default:
				return false
			}
		}
		return true
	}
	return walk(v)
}
