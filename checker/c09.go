package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C09",
		Technique: "interprocedural path-sensitive interval analysis over go/ssa, with the hyperparameters as symbols",
		Explanation: "NewForOptions and New are analysed under the assumption that one numeric option is zero or negative: every return must be an error; New must hand NewForOptions the options as its arguments left them, and nothing changes them afterwards. " +
			"What holds of the options when they succeed is then assumed in Train and Save, where every integer divisor, every size of a slice or channel and every semaphore weight that depends on an option must be in range.",
		Run: runC09,
	})
}

// mentions reports whether a term contains one that satisfies f.
func mentions(t *Term, f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, f) {
			return true
		}
	}
	return false
}

func isOptTerm(t *Term) bool { return t.Kind == 'o' && t.Op == "opt" }

// optReads lists the hyperparameters of m that the functions reachable from
// the given roots read.
func (p *Prog) optReads(m *modelType, roots ...*ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	for _, root := range roots {
		for f := range p.reachable(root) {
			if seen[f] {
				continue
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Field:
						if n := namedOf(in.X.Type()); n == m.Opts {
							out[fieldName(in.X.Type(), in.Field)] = true
						}
					case *ssa.FieldAddr:
						if n := namedOf(in.X.Type()); n == m.Opts {
							for _, ref := range *in.Referrers() {
								if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
									out[fieldName(in.X.Type(), in.Field)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func isIntType(t types.Type) bool { return isSignedInt(t) || isUnsigned(t) }

func runC09(r *Rep) {
	r.rule("rejected", 26, "a zero or negative value of an option that training uses is an error")
	r.rule("divisor", 10, "an integer divisor that depends on an option is not zero")
	r.rule("size", 10, "a size that depends on an option is not negative")
	r.rule("pool", 2, "a pool that is sized by an option is not empty")
	r.rule("semaphore", 3, "a semaphore weighted by an option is not empty")
	r.rule("option", 40, "an option assigns the hyperparameter it names, and nothing else")
	r.rule("new", 3, "New applies each option once, in order, to the defaults, and has the result checked")
	r.rule("kept", 3, "the options of a model are those that were checked")
	p := r.P
	all := func(k *Call) bool { return true }
	sink := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.BinOp:
			return (in.Op == token.QUO || in.Op == token.REM) && isIntType(in.Type())
		case *ssa.MakeSlice, *ssa.MakeChan:
			return true
		case ssa.CallInstruction:
			return strings.HasSuffix(callName(in), "semaphore.NewWeighted")
		}
		return false
	}
	inl := relInline(p, sink)
	for _, m := range p.models(r) {
		used := p.optReads(m, m.Train, m.Save)
		setters := map[*ssa.Function]bool{}
		p.optionRule(r, m, setters)
		p.newRule(r, m)
		p.keptRule(r, m, setters)
		for _, f := range []string{"Dim", "Window", "Goroutines", "BatchSize", "LogBatch", "UpdateLRBatch"} {
			t := m.opt(f)
			if t == nil || !isIntType(t.Typ) {
				if t != nil {
					r.bad("rejected", m.Name+" "+f, "the option is not an integer")
				}
				continue
			}
			if !used[f] {
				r.note("%s does not use %s", m.Name, f)
				continue
			}
			for _, fn := range []*ssa.Function{m.NewFO, m.New} {
				s := newState()
				s.addLin(linOf(t), ival{hasHi: true})
				site := m.Name + " " + fn.Name() + " " + f
				n := 0
				for _, x := range p.follow(r, fn, nil, nil, s, &Client{Inline: all}, false, site) {
					n++
					r.must(x.Fail == 1, "rejected", site, "%s can return without an error (%s) when %s is zero or negative", fn.Name(), x.Pos, f)
				}
				if n == 0 {
					r.bad("rejected", site, "%s does not return", fn.Name())
				}
			}
		}
		ok, _ := p.create(r, m, newState(), m.Name)
		if len(ok) == 0 {
			r.bad("entry-points", m.Name, "NewForOptions never succeeds")
		}
		cl := sinkClient(r, m)
		cl.Inline = inl
		var base *State
		for _, c := range ok {
			if base == nil {
				base = c.S
			} else {
				base = base.join(c.S)
			}
		}
		if base == nil {
			continue
		}
		for _, mem := range []bool{false, true} {
			s := base.clone()
			m.setBool(s, "DocInMemory", mem)
			p.follow(r, m.Train, []*Term{ok[0].Recv}, nil, s, cl, true, m.Name+" Train")
		}
		p.follow(r, m.Save, nil, nil, base, cl, true, m.Name+" Save")
	}
}

// optAtLeast reports whether t >= n is known, when what it does not take from
// options is not negative.
func optAtLeast(s *State, t *Term, n int64) bool {
	t = s.norm(t)
	for t.Kind == 'o' && strings.HasPrefix(t.Op, "conv:") && len(t.Args) == 1 && isSignedInt(t.Args[0].Typ) {
		t = s.norm(t.Args[0])
	}
	if s.atLeast(t, n) {
		return true
	}
	if t.Kind == 'o' && t.Op == "*" && n <= 0 {
		for _, a := range t.Args {
			if mentions(a, isOptTerm) && !s.atLeast(a, 0) {
				return false
			}
		}
		return true
	}
	if t.Kind == 'o' && t.Op == "lin" {
		// terms that do not come from options are sizes
		acc := t.Add
		for i, a := range t.Args {
			if !mentions(a, isOptTerm) {
				if t.Coef[i] < 0 {
					return false
				}
				continue
			}
			v := s.ivalOf(linOf(a).times(t.Coef[i]))
			if !v.hasLo {
				if !(t.Coef[i] > 0 && optAtLeast(s, a, 0)) {
					return false
				}
				v.lo = 0
			}
			acc += v.lo
		}
		return acc >= n
	}
	return false
}

func sinkClient(r *Rep, m *modelType) *Client {
	p := r.P
	dep := func(x *Ctx, v ssa.Value) (*Term, bool) {
		t := x.S.norm(x.Val(v))
		return t, mentions(t, isOptTerm)
	}
	cl := &Client{}
	cl.Instr = func(x *Ctx) {
		site := m.Name + ": " + fnName(x.F.Fn)
		switch in := x.I.(type) {
		case *ssa.BinOp:
			if (in.Op == token.QUO || in.Op == token.REM) && isIntType(in.Type()) {
				if t, ok := dep(x, in.Y); ok {
					r.must(optAtLeast(x.S, t, 1), "divisor", site, "the divisor %s (%s) may be zero or negative", t, x.Pos())
				}
			}
		case *ssa.MakeSlice:
			for _, v := range []ssa.Value{in.Len, in.Cap} {
				if t, ok := dep(x, v); ok {
					r.must(optAtLeast(x.S, t, 0), "size", site, "the size %s (%s) may be negative", t, x.Pos())
				}
			}
		case *ssa.MakeChan:
			if t, ok := dep(x, in.Size); ok {
				r.must(optAtLeast(x.S, t, 0), "size", site, "the size %s of a channel (%s) may be negative", t, x.Pos())
				var sends func(ch ssa.Value, d int) bool
				sends = func(ch ssa.Value, d int) bool {
					for _, ref := range *ch.Referrers() {
						switch ref := ref.(type) {
						case *ssa.Send:
							if ref.Chan == ch {
								return true
							}
						case *ssa.ChangeType:
							if sends(ref, d) {
								return true
							}
						case *ssa.Call:
							g := ref.Call.StaticCallee()
							if g == nil || d > 3 {
								continue
							}
							for i, a := range ref.Call.Args {
								if a == ch && i < len(g.Params) && p.inRepo(g) && sends(g.Params[i], d+1) {
									return true
								}
							}
						}
					}
					return false
				}
				if sends(in, 0) {
					r.must(optAtLeast(x.S, t, 1), "pool", site, "the pool (%s) of size %s may be empty", x.Pos(), t)
				}
			}
		}
	}
	cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if strings.HasSuffix(k.Name, "semaphore.NewWeighted") {
			t := x.S.norm(k.Args[0])
			if mentions(t, isOptTerm) {
				r.must(optAtLeast(x.S, t, 1), "semaphore", m.Name+": "+fnName(x.F.Fn), "the semaphore (%s) has the weight %s, which may be zero", x.Pos(), t)
			} else if n, ok := constInt(t); ok {
				r.must(n >= 1, "semaphore", m.Name+": "+fnName(x.F.Fn), "the semaphore (%s) has the weight %d", x.Pos(), n)
			} else {
				r.bad("semaphore", m.Name+": "+fnName(x.F.Fn), "the weight of the semaphore (%s) is not known", x.Pos())
			}
		}
		return false, nil
	}
	return cl
}
