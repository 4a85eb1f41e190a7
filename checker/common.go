package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the entry points ----

// models lists the methods of every type that implements model.Model.
type modelType struct {
	Name  string // package name
	Rel   string // package path relative to the module
	Typ   types.Type
	Train *ssa.Function
	Save  *ssa.Function
	WV    *ssa.Function
	New   *ssa.Function
	NewFO *ssa.Function
	Opts  *types.Named
	Pkg   *ssa.Package
}

func (p *Prog) models(r *Rep) []*modelType {
	var out []*modelType
	it := p.ifaceOf("pkg/model", "Model")
	if it == nil {
		r.bad("entry-points", "model.Model", "the interface model.Model is not found")
		return nil
	}
	for _, t := range p.implementers(it) {
		n := namedOf(t)
		if n == nil {
			continue
		}
		m := &modelType{Typ: t, Name: n.Obj().Pkg().Name()}
		m.Pkg = p.Pkgs[n.Obj().Pkg().Path()]
		m.Train, m.Save, m.WV = p.methodOf(t, "Train"), p.methodOf(t, "Save"), p.methodOf(t, "WordVector")
		m.New, m.NewFO = m.Pkg.Func("New"), m.Pkg.Func("NewForOptions")
		if o := m.Pkg.Type("Options"); o != nil {
			m.Opts, _ = o.Type().(*types.Named)
		}
		if m.Train == nil || m.Save == nil || m.WV == nil || m.New == nil || m.NewFO == nil || m.Opts == nil {
			r.bad("entry-points", m.Name, "a model without Train, Save, WordVector, New, NewForOptions or Options")
			continue
		}
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	if len(out) < 3 {
		r.bad("entry-points", "models", "only %d models found", len(out))
	}
	return out
}

// opt is the term of a hyperparameter of m, nil when m has none of that name.
func (m *modelType) opt(name string) *Term {
	st := m.Opts.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkOpt(m.Opts, name, st.Field(i).Type())
		}
	}
	return nil
}

func (m *modelType) optFields() []*types.Var {
	st := m.Opts.Underlying().(*types.Struct)
	var out []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i))
	}
	return out
}

// setOpt assumes a bool, string or positive int hyperparameter.
func (m *modelType) setBool(s *State, name string, v bool) {
	if t := m.opt(name); t != nil {
		s.assume(t, v)
	}
}

func (m *modelType) setStr(s *State, name, v string) {
	if t := m.opt(name); t != nil {
		s.addStr(t, mkStr(v), true)
	}
}

func (m *modelType) setMin(s *State, name string, n int64) {
	if t := m.opt(name); t != nil && isSignedInt(t.Typ) {
		s.addLin(linOf(t), ival{hasLo: true, lo: n})
	}
}

// mode is one way to run Train.
type mode struct {
	M    *modelType
	Name string
	S    *State
}

// trainModes lists the modes of training: in memory or streamed.
func (m *modelType) trainModes() []mode {
	var out []mode
	for _, mem := range []bool{false, true} {
		s := newState()
		m.setBool(s, "DocInMemory", mem)
		n := m.Name + " streamed"
		if mem {
			n = m.Name + " in-memory"
		}
		out = append(out, mode{m, n, s})
	}
	return out
}

// ---- what a function may reach ----

// reaches computes the functions that contain an instruction of interest, or
// call (possibly through an interface or a function value) one that does.
func (p *Prog) reaches(interesting func(in ssa.Instruction) bool) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if interesting(in) {
					set[f] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if set[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, g := range p.mayCall(in) {
						if set[g] && !set[f] {
							set[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return set
}

// mayCall lists the repository functions an instruction may call, start or hand over as a value.
func (p *Prog) mayCall(in ssa.Instruction) []*ssa.Function {
	var out []*ssa.Function
	if mc, ok := in.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	com := c.Common()
	for _, a := range com.Args {
		if f, ok := a.(*ssa.Function); ok {
			out = append(out, f)
		}
	}
	switch {
	case com.IsInvoke():
		if it, ok := com.Value.Type().Underlying().(*types.Interface); ok {
			for _, t := range p.implementers(it) {
				if f := p.methodOf(t, com.Method.Name()); f != nil {
					out = append(out, f)
				}
			}
		}
	case com.StaticCallee() != nil:
		out = append(out, com.StaticCallee())
	default:
		if _, ok := com.Value.(*ssa.Builtin); !ok {
			for _, g := range p.Funcs {
				if p.addrTaken[g] && types.Identical(g.Signature, com.Signature()) {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// isVerboseDo recognises the helper that runs a function in verbose mode only.
func isVerboseDo(name string) bool { return strings.HasSuffix(name, "/verbose.Verbose.Do") }

// errResults gives the terms of the error results of a call instruction.
func errResults(f *Frame, in ssa.Instruction) []*Term {
	v, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	l := mkLeaf(f, v, "")
	switch t := v.Type().(type) {
	case *types.Tuple:
		var out []*Term
		for i := 0; i < t.Len(); i++ {
			if isErrorType(t.At(i).Type()) {
				out = append(out, mkOpX("extract", t.At(i).Type(), nil, i, l))
			}
		}
		return out
	default:
		if isErrorType(t) {
			return []*Term{l}
		}
	}
	return nil
}

func sigHasError(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrorType(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// isRecv recognises receiving from a channel.
func isRecv(in ssa.Instruction) (*ssa.UnOp, bool) {
	u, ok := in.(*ssa.UnOp)
	return u, ok && u.Op == token.ARROW
}

// shortFn names a function for reports, without its package's full path.
func shortFn(f *ssa.Function) string { return strings.ReplaceAll(qualName(f), modPath+"/", "") }

func short(name string) string { return strings.ReplaceAll(name, modPath+"/", "") }

func sortedMem(s *State) []*Term {
	var as []*Term
	for a := range s.mem {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return as
}
