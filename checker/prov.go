package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- where values come from, without regard to paths ----

// sources lists the values that v may be: phis, parameters, captured
// variables, local variables, conversions and assertions are followed. A
// parameter that is called from outside the analysed code stays a parameter.
func (p *Prog) sources(v ssa.Value) []ssa.Value { return p.sourcesThrough(v, nil) }

// sourcesThrough also follows calls of the functions that follow accepts to
// what they return.
func (p *Prog) sourcesThrough(v ssa.Value, follow func(f *ssa.Function) bool) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
			return
		case *ssa.ChangeType:
			walk(v.X)
			return
		case *ssa.Convert:
			if isIntType(v.Type()) && isIntType(v.X.Type()) {
				walk(v.X)
				return
			}
		case *ssa.MakeInterface:
			walk(v.X)
			return
		case *ssa.TypeAssert:
			if !v.CommaOk {
				walk(v.X)
				return
			}
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if cell := cellOf(v.X); cell != nil {
					for _, st := range p.cellStores(cell) {
						walk(st)
					}
					return
				}
			}
		case *ssa.Parameter:
			args := p.argsOf(v)
			if len(args) > 0 {
				for _, a := range args {
					walk(a)
				}
				return
			}
		case *ssa.Call, *ssa.Extract:
			n := 0
			call, ok := v.(*ssa.Call)
			if ex, isEx := v.(*ssa.Extract); isEx {
				call, ok = ex.Tuple.(*ssa.Call)
				n = ex.Index
			}
			if ok && follow != nil {
				if f := call.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && p.inRepo(f) && follow(f) && n < f.Signature.Results().Len() {
					for _, b := range f.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							walk(ret.Results[n])
						}
					}
					return
				}
			}
		case *ssa.FreeVar:
			bs := p.bindingsOf(v)
			if len(bs) > 0 {
				for _, b := range bs {
					walk(b)
				}
				return
			}
		}
		out = append(out, v)
	}
	walk(v)
	return out
}

// cellStores lists the values that are stored into a local variable, here or
// in the closures that capture it.
func (p *Prog) cellStores(cell *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && cellOf(st.Addr) == cell {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// argsOf lists what is passed for a parameter at every call of its function.
func (p *Prog) argsOf(v *ssa.Parameter) []ssa.Value {
	if p.argCache == nil {
		p.argCache = map[*ssa.Parameter][]ssa.Value{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					com := c.Common()
					for _, g := range p.callees(com) {
						args := com.Args
						if com.IsInvoke() {
							args = append([]ssa.Value{com.Value}, args...)
						}
						off := len(g.Params) - len(args)
						if off < 0 {
							continue
						}
						for i, a := range args {
							q := g.Params[i+off]
							p.argCache[q] = append(p.argCache[q], a)
						}
					}
				}
			}
		}
	}
	return p.argCache[v]
}

// callersOf lists the functions that call f.
func (p *Prog) callersOf(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range p.Funcs {
		calls := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, h := range p.callees(c.Common()) {
						calls = calls || h == f
					}
				}
			}
		}
		if calls {
			out = append(out, g)
		}
	}
	return out
}

// callees lists the analysed functions that a call may invoke.
func (p *Prog) callees(com *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	switch {
	case com.IsInvoke():
		if it, ok := com.Value.Type().Underlying().(*types.Interface); ok {
			for _, t := range p.implementers(it) {
				if f := p.methodOf(t, com.Method.Name()); f != nil {
					out = append(out, f)
				}
			}
		}
	case com.StaticCallee() != nil:
		out = append(out, com.StaticCallee())
	default:
		if _, ok := com.Value.(*ssa.Builtin); !ok {
			for _, g := range p.Funcs {
				if p.addrTaken[g] && types.Identical(g.Signature, com.Signature()) {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// bindingsOf lists what a closure captures as v.
func (p *Prog) bindingsOf(v *ssa.FreeVar) []ssa.Value {
	idx := -1
	for i, q := range v.Parent().FreeVars {
		if q == v {
			idx = i
		}
	}
	var out []ssa.Value
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == v.Parent() && idx >= 0 {
					out = append(out, mc.Bindings[idx])
				}
			}
		}
	}
	return out
}

// fieldID names a field of a type.
type fieldID struct {
	typ   string
	field string
}

func (f fieldID) String() string { return short(f.typ) + "." + f.field }

func fieldOfAddr(a *Term) (fieldID, bool) {
	if a == nil || a.Kind != 'o' || a.Op != "fieldaddr" {
		return fieldID{}, false
	}
	return fieldID{strings.TrimPrefix(typKey(a.Typ), "*"), fieldName(a.Typ, a.Field)}, true
}

// fieldOfValue gives the field that a value was read from, when it is the
// same one whatever path is taken.
func (p *Prog) fieldOfValue(v ssa.Value) (id fieldID, ok bool) {
	for i, src := range p.sources(v) {
		var t types.Type
		var n int
		switch src := src.(type) {
		case *ssa.UnOp:
			fa, isF := src.X.(*ssa.FieldAddr)
			if !isF || src.Op != token.MUL {
				return fieldID{}, false
			}
			t, n = fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field
		case *ssa.Field:
			t, n = src.X.Type(), src.Field
		default:
			return fieldID{}, false
		}
		this := fieldID{typKey(t), fieldName(t, n)}
		if i > 0 && this != id {
			return fieldID{}, false
		}
		id, ok = this, true
	}
	return id, ok
}

func fieldIDOf(fa *ssa.FieldAddr) fieldID {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return fieldID{typKey(t), fieldName(t, fa.Field)}
}
