package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- facts about the whole program, independent of any path ----

// concurrentCells finds local variables that a goroutine assigns: their
// content is not tracked.
func (p *Prog) concurrentCells() map[*ssa.Alloc]bool {
	out := map[*ssa.Alloc]bool{}
	var stored func(fn *ssa.Function, fv *ssa.FreeVar) bool
	stored = func(fn *ssa.Function, fv *ssa.FreeVar) bool {
		for _, r := range *fv.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == fv {
					return true
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == fv && stored(r.Fn.(*ssa.Function), r.Fn.(*ssa.Function).FreeVars[i]) {
						return true
					}
				}
			}
		}
		return false
	}
	mark := func(v ssa.Value) {
		mc, ok := v.(*ssa.MakeClosure)
		if !ok {
			return
		}
		fn := mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			if stored(fn, fn.FreeVars[i]) {
				if al := cellOf(b); al != nil {
					out[al] = true
				}
			}
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					mark(in.Call.Value)
				case *ssa.Call:
					if c := in.Call.StaticCallee(); c != nil && (strings.HasSuffix(qualName(c), "Group.Go") || strings.HasSuffix(qualName(c), "Group.TryGo")) {
						for _, a := range in.Call.Args {
							mark(a)
						}
					}
				}
			}
		}
	}
	return out
}

// cellOf follows a captured variable to its declaration.
func cellOf(v ssa.Value) *ssa.Alloc {
	switch v := v.(type) {
	case *ssa.Alloc:
		return v
	case *ssa.FreeVar:
		fn := v.Parent()
		idx := -1
		for i, fv := range fn.FreeVars {
			if fv == v {
				idx = i
			}
		}
		if fn.Parent() == nil {
			return nil
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && idx >= 0 {
					return cellOf(mc.Bindings[idx])
				}
			}
		}
	}
	return nil
}

// mutableOptions lists hyperparameters that are assigned elsewhere than in a
// function that receives a *Options to fill in (an option, LoadForCmd) or that
// builds the defaults.
func (p *Prog) mutableOptions() map[string]bool {
	out := map[string]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(fa.X.Type())
				if n == nil || n.Obj().Name() != "Options" || n.Obj().Pkg() == nil || p.Pkgs[n.Obj().Pkg().Path()] == nil {
					continue
				}
				if _, isParam := fa.X.(*ssa.Parameter); isParam {
					continue // a setter
				}
				if al, ok := fa.X.(*ssa.Alloc); ok {
					// a composite literal being built: the variable is never assigned as a whole
					whole := false
					for _, r := range *al.Referrers() {
						if s2, ok := r.(*ssa.Store); ok && s2.Addr == al {
							whole = true
						}
					}
					if !whole {
						continue
					}
				}
				out[n.Obj().Pkg().Path()+"."+fieldName(fa.X.Type(), fa.Field)] = true
			}
		}
	}
	return out
}

var constGlobals = map[*ssa.Global]int{}

// constGlobal reports whether a package variable keeps its value once the
// program is initialised (or, for another package, is taken to).
func (p *Prog) constGlobal(g *ssa.Global) bool {
	if v, ok := constGlobals[g]; ok {
		return v == 1
	}
	r := 1
	if g.Pkg != nil && p.Pkgs[g.Pkg.Pkg.Path()] != nil {
		for _, f := range p.Funcs {
			if initFunc(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						r = 0
					}
					// a struct or array variable can be changed through a part of it
					switch in := in.(type) {
					case *ssa.FieldAddr:
						if in.X == g {
							r = 0
						}
					case *ssa.IndexAddr:
						if in.X == g {
							r = 0
						}
					case ssa.CallInstruction:
						for _, a := range in.Common().Args {
							if a == g && strings.HasPrefix(callName(in), "sync/atomic.") {
								r = 0
							}
						}
					}
				}
			}
		}
	}
	constGlobals[g] = r
	return r == 1
}

func callName(c ssa.CallInstruction) string {
	com := c.Common()
	if com.IsInvoke() {
		return objName(com.Method)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := com.StaticCallee(); f != nil {
		return qualName(f)
	}
	return ""
}

// modSet is a set of kinds of memory that some code may assign.
type modSet struct {
	k   map[string]bool
	all bool
}

func (m *modSet) add(k string) bool {
	if m.k[k] {
		return false
	}
	m.k[k] = true
	return true
}

func addrKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return "F:" + typKey(v.X.Type().Underlying().(*types.Pointer).Elem()) + "." + fieldName(v.X.Type(), v.Field)
	case *ssa.IndexAddr:
		return "I:" + typKey(v.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Global:
		return "G:" + v.String()
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		return "C:" + typKey(p.Elem())
	}
	return "?"
}

func termKey(a *Term) string {
	switch {
	case a.Kind == 'o' && a.Op == "fieldaddr":
		return "F:" + typKey(a.Typ) + "." + fieldName(a.Typ, a.Field)
	case a.Kind == 'o' && a.Op == "indexaddr":
		if t := elemTyp(a); t != nil {
			return "I:" + typKey(t)
		}
	case a.Kind == 'g':
		return "G:" + a.Val.String()
	}
	if t := elemTyp(a); t != nil {
		return "C:" + typKey(t)
	}
	return "?"
}

func (m *modSet) has(a *Term) bool {
	if m.all || m.k["?"] {
		return true
	}
	for x := a; ; x = x.Args[0] {
		if m.k[termKey(x)] {
			return true
		}
		if t := elemTyp(x); t != nil && m.k["C:"+typKey(t)] {
			return true
		}
		if !isPath(x) {
			return false
		}
	}
}

// fnMods is what each function may assign. ownMods is that without what the
// functions assign that it is given as arguments, which depends on the call.
var fnMods, ownMods map[*ssa.Function]*modSet
var loopModCache = map[*ssa.BasicBlock]*modSet{}

func (p *Prog) instrMods(in ssa.Instruction, m *modSet, own bool) bool {
	ch := false
	mods := fnMods
	switch in := in.(type) {
	case *ssa.Store:
		ch = m.add(addrKey(in.Addr))
	case ssa.CallInstruction:
		com := in.Common()
		name := callName(in)
		var fs []*ssa.Function
		switch {
		case com.IsInvoke():
			if it, ok := com.Value.Type().Underlying().(*types.Interface); ok {
				for _, t := range p.implementers(it) {
					if f := p.methodOf(t, com.Method.Name()); f != nil {
						fs = append(fs, f)
					}
				}
			}
		case com.StaticCallee() != nil:
			g := com.StaticCallee()
			if len(g.Blocks) > 0 && g.Signature.Variadic() == false {
				known, any := true, false
				for _, a := range com.Args {
					if _, isF := a.Type().Underlying().(*types.Signature); !isF {
						continue
					}
					any = true
					switch a.(type) {
					case *ssa.MakeClosure, *ssa.Function:
					case *ssa.Parameter:
						known = known && own
					default:
						known = false
					}
				}
				if known && any {
					for k := range ownMods[g].k {
						if m.add(k) {
							ch = true
						}
					}
					// what it is given follows below
					fs = nil
					for _, a := range com.Args {
						switch a := a.(type) {
						case *ssa.MakeClosure:
							fs = append(fs, a.Fn.(*ssa.Function))
						case *ssa.Function:
							fs = append(fs, a)
						}
					}
					for _, f := range fs {
						if s := mods[f]; s != nil {
							for k := range s.k {
								if m.add(k) {
									ch = true
								}
							}
						}
					}
					return ch
				}
			}
			fs = append(fs, g)
		case name == "" && own && isParam(com.Value):
		case name == "":
			for _, g := range p.Funcs {
				if p.addrTaken[g] && types.Identical(g.Signature, com.Signature()) {
					fs = append(fs, g)
				}
			}
		}
		for _, a := range com.Args {
			switch a := a.(type) {
			case *ssa.MakeClosure:
				fs = append(fs, a.Fn.(*ssa.Function))
			case *ssa.Function:
				fs = append(fs, a)
			}
			// other packages may assign the elements of what they are given
			if len(fs) == 0 || len(fs[0].Blocks) == 0 {
				t := a.Type()
				if mi, ok := a.(*ssa.MakeInterface); ok {
					t = mi.X.Type()
				}
				if sl, ok := t.Underlying().(*types.Slice); ok && !strings.HasPrefix(name, "builtin.") && !readOnlyFunc(name) && !pureFunc(name) {
					if m.add("I:" + typKey(sl.Elem())) {
						ch = true
					}
				}
			}
			// other packages may assign what they are given the address of
			if len(fs) == 0 || len(fs[0].Blocks) == 0 {
				if _, ok := a.Type().Underlying().(*types.Pointer); ok {
					if m.add(addrKey(a)) {
						ch = true
					}
				}
			}
		}
		if name == "builtin.copy" || name == "builtin.append" {
			if sl, ok := com.Args[0].Type().Underlying().(*types.Slice); ok && name == "builtin.copy" {
				if m.add("I:" + typKey(sl.Elem())) {
					ch = true
				}
			}
		}
		for _, f := range fs {
			if s := mods[f]; s != nil {
				for k := range s.k {
					if m.add(k) {
						ch = true
					}
				}
			}
		}
	}
	return ch
}

func isParam(v ssa.Value) bool {
	_, ok := v.(*ssa.Parameter)
	return ok
}

func (p *Prog) computeMods() {
	if fnMods != nil {
		return
	}
	fnMods, ownMods = map[*ssa.Function]*modSet{}, map[*ssa.Function]*modSet{}
	for _, f := range p.Funcs {
		fnMods[f] = &modSet{k: map[string]bool{}}
		ownMods[f] = &modSet{k: map[string]bool{}}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if p.instrMods(in, fnMods[f], false) {
						changed = true
					}
					if p.instrMods(in, ownMods[f], true) {
						changed = true
					}
				}
			}
		}
	}
}

// loopMods tells what the natural loop headed by h may assign.
func (p *Prog) loopMods(h *ssa.BasicBlock) *modSet {
	p.computeMods()
	if m, ok := loopModCache[h]; ok {
		return m
	}
	m := &modSet{k: map[string]bool{}}
	for b := range natLoop(h) {
		for _, in := range b.Instrs {
			p.instrMods(in, m, false)
		}
	}
	loopModCache[h] = m
	return m
}

// loopModsIn is loopMods in a frame: what the loop does with the functions that
// the frame was given is known from where it was called.
func (p *Prog) loopModsIn(f *Frame, h *ssa.BasicBlock) *modSet {
	all := p.loopMods(h)
	var fs []*ssa.Function
	for i, q := range f.Fn.Params {
		if _, ok := q.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		g := f.funcParam(i)
		if g == nil {
			return all
		}
		fs = append(fs, g)
	}
	if len(fs) == 0 {
		return all
	}
	m := &modSet{k: map[string]bool{}}
	for b := range natLoop(h) {
		for _, in := range b.Instrs {
			p.instrMods(in, m, true)
		}
	}
	for _, g := range fs {
		for k := range fnMods[g].k {
			m.add(k)
		}
	}
	return m
}

// funcParam gives the function that the i-th parameter is, if it is known
// from the calls that lead to the frame.
func (f *Frame) funcParam(i int) *ssa.Function {
	c, ok := f.Site.(ssa.CallInstruction)
	if f.Kind != "call" || !ok || f.Parent == nil || c.Common().StaticCallee() != f.Fn || i >= len(c.Common().Args) {
		return nil
	}
	switch a := c.Common().Args[i].(type) {
	case *ssa.MakeClosure:
		return a.Fn.(*ssa.Function)
	case *ssa.Function:
		return a
	case *ssa.Parameter:
		for j, q := range f.Parent.Fn.Params {
			if q == a {
				return f.Parent.funcParam(j)
			}
		}
	}
	return nil
}

var _ = token.ADD
