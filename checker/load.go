package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ynqa/wego"

// Prog is the type-checked program of /repo in SSA form.
type Prog struct {
	Dir   string
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package // by import path; repository packages only
	Types map[string]*types.Package
	Fset  *token.FileSet
	Funcs []*ssa.Function // every function with a body, including closures
	live  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool

	argCache  map[*ssa.Parameter][]ssa.Value
	addrTaken map[*ssa.Function]bool
	instant   map[types.Type]bool // concrete types converted to an interface
}

type loadError struct{ msg string }

func (e loadError) Error() string { return e.msg }

func load(dir string, overlay map[string][]byte) (*Prog, error) {
	fnMods, ownMods = nil, nil
	ps, err := loadSyntax(dir, overlay)
	if err != nil {
		return nil, loadError{err.Error()}
	}
	var bad []string
	for _, p := range ps {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	}
	if len(bad) > 0 {
		return nil, loadError{"the packages do not type-check: " + strings.Join(bad, "; ")}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{
		Dir: dir, SSA: prog, Pkgs: map[string]*ssa.Package{}, Types: map[string]*types.Package{},
		Fset: prog.Fset, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		addrTaken: map[*ssa.Function]bool{}, instant: map[types.Type]bool{},
	}
	for _, k := range pkgs {
		if k == nil {
			return nil, loadError{"a package has no SSA form"}
		}
		p.Pkgs[k.Pkg.Path()] = k
		p.Types[k.Pkg.Path()] = k.Pkg
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if len(f.Blocks) == 0 {
			continue
		}
		p.Funcs = append(p.Funcs, f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.MUL) && !isString(bo.Type()) {
					// 1 + i is i + 1
					if _, c := bo.X.(*ssa.Const); c {
						bo.X, bo.Y = bo.Y, bo.X
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					p.instant[mi.X.Type()] = true
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					p.addrTaken[mc.Fn.(*ssa.Function)] = true
					continue
				}
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok && *op != callee {
						p.addrTaken[fn] = true
					}
				}
			}
		}
	}
	return p, nil
}

// inRepo reports whether fn is declared (or generated from a declaration) in the repository.
func (p *Prog) inRepo(fn *ssa.Function) bool {
	pk := pkgOf(fn)
	return pk != nil && p.Pkgs[pk.Path()] != nil
}

func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if o := f.Origin(); o != nil && o != f {
			return pkgOf(o)
		}
	}
	return nil
}

func (p *Prog) pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.Pkgs[modPath]
	}
	return p.Pkgs[modPath+"/"+rel]
}

// fn finds a package-level function by its package path within the repository and its name.
func (p *Prog) fn(rel, name string) *ssa.Function {
	k := p.pkg(rel)
	if k == nil {
		return nil
	}
	return k.Func(name)
}

// method finds a method of a named type of the repository.
func (p *Prog) method(rel, typ, name string) *ssa.Function {
	k := p.pkg(rel)
	if k == nil {
		return nil
	}
	tn, _ := k.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if tn == nil {
		return nil
	}
	return p.methodOf(tn.Type(), name)
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				return p.SSA.MethodValue(s)
			}
		}
	}
	return nil
}

func (p *Prog) namedType(rel, typ string) types.Type {
	k := p.pkg(rel)
	if k == nil {
		return nil
	}
	tn, _ := k.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if tn == nil {
		return nil
	}
	return tn.Type()
}

// implementers lists the concrete repository types that implement iface and
// are converted to some interface (that is, could be its dynamic type).
func (p *Prog) implementers(iface *types.Interface) []types.Type {
	var out []types.Type
	seen := map[string]bool{}
	for t := range p.instant {
		if types.IsInterface(t) {
			continue
		}
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil || p.Pkgs[n.Obj().Pkg().Path()] == nil {
			continue
		}
		if types.Implements(t, iface) && !seen[t.String()] {
			seen[t.String()] = true
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func (p *Prog) ifaceOf(rel, name string) *types.Interface {
	t := p.namedType(rel, name)
	if t == nil {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

// pos renders a position relative to the repository.
func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) posOf(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// the nearest instruction of the block with a position
	b := in.Block()
	if b != nil {
		best := token.NoPos
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				best = x.Pos()
			}
			if x == in && best.IsValid() {
				break
			}
		}
		if best.IsValid() {
			return p.pos(best)
		}
	}
	if in.Parent() != nil && in.Parent().Pos().IsValid() {
		return p.pos(in.Parent().Pos())
	}
	return "?"
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

// extName gives "path.Name" or "(path.T).M" for a callee outside the repository.
func qualName(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return objName(f)
		}
	}
	return fn.String()
}

func objName(f *types.Func) string {
	f = f.Origin()
	sig, _ := f.Type().(*types.Signature)
	pk := ""
	if f.Pkg() != nil {
		pk = f.Pkg().Path()
	}
	if sig != nil && sig.Recv() != nil {
		n := namedOf(sig.Recv().Type())
		if n != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + f.Name()
		}
		return pk + ".?." + f.Name()
	}
	return pk + "." + f.Name()
}

// liveIn computes which values are live at the entry of each block.
func (p *Prog) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := p.live[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := liveOut(b, in)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				addUses(cur, ins)
			}
			if len(cur) != len(in[b]) {
				in[b] = cur
				changed = true
			}
		}
	}
	p.live[fn] = in
	return in
}

func addUses(cur map[ssa.Value]bool, ins ssa.Instruction) {
	for _, op := range ins.Operands(nil) {
		if op == nil || *op == nil {
			continue
		}
		switch (*op).(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		default:
			cur[*op] = true
		}
	}
}

func liveOut(b *ssa.BasicBlock, in map[*ssa.BasicBlock]map[ssa.Value]bool) map[ssa.Value]bool {
	cur := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range in[s] {
			cur[v] = true
		}
		for k, pr := range s.Preds {
			if pr != b {
				continue
			}
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				delete(cur, ph)
				_ = k
			}
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				switch ph.Edges[k].(type) {
				case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
				default:
					cur[ph.Edges[k]] = true
				}
			}
		}
	}
	return cur
}

// liveAfter computes which values are live right after ins.
func (p *Prog) liveAfter(ins ssa.Instruction) map[ssa.Value]bool {
	b := ins.Block()
	in := p.liveIn(b.Parent())
	cur := liveOut(b, in)
	for j := len(b.Instrs) - 1; j >= 0; j-- {
		x := b.Instrs[j]
		if x == ins {
			break
		}
		if v, ok := x.(ssa.Value); ok {
			delete(cur, v)
		}
		if _, ok := x.(*ssa.Phi); ok {
			continue
		}
		addUses(cur, x)
	}
	return cur
}

// loopHead reports whether the edge pred->b closes a loop.
func backEdge(pred, b *ssa.BasicBlock) bool { return b.Dominates(pred) }

// natLoop returns the blocks of the natural loops headed by h.
func natLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			body[h] = true
			stack = append(stack, p)
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if body[b] {
			continue
		}
		body[b] = true
		stack = append(stack, b.Preds...)
	}
	return body
}
