package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C31",
		Technique: "forward flow of the verbose flag to the branches that it decides, and an effect analysis of everything that only those branches run, over go/ssa",
		Explanation: "The verbose hyperparameter of each model is followed through fields, parameters and results to all its uses: it may only decide branches. All code that such a branch runs, with the closures that it calls, may only print: it stores to nothing that is read elsewhere, " +
			"sends, receives, locks, starts, stops and draws nothing, calls no function that does, and cannot panic; and no value that is computed afterwards depends on which branch was taken.",
		Run: runC31,
	})
}

type verboseMode struct {
	p     *Prog
	r     *Rep
	only  map[ssa.Instruction]bool // runs in verbose mode only
	fns   map[*ssa.Function]bool   // functions all of which is checked
	pure  map[*ssa.Function]string // callees: the first effect
	n     int
	sites map[string]string
}

func runC31(r *Rep) {
	r.rule("flag", 4, "the flag decides branches and nothing else")
	r.rule("branch", 1, "the branches that the flag decides meet again, with the same values")
	r.rule("effects", 10, "what is run in verbose mode only has no effect but its output")
	p := r.P
	v := &verboseMode{p: p, r: r, only: map[ssa.Instruction]bool{}, fns: map[*ssa.Function]bool{}, pure: map[*ssa.Function]string{}}
	var from []ssa.Value
	for _, m := range p.models(r) {
		ls := p.optLoads(m, "Verbose")
		if len(ls) == 0 {
			r.bad("flag", m.Name, "the verbose hyperparameter is never read")
		}
		for _, l := range ls {
			r.ok("flag", p.posOf(l.(ssa.Instruction)))
		}
		from = append(from, ls...)
	}
	from = p.throughFields(from)
	var ifs []*ssa.If
	seen := map[ssa.Instruction]bool{}
	p.flow(from, func(in ssa.Instruction, val ssa.Value) bool {
		switch u := in.(type) {
		case *ssa.If:
			if !seen[u] {
				seen[u] = true
				ifs = append(ifs, u)
			}
			return false
		case *ssa.UnOp:
			return u.Op == token.NOT
		case *ssa.BinOp:
			return true
		}
		if _, ok := storeTarget(in, val); ok {
			return false // the reads of the field are followed
		}
		if c, ok := in.(ssa.CallInstruction); ok && printing(c.Common()) {
			return false
		}
		if !seen[in] {
			seen[in] = true
			r.bad("flag", fnName(in.Parent())+" "+kindOf(in), "the flag is used by %s (%s)", in, p.posOf(in))
		}
		return false
	})
	r.must(len(ifs) > 0, "flag", "branches", "no branch depends on the flag")
	// what the branches run
	var todo []*ssa.Function
	for _, i := range ifs {
		todo = append(todo, v.branch(i)...)
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if v.fns[f] {
			continue
		}
		v.fns[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v.only[in] = true
				todo = append(todo, v.dynamic(in)...)
			}
		}
	}
	// their effects
	bad := map[string]string{}
	n := map[string]int{}
	var all []ssa.Instruction
	for in := range v.only {
		all = append(all, in)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Pos() < all[j].Pos() })
	for _, in := range all {
		k := fnName(in.Parent())
		n[k]++
		r.fns[in.Parent()] = true
		if e := v.effect(in); e != "" && bad[k] == "" {
			bad[k] = fmt.Sprintf("%s (%s)", e, p.posOf(in))
		}
	}
	for k := range n {
		r.must(bad[k] == "", "effects", k, "%s, in verbose mode only", bad[k])
	}
	r.note("%d branches, %d functions and %d instructions that only run in verbose mode", len(ifs), len(v.fns), len(all))
}

func kindOf(in ssa.Instruction) string {
	return strings.ToLower(strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa."))
}

// printing recognises functions that write to the console or make text.
func printing(com *ssa.CallCommon) bool {
	f := com.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "fmt":
		if strings.HasPrefix(f.Name(), "Fprint") {
			return stdStream(com.Args[0])
		}
		return strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Sprint") || strings.HasPrefix(f.Name(), "Error")
	case "log":
		return strings.HasPrefix(f.Name(), "Print")
	}
	return false
}

func stdStream(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr")
}

// branch marks what only one side of a branch runs, and gives the functions
// whose values are called there.
func (v *verboseMode) branch(i *ssa.If) []*ssa.Function {
	b := i.Block()
	region := map[*ssa.BasicBlock]bool{}
	side := func(s *ssa.BasicBlock) (returns bool) {
		if len(s.Preds) != 1 {
			return false
		}
		for _, c := range b.Parent().Blocks {
			if s.Dominates(c) {
				region[c] = true
				if _, ok := c.Instrs[len(c.Instrs)-1].(*ssa.Return); ok {
					returns = true
				}
			}
		}
		return
	}
	ends := side(b.Succs[0])
	ends = side(b.Succs[1]) || ends
	where := fnName(b.Parent())
	what := ""
	if ends {
		// the other side must not do anything either
		if b.Parent().Signature.Results().Len() > 0 {
			what = "a result depends on the flag"
		}
		seen := map[*ssa.BasicBlock]bool{}
		var mark func(c *ssa.BasicBlock)
		mark = func(c *ssa.BasicBlock) {
			if seen[c] {
				return
			}
			seen[c] = true
			region[c] = true
			for _, d := range c.Succs {
				mark(d)
			}
		}
		mark(b.Succs[0])
		mark(b.Succs[1])
	}
	for c := range region {
		for _, d := range c.Succs {
			if region[d] {
				continue
			}
			for _, in := range d.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				var one ssa.Value
				for k, q := range d.Preds {
					if q != b && !region[q] {
						continue
					}
					if one != nil && one != ph.Edges[k] {
						what = ph.Comment + " depends on the flag"
					}
					one = ph.Edges[k]
				}
			}
		}
	}
	v.r.must(what == "", "branch", where, "%s (%s)", what, v.p.posOf(i))
	// values that are computed on one side and used after it
	var out []*ssa.Function
	for c := range region {
		for _, in := range c.Instrs {
			v.only[in] = true
			out = append(out, v.dynamic(in)...)
			val, ok := in.(ssa.Value)
			if !ok || val.Referrers() == nil {
				continue
			}
			for _, u := range *val.Referrers() {
				if _, ph := u.(*ssa.Phi); !ph && u.Block() != nil && !region[u.Block()] {
					v.r.bad("branch", where, "%s is used after the branch (%s)", val.Name(), v.p.posOf(u))
				}
			}
		}
	}
	return out
}

// dynamic gives the functions that a call of a function value runs.
func (v *verboseMode) dynamic(in ssa.Instruction) []*ssa.Function {
	c, ok := in.(*ssa.Call)
	if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() != nil {
		if ok {
			if f := c.Call.StaticCallee(); f != nil && f.Parent() != nil {
				return []*ssa.Function{f}
			} else if f != nil && v.p.inRepo(f) {
				// a helper of this place alone that runs what it is given
				for _, q := range f.Params {
					if _, fn := q.Type().Underlying().(*types.Signature); fn && len(v.p.argsOf(q)) == 1 {
						return []*ssa.Function{f}
					}
				}
			}
		}
		return nil
	}
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	for _, s := range v.p.sources(c.Call.Value) {
		switch s := s.(type) {
		case *ssa.MakeClosure:
			out = append(out, s.Fn.(*ssa.Function))
		case *ssa.Function:
			out = append(out, s)
		case *ssa.Const:
		default:
			v.r.bad("effects", fnName(in.Parent()), "%s is called, which is not known (%s)", s.Name(), v.p.posOf(in))
		}
	}
	if len(out) == 0 {
		v.r.bad("effects", fnName(in.Parent()), "no function is known that is called (%s)", v.p.posOf(in))
	}
	return out
}

// effect describes what an instruction does besides computing a value.
func (v *verboseMode) effect(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.Alloc, *ssa.Phi, *ssa.FieldAddr, *ssa.Field, *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.MakeInterface,
		*ssa.MakeClosure, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Range, *ssa.Next, *ssa.RunDefers:
		return ""
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			return "it receives from a channel"
		}
	case *ssa.BinOp:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (in.Op == token.QUO || in.Op == token.REM) {
			for _, s := range v.p.sources(in.Y) {
				if c, ok := s.(*ssa.Const); ok && c.Value != nil && c.Int64() != 0 {
					continue
				}
				if id, ok := v.p.fieldOfValue(s); ok && id.field == "LogBatch" && strings.HasSuffix(id.typ, ".Options") {
					continue
				}
				return fmt.Sprintf("it divides by %s, which may be zero", s.Name())
			}
		}
	case *ssa.TypeAssert:
		if !in.CommaOk {
			return "a type assertion can panic"
		}
	case *ssa.Lookup:
		if !isMapType(in.X.Type()) {
			return "an index can be out of range"
		}
	case *ssa.IndexAddr:
		if al, ok := in.X.(*ssa.Alloc); ok && al.Parent() == in.Parent() {
			return "" // the arguments of a call
		}
		return v.index(in, in.X, in.Index)
	case *ssa.Index:
		return v.index(in, in.X, in.Index)
	case *ssa.Slice:
		if al, ok := in.X.(*ssa.Alloc); ok && al.Parent() == in.Parent() && in.Low == nil && in.High == nil {
			return ""
		}
		if in.Low == nil && in.High == nil && in.Max == nil {
			return ""
		}
		return "a slice can be out of range"
	case *ssa.Store:
		return v.store(in)
	case *ssa.Call:
		return v.callEffect(in, &in.Call)
	case *ssa.Defer:
		return v.callEffect(in, &in.Call)
	case *ssa.Send:
		return "it sends to a channel"
	case *ssa.MapUpdate:
		return "it changes a map"
	case *ssa.Go:
		return "it starts a goroutine"
	case *ssa.Panic:
		return "it panics"
	default:
		return "it has an effect that is not understood: " + in.String()
	}
	return ""
}

// index accepts an index that a range over the same value gives.
func (v *verboseMode) index(in ssa.Instruction, x, i ssa.Value) string {
	if n, _, _, ok := countLoop(i, in.Block(), func(from, to *ssa.BasicBlock) bool { return true }); ok {
		if c, ok := n.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && c.Call.Args[0] == x {
				return ""
			}
		}
	}
	return "an index can be out of range"
}

func isMapType(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

// store accepts stores to what is only read in verbose mode.
func (v *verboseMode) store(st *ssa.Store) string {
	a := st.Addr
	for {
		switch q := a.(type) {
		case *ssa.FieldAddr:
			if v.fieldQuiet(fieldIDOf(q)) {
				return ""
			}
			if _, ok := q.X.(*ssa.Alloc); !ok {
				return fmt.Sprintf("it changes %s", fieldIDOf(q))
			}
			a = q.X
			continue
		case *ssa.IndexAddr:
			if al, ok := q.X.(*ssa.Alloc); ok && v.inside(al) {
				return ""
			}
			if ms, ok := q.X.(*ssa.MakeSlice); ok && v.only[ms] {
				return ""
			}
			return "it changes an element"
		}
		break
	}
	cell := cellOf(a)
	if cell == nil {
		if g, ok := a.(*ssa.Global); ok {
			return "it changes the variable " + g.Name()
		}
		return "it stores to " + a.Name()
	}
	if v.inside(cell) {
		return ""
	}
	if !v.quietCell(cell) {
		return fmt.Sprintf("it changes %s, which is used elsewhere", cell.Comment)
	}
	return ""
}

func (v *verboseMode) inside(al *ssa.Alloc) bool { return v.only[al] }

// quietCell: a variable that is only read in verbose mode.
func (v *verboseMode) quietCell(cell *ssa.Alloc) bool {
	for _, l := range v.p.cellLoads(cell) {
		if !v.quietValue(l, map[ssa.Value]bool{}) {
			return false
		}
	}
	var ok func(val ssa.Value) bool
	ok = func(val ssa.Value) bool {
		for _, ref := range *val.Referrers() {
			switch in := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if in.Val == val {
					return false
				}
			case *ssa.MakeClosure:
				for i, b := range in.Bindings {
					if b == val && !ok(in.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(cell)
}

// quietValue: a value that is only used in verbose mode, possibly by the
// callers of a function that gives it out.
func (v *verboseMode) quietValue(val ssa.Value, seen map[ssa.Value]bool) bool {
	if in, ok := val.(ssa.Instruction); ok && v.only[in] {
		return true
	}
	if seen[val] {
		return true
	}
	seen[val] = true
	if val.Referrers() == nil {
		return false
	}
	for _, ref := range *val.Referrers() {
		if v.only[ref] {
			continue
		}
		switch u := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			if !v.quietValue(u, seen) {
				return false
			}
		case *ssa.Store:
			cell := cellOf(u.Addr)
			if u.Val != val || cell == nil {
				return false
			}
			for _, l := range v.p.cellLoads(cell) {
				if !v.quietValue(l, seen) {
					return false
				}
			}
		case *ssa.Call:
			g := u.Call.StaticCallee()
			if g == nil || !v.p.inRepo(g) || len(g.Params) != len(u.Call.Args) {
				return false
			}
			for i, a := range u.Call.Args {
				if a == val && !v.quietValue(g.Params[i], seen) {
					return false
				}
			}
		case *ssa.Return:
			if v.p.addrTaken[u.Parent()] {
				return false
			}
			for _, f := range v.p.callersOf(u.Parent()) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						c, ok := in.(ssa.CallInstruction)
						if !ok {
							continue
						}
						for _, g := range v.p.callees(c.Common()) {
							if g != u.Parent() {
								continue
							}
							call, ok := in.(*ssa.Call)
							if !ok || len(u.Results) != 1 || !v.quietValue(call, seen) {
								return false
							}
						}
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// fieldQuiet: a field that is only read in verbose mode, and whose address
// goes nowhere.
func (v *verboseMode) fieldQuiet(id fieldID) bool {
	for _, f := range v.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Field:
					if n := namedOf(in.X.Type()); n != nil && fieldName(in.X.Type(), in.Field) == id.field && strings.HasSuffix(id.typ, n.Obj().Name()) && !v.only[in] {
						return false
					}
				case *ssa.FieldAddr:
					if fieldIDOf(in) != id {
						continue
					}
					for _, ref := range *in.Referrers() {
						switch u := ref.(type) {
						case *ssa.DebugRef:
						case *ssa.Store:
							if u.Val == in {
								return false
							}
						case *ssa.UnOp:
							if !v.only[u] {
								return false
							}
						default:
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// callEffect describes the effect of a call.
func (v *verboseMode) callEffect(in ssa.Instruction, com *ssa.CallCommon) string {
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "print", "println", "real", "imag", "min", "max", "ssa:wrapnilchk", "recover":
			return ""
		}
		return "it calls " + b.Name()
	}
	if printing(com) {
		return ""
	}
	if com.IsInvoke() {
		fs := v.p.callees(com)
		if com.Method.Name() == "Error" || com.Method.Name() == "String" {
			return ""
		}
		if len(fs) == 0 {
			return "it calls " + com.Method.Name() + ", which is not known"
		}
		for _, f := range fs {
			if e := v.summary(f); e != "" {
				return e
			}
		}
		return ""
	}
	f := com.StaticCallee()
	if f == nil {
		return "" // its targets are checked
	}
	if v.fns[f] {
		return ""
	}
	if v.p.inRepo(f) && len(f.Blocks) > 0 {
		return v.summary(f)
	}
	if harmless(f) {
		return ""
	}
	return "it calls " + f.RelString(nil)
}

// harmless: functions of the standard library that only compute.
func harmless(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	path := f.Pkg.Pkg.Path()
	switch path {
	case "time":
		n := f.Name()
		return n != "Sleep" && n != "After" && n != "Tick" && !strings.HasPrefix(n, "New") && n != "AfterFunc" && n != "Stop" && n != "Reset"
	case "strings", "strconv", "math", "unicode", "unicode/utf8", "errors":
		return true
	case "sync/atomic":
		return strings.HasPrefix(f.Name(), "Load")
	case "runtime":
		return strings.HasPrefix(f.Name(), "Num") || f.Name() == "ReadMemStats"
	}
	return false
}

// summary gives the first effect of a function that verbose mode calls, or "".
func (v *verboseMode) summary(f *ssa.Function) string {
	if e, ok := v.pure[f]; ok {
		return e
	}
	v.pure[f] = ""
	if !v.p.inRepo(f) || len(f.Blocks) == 0 {
		if !harmless(f) {
			v.pure[f] = "it calls " + f.RelString(nil)
		}
		return v.pure[f]
	}
	own := &verboseMode{p: v.p, r: v.r, only: map[ssa.Instruction]bool{}, fns: v.fns, pure: v.pure}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			own.only[in] = true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			e := ""
			if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() && c.Call.StaticCallee() == nil {
				if _, b := c.Call.Value.(*ssa.Builtin); !b {
					e = "it calls a function that is not known"
				}
			}
			if e == "" {
				e = own.effect(in)
			}
			if e != "" {
				v.pure[f] = fmt.Sprintf("%s, through %s", e, fnName(f))
				return v.pure[f]
			}
		}
	}
	return ""
}
