package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file decides that what is sent over a channel is not used by the sender
// afterwards: a dataflow analysis over a function and the function literals in
// it, of which variables and values may refer to what was sent.

type goneState struct {
	cells map[*ssa.Alloc]bool
	vals  map[ssa.Value]bool
	hold  map[*ssa.Alloc]map[ssa.Value]bool
}

func newGone() *goneState {
	return &goneState{map[*ssa.Alloc]bool{}, map[ssa.Value]bool{}, map[*ssa.Alloc]map[ssa.Value]bool{}}
}

func (g *goneState) clone() *goneState {
	n := newGone()
	n.join(g)
	return n
}

func (g *goneState) join(o *goneState) bool {
	ch := false
	for c := range o.cells {
		if !g.cells[c] {
			g.cells[c], ch = true, true
		}
	}
	for v := range o.vals {
		if !g.vals[v] {
			g.vals[v], ch = true, true
		}
	}
	for c, vs := range o.hold {
		if g.hold[c] == nil {
			g.hold[c] = map[ssa.Value]bool{}
		}
		for v := range vs {
			if !g.hold[c][v] {
				g.hold[c][v], ch = true, true
			}
		}
	}
	return ch
}

// joinCells joins what a function literal sees of its captured variables.
func (g *goneState) joinCells(o *goneState) bool {
	ch := false
	for c := range o.cells {
		if !g.cells[c] {
			g.cells[c], ch = true, true
		}
	}
	return ch
}

// handover is the analysis of a family of functions for one kind of element.
type handover struct {
	p      *Prog
	key    string // the element type of the channel
	strict bool   // the receivers write to what they receive
	fam    []*ssa.Function
	entry  map[*ssa.Function]*goneState
	exit   map[*ssa.Function]*goneState
	bad    func(in ssa.Instruction, msg string)
	report bool
}

// partOf gives what a value is a part or another form of.
func partOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Extract:
			if u, ok := x.Tuple.(*ssa.UnOp); ok {
				return u
			}
			if u, ok := x.Tuple.(*ssa.TypeAssert); ok {
				v = u.X
				continue
			}
			return v
		default:
			return v
		}
	}
}

// varOf gives the variable that an address is, or is a field of.
func localVar(a ssa.Value) (*ssa.Alloc, bool) {
	part := false
	for {
		if fa, ok := a.(*ssa.FieldAddr); ok {
			if c := cellOf(fa.X); c != nil {
				return c, true
			}
			a, part = fa.X, true
			continue
		}
		return cellOf(a), part
	}
}

func (h *handover) isGone(s *goneState, v ssa.Value) bool {
	b := partOf(v)
	if s.vals[b] {
		return true
	}
	return false
}

// component marks all that may refer to what v refers to.
func (h *handover) component(s *goneState, v ssa.Value) {
	work := []ssa.Value{partOf(v)}
	seen := map[ssa.Value]bool{}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if _, ok := x.(*ssa.Const); ok {
			continue
		}
		s.vals[x] = true
		if ph, ok := x.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				work = append(work, partOf(e))
			}
		}
		for c, vs := range s.hold {
			if !vs[x] {
				continue
			}
			s.cells[c] = true
			for y := range vs {
				work = append(work, y)
			}
		}
	}
}

func (h *handover) use(s *goneState, v ssa.Value, in ssa.Instruction, writes bool, how string) {
	if h.report && h.isGone(s, v) && (h.strict || writes) {
		h.bad(in, how)
	}
}

// handsOver: a function sends what it gets as its i-th parameter.
func (h *handover) handsOver(f *ssa.Function, i int, depth int) bool {
	if !hasBody(f) || depth > 3 || i >= len(f.Params) {
		return false
	}
	is := func(v ssa.Value) bool {
		for _, src := range h.p.localSources(v) {
			if src == ssa.Value(f.Params[i]) {
				return true
			}
		}
		return false
	}
	for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					if sentType(in.Chan) == h.key && is(in.X) {
						return true
					}
				case *ssa.Call, *ssa.Defer:
					com := in.(ssa.CallInstruction).Common()
					if c := com.StaticCallee(); c != nil && h.p.inRepo(c) {
						for j, a := range com.Args {
							if refType(a.Type()) && is(a) && h.handsOver(c, j, depth+1) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// localSources follows a value inside of its family of functions.
func (p *Prog) localSources(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		v = partOf(v)
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if c, _ := localVar(x.X); c != nil {
					for _, st := range p.allStores(c) {
						walk(st)
					}
					return
				}
			}
		}
		out = append(out, v)
	}
	walk(v)
	return out
}

// onlyDeferred: a function literal that is only run by a defer statement.
func onlyDeferred(f *ssa.Function) (*ssa.Defer, bool) {
	if f.Parent() == nil {
		return nil, false
	}
	var d *ssa.Defer
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			for _, ref := range *mc.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Defer:
					if ref.Call.Value != ssa.Value(mc) {
						return nil, false
					}
					d = ref
				case *ssa.DebugRef:
				default:
					return nil, false
				}
			}
		}
	}
	return d, d != nil
}

func (h *handover) run(root *ssa.Function) {
	h.fam = h.p.family(root)
	h.entry, h.exit = map[*ssa.Function]*goneState{}, map[*ssa.Function]*goneState{}
	for _, f := range h.fam {
		h.entry[f], h.exit[f] = newGone(), newGone()
	}
	for n := 0; n < 30; n++ {
		ch := false
		for _, f := range h.fam {
			if h.flow(f) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	h.report = true
	for _, f := range h.fam {
		h.flow(f)
	}
	h.report = false
}

// flow analyses one function; it reports whether something changed for others.
func (h *handover) flow(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	changed := false
	in := map[*ssa.BasicBlock]*goneState{f.Blocks[0]: h.entry[f].clone()}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	rep := h.report
	h.report = false
	step := func(b *ssa.BasicBlock) *goneState {
		s := in[b].clone()
		for _, i := range b.Instrs {
			if h.instr(f, s, i) {
				changed = true
			}
		}
		return s
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		s := step(b)
		for _, nb := range b.Succs {
			if in[nb] == nil {
				in[nb] = s.clone()
				work = append(work, nb)
			} else if in[nb].join(s) {
				work = append(work, nb)
			}
		}
	}
	if rep {
		h.report = true
		for _, b := range f.Blocks {
			if in[b] != nil {
				step(b)
			}
		}
	}
	return changed
}

// instr applies one instruction.
func (h *handover) instr(f *ssa.Function, s *goneState, in ssa.Instruction) bool {
	if v, ok := in.(ssa.Value); ok {
		if _, isPhi := in.(*ssa.Phi); !isPhi {
			delete(s.vals, v)
			for _, vs := range s.hold {
				delete(vs, v)
			}
		}
	}
	changed := false
	switch in := in.(type) {
	case *ssa.Alloc:
		delete(s.cells, in)
		delete(s.hold, in)
	case *ssa.Phi:
		g := false
		for _, e := range in.Edges {
			g = g || s.vals[partOf(e)]
		}
		if g {
			s.vals[in] = true
		} else {
			delete(s.vals, in)
		}
	case *ssa.UnOp:
		if in.Op != token.MUL {
			break
		}
		if c, _ := localVar(in.X); c != nil {
			if refType(in.Type()) {
				if s.hold[c] == nil {
					s.hold[c] = map[ssa.Value]bool{}
				}
				s.hold[c][in] = true
				if s.cells[c] {
					s.vals[in] = true
				}
			}
			break
		}
		if ia, ok := in.X.(*ssa.IndexAddr); ok {
			h.use(s, ia.X, in, false, "reads from")
		}
		if fa, ok := in.X.(*ssa.FieldAddr); ok {
			h.use(s, fa.X, in, false, "reads from")
		}
	case *ssa.Store:
		if c, part := localVar(in.Addr); c != nil {
			if !refType(in.Val.Type()) {
				break
			}
			if s.hold[c] == nil || !part {
				s.hold[c] = map[ssa.Value]bool{}
			}
			s.hold[c][partOf(in.Val)] = true
			if h.isGone(s, in.Val) {
				s.cells[c] = true
			} else if !part {
				delete(s.cells, c)
			}
			break
		}
		if refType(in.Val.Type()) {
			h.use(s, in.Val, in, false, "keeps")
		}
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			h.use(s, ia.X, in, true, "writes to")
		}
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
			h.use(s, fa.X, in, true, "writes to")
		}
	case *ssa.MapUpdate:
		h.use(s, in.Map, in, true, "writes to")
		if refType(in.Value.Type()) {
			h.use(s, in.Value, in, false, "keeps")
		}
	case *ssa.Lookup:
		h.use(s, in.X, in, false, "reads from")
	case *ssa.Range:
		h.use(s, in.X, in, false, "reads from")
	case *ssa.Send:
		if sentType(in.Chan) != h.key || !refType(in.X.Type()) {
			break
		}
		h.use(s, in.X, in, false, "sends again")
		h.component(s, in.X)
	case *ssa.Go:
		for _, a := range in.Call.Args {
			if refType(a.Type()) {
				h.use(s, a, in, false, "passes on")
			}
		}
	case *ssa.Call:
		changed = h.call(f, s, in, &in.Call)
	case *ssa.RunDefers:
		changed = h.defers(f, s)
	case *ssa.Return:
		for _, v := range in.Results {
			if refType(v.Type()) {
				h.use(s, v, in, false, "returns")
			}
		}
		if h.exit[f].joinCells(s) {
			changed = true
		}
	}
	return changed
}

func (h *handover) inFamily(f *ssa.Function) bool {
	for _, g := range h.fam {
		if g == f {
			return true
		}
	}
	return false
}

// closureOf gives the function literal of the family that a value certainly is.
func (h *handover) closureOf(v ssa.Value) *ssa.Function {
	var out *ssa.Function
	for _, src := range h.p.localSources(v) {
		mc, ok := src.(*ssa.MakeClosure)
		if !ok || out != nil {
			return nil
		}
		out = mc.Fn.(*ssa.Function)
	}
	if out != nil && h.inFamily(out) {
		return out
	}
	return nil
}

func (h *handover) call(f *ssa.Function, s *goneState, in ssa.Instruction, com *ssa.CallCommon) bool {
	changed := false
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			h.use(s, com.Args[0], in, true, "appends to")
			if len(com.Args) > 1 {
				h.use(s, com.Args[1], in, false, "reads from")
			}
			if refType(com.Args[0].Type().Underlying().(*types.Slice).Elem()) && len(com.Args) > 1 {
				// the elements are kept
				h.use(s, com.Args[1], in, false, "keeps")
			}
		case "copy":
			h.use(s, com.Args[0], in, true, "writes to")
			h.use(s, com.Args[1], in, false, "reads from")
		case "delete", "clear":
			h.use(s, com.Args[0], in, true, "writes to")
		}
		return false
	}
	callee := com.StaticCallee()
	if callee == nil && !com.IsInvoke() {
		callee = h.closureOf(com.Value)
	}
	for i, a := range com.Args {
		if !refType(a.Type()) {
			continue
		}
		if callee != nil && h.p.inRepo(callee) && h.handsOver(callee, i, 0) {
			h.use(s, a, in, false, "sends again")
			h.component(s, a)
			continue
		}
		h.use(s, a, in, !externSafe(callName(in.(ssa.CallInstruction))), "passes on")
	}
	if callee != nil && h.inFamily(callee) && callee.Parent() != nil {
		// a function literal that is called
		if h.entry[callee].joinCells(s) {
			changed = true
		}
		s.cells = map[*ssa.Alloc]bool{}
		s.joinCells(h.exit[callee])
		return changed
	}
	// any function literal may be called, any number of times
	for _, g := range h.fam {
		if g.Parent() == nil || g == f {
			continue
		}
		if _, d := onlyDeferred(g); d {
			continue
		}
		handed := false
		for _, a := range append([]ssa.Value{com.Value}, com.Args...) {
			for _, src := range h.p.localSources(a) {
				if mc, ok := src.(*ssa.MakeClosure); ok && mc.Fn == g {
					handed = true
				}
			}
		}
		if !handed {
			continue
		}
		if h.entry[g].joinCells(s) {
			changed = true
		}
		if h.entry[g].joinCells(h.exit[g]) {
			changed = true
		}
		s.joinCells(h.exit[g])
	}
	return changed
}

// defers applies the deferred calls, the last one first.
func (h *handover) defers(f *ssa.Function, s *goneState) bool {
	changed := false
	var ds []*ssa.Defer
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				ds = append(ds, d)
			}
		}
	}
	sort.SliceStable(ds, func(i, j int) bool { return ds[i].Block().Dominates(ds[j].Block()) && ds[i].Block() != ds[j].Block() })
	for i := len(ds) - 1; i >= 0; i-- {
		before := s.clone()
		if h.call(f, s, ds[i], &ds[i].Call) {
			changed = true
		}
		s.joinCells(before)
	}
	return changed
}

// sendsOf lists the families of functions that send elements of a type.
func (p *Prog) sendsOf() map[string][]*ssa.Function {
	out := map[string][]*ssa.Function{}
	have := map[string]bool{}
	for _, f := range p.Funcs {
		if !p.inRepo(f) || f.Synthetic != "" && f.Object() == nil && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				sd, ok := in.(*ssa.Send)
				if !ok || !refType(sd.X.Type()) {
					continue
				}
				top := f
				for top.Parent() != nil {
					top = top.Parent()
				}
				k := sentType(sd.Chan)
				if kk := k + " " + top.String(); !have[kk] {
					have[kk] = true
					out[k] = append(out[k], top)
				}
			}
		}
	}
	// and those that call a function that sends what it gets
	for k := range out {
		h := &handover{p: p, key: k}
		for _, f := range p.Funcs {
			if !p.inRepo(f) {
				continue
			}
			top := f
			for top.Parent() != nil {
				top = top.Parent()
			}
			if have[k+" "+top.String()] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() == nil || !p.inRepo(ci.Common().StaticCallee()) {
						continue
					}
					for i, a := range ci.Common().Args {
						if refType(a.Type()) && !have[k+" "+top.String()] && strings.Contains(typKey(a.Type())+" "+k, "") && h.handsOver(ci.Common().StaticCallee(), i, 0) {
							have[k+" "+top.String()] = true
							out[k] = append(out[k], top)
						}
					}
				}
			}
		}
	}
	return out
}
