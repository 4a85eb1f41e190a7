package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Frame is one calling context of a function: the chain of call sites that
// led to it. Frames are shared, so a context is analysed once per state.
type Frame struct {
	id     int
	Fn     *ssa.Function
	Parent *Frame
	Site   ssa.Instruction // in Parent
	Kind   string          // root, call, defer, callback, go
	depth  int
}

func (f *Frame) idOr0() int {
	if f == nil {
		return 0
	}
	return f.id
}

// inChain reports whether g is f or one of its callers.
// calledIn reports that g waits for f to return.
func (f *Frame) calledIn(g *Frame) bool {
	for ; f != nil; f = f.Parent {
		if f == g {
			return true
		}
		if f.Kind == "go" {
			return false
		}
	}
	return false
}

func (f *Frame) inChain(g *Frame) bool {
	for x := f; x != nil; x = x.Parent {
		if x == g {
			return true
		}
	}
	return false
}

// Call describes one possible target of a call.
type Call struct {
	In   ssa.Instruction // *ssa.Call, *ssa.Defer (when run), *ssa.Go
	Com  *ssa.CallCommon
	Fn   *ssa.Function // nil for an unresolved target
	Name string        // qualified name, "builtin.x", or "" for an unresolved function value
	Args []*Term       // with the receiver first
	Bind []*Term       // values of the free variables
	FnT  *Term         // the function value
}

// Ctx is what a client sees at an instruction.
type Ctx struct {
	E *Engine
	F *Frame
	I ssa.Instruction
	S *State
}

func (x *Ctx) Val(v ssa.Value) *Term { return x.E.val(x.F, v, x.S) }
func (x *Ctx) Pos() string           { return x.E.P.posOf(x.I) }

// Where names the construct: the function and the line.
func (x *Ctx) Where() string { return fnName(x.F.Fn) + " (" + x.Pos() + ")" }

// Client observes the analysis. Every hook is optional.
type Client struct {
	Instr  func(x *Ctx)                                           // before an instruction is interpreted
	Call   func(x *Ctx, c *Call) (handled bool, res *Term)        // for each target of a call
	Exit   func(x *Ctx, res []*Term)                              // the root (or goroutine) returns
	Ret    func(x *Ctx, res []*Term)                              // an inlined function returns
	Lost   func(x *Ctx, t *Term, tag string)                      // a marked value is overwritten and has no other name
	Edge   func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) // a branch was taken
	Next   func(x *Ctx, from, to *ssa.BasicBlock)                 // control moves from one block to another
	Go     func(x *Ctx, c *Call)
	Inline func(c *Call) bool
	Pin    func(v ssa.Value) bool // keep facts about this value even when it is dead
	Panic  func(x *Ctx)
	Pure   func(c *ssa.Call) *Term               // the value of a call that always gives the same
	Got    func(f *Frame, v ssa.Value, s *State) // a result or a phi was just computed; auto may be set
	// Once selects loops that are analysed for one arbitrary iteration: what the
	// loop changes is unknown when it is entered, and its end is not followed.
	Once func(f *Frame, h *ssa.BasicBlock) bool
	// Loop may add what is assumed at the start of any iteration of such a loop.
	Loop func(x *Ctx, h *ssa.BasicBlock)
}

type spawn struct {
	F    *Frame
	S    *State
	Args []*Term
	From *Frame
	In   ssa.Instruction
}

// Engine runs the abstract interpretation.
type Engine struct {
	P      *Prog
	C      *Client
	frames map[frameKey]*Frame
	nf     int
	work   []workItem
	seen   map[pointKey]map[[2]key128]bool
	count  map[pointKey]map[key128]int
	joined map[pointKey]map[key128]*State
	joins  map[pointKey]map[key128]int
	Steps  int
	Spawns []*spawn
	Root   *Frame
	Fns    map[*ssa.Function]bool // functions analysed
	conc   map[*ssa.Alloc]bool
	Abort  string
	Cap    int
	optMut map[string]bool
	Trace  bool
}

type pointKey struct {
	f *Frame
	b *ssa.BasicBlock
	i int
}

type workItem struct {
	pointKey
	s *State
}

func newEngine(p *Prog, c *Client) *Engine {
	e := &Engine{P: p, C: c, frames: map[frameKey]*Frame{}, seen: map[pointKey]map[[2]key128]bool{},
		count: map[pointKey]map[key128]int{}, joined: map[pointKey]map[key128]*State{}, Fns: map[*ssa.Function]bool{}, joins: map[pointKey]map[key128]int{}, Cap: 40}
	e.conc = p.concurrentCells()
	e.optMut = p.mutableOptions()
	return e
}

func (e *Engine) frame(parent *Frame, site ssa.Instruction, fn *ssa.Function, kind string) *Frame {
	k := frameKey{parent, site, fn, kind}
	if f, ok := e.frames[k]; ok {
		return f
	}
	frameCount++
	f := &Frame{id: frameCount, Fn: fn, Parent: parent, Site: site, Kind: kind}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	e.frames[k] = f
	return f
}

type frameKey struct {
	parent *Frame
	site   ssa.Instruction
	fn     *ssa.Function
	kind   string
}

var frameCount int

// rootFrame makes the frame of an entry point.
func (e *Engine) rootFrame(fn *ssa.Function) *Frame {
	e.Root = e.frame(nil, nil, fn, "root")
	return e.Root
}

// param gives the symbolic argument of an entry point.
func (f *Frame) param(i int) *Term { return mkLeaf(f, f.Fn.Params[i], "") }

// Run analyses from the entry of f in state s until nothing new is found.
func (e *Engine) Run(f *Frame, s *State) {
	e.push(f, f.Fn.Blocks[0], 0, s)
	e.drain()
}

func (e *Engine) drain() {
	for len(e.work) > 0 && e.Abort == "" {
		it := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.exec(it)
	}
}

// RunSpawned analyses the goroutines that were started, including those that
// they start themselves.
func (e *Engine) RunSpawned() {
	for i := 0; i < len(e.Spawns); i++ {
		sp := e.Spawns[i]
		e.push(sp.F, sp.F.Fn.Blocks[0], 0, sp.S.clone())
		e.drain()
	}
}

func (e *Engine) push(f *Frame, b *ssa.BasicBlock, i int, s *State) {
	e.gc(f, b, i, s)
	if e.C.Got != nil {
		if i > 0 {
			if c, ok := b.Instrs[i-1].(*ssa.Call); ok {
				e.C.Got(f, c, s)
			}
		} else {
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				e.C.Got(f, ph, s)
			}
		}
	}
	k := pointKey{f, b, i}
	ak := s.autoKey()
	// what was decided and what follows from it stay together: the outcomes of a condition are kept apart
	for _, v := range computedBools(b, i) {
		t := s.norm(mkLeaf(f, v, ""))
		d := s.boolOf(t)
		if d < 0 && t.Kind == 'o' && t.Op != "call" {
			o, q := s.clone(), s.clone()
			no, yes := o.assume(t, false), q.assume(t, true)
			if no && yes {
				if o.boolOf(t) == 0 && q.boolOf(t) == 1 {
					e.push(f, b, i, o)
					s = q
				}
			} else if no {
				s = o
			} else if !yes {
				return
			} else {
				s = q
			}
			d = s.boolOf(t)
		}
		ak.add(12, uint64(d+2))
	}
	if i > 0 {
		// what a call returned together with an error, and without one, stay apart
		if c, ok := b.Instrs[i-1].(*ssa.Call); ok && sigHasError(c.Call.Signature()) {
			for _, t := range errResults(f, c) {
				ak.add(uint64(s.nilOf(s.norm(t)) + 2))
			}
		}
	}
	fk := [2]key128{ak, s.factKey()}
	if e.seen[k] == nil {
		e.seen[k] = map[[2]key128]bool{}
		e.count[k] = map[key128]int{}
		e.joined[k] = map[key128]*State{}
		e.joins[k] = map[key128]int{}
	}
	if e.seen[k][fk] {
		return
	}
	if e.count[k][ak] >= e.Cap {
		j := e.joined[k][ak]
		if j != nil {
			n := j.join(s)
			n.widen(j, e.joins[k][ak] > 12)
			e.joins[k][ak]++
			if n.factKey() == j.factKey() {
				return
			}
			s = n
		}
		e.joined[k][ak] = s
		e.work = append(e.work, workItem{k, s.clone()})
		return
	}
	e.seen[k][fk] = true
	e.count[k][ak]++
	e.work = append(e.work, workItem{k, s})
}

// computedBools lists the conditions that have just been computed at a point:
// the result of a call, or the merges at the start of a block.
func computedBools(b *ssa.BasicBlock, i int) []ssa.Value {
	if i > 0 {
		if c, ok := b.Instrs[i-1].(*ssa.Call); ok && isBool(c.Type()) {
			return []ssa.Value{c}
		}
		return nil
	}
	var out []ssa.Value
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isBool(ph.Type()) {
			out = append(out, ph)
		}
	}
	return out
}

// reset makes the engine ready to analyse its root again, with the same
// contexts and terms.
func (e *Engine) reset() {
	e.work, e.Spawns = nil, nil
	e.seen, e.count, e.joined = map[pointKey]map[[2]key128]bool{}, map[pointKey]map[key128]int{}, map[pointKey]map[key128]*State{}
	e.joins = map[pointKey]map[key128]int{}
}

func (e *Engine) val(f *Frame, v ssa.Value, s *State) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return mkZeroConst(v.Type())
		}
		return mkConst(normConst(v.Value, v.Type()), v.Type())
	case *ssa.Global:
		return mkGlobal(v)
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.Builtin:
		return mkSym("builtin."+v.Name(), v.Type())
	}
	return s.norm(mkLeaf(f, v, ""))
}

func normConst(v constant.Value, t types.Type) constant.Value {
	if isFloat(t) {
		return constant.ToFloat(v)
	}
	return v
}

func mkZeroConst(t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return mkZero(t)
	}
	return tNil
}

func (e *Engine) lost(x *Ctx) func(*Term, string) {
	return func(t *Term, tag string) {
		if e.C.Lost != nil {
			e.C.Lost(x, t, tag)
		}
	}
}

const maxSteps = 4000000

func (e *Engine) exec(it workItem) {
	f, b, s := it.f, it.b, it.s
	e.Fns[f.Fn] = true
	for i := it.i; i < len(b.Instrs); i++ {
		e.Steps++
		if e.Steps > maxSteps {
			e.Abort = "the analysis did not finish within its step limit"
			return
		}
		in := b.Instrs[i]
		x := &Ctx{e, f, in, s}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if e.Trace {
			fmt.Printf("%s%s: %s\n", strings.Repeat(" ", f.depth), f.Fn.Name(), in)
		}
		if v, ok := in.(ssa.Value); ok {
			if _, isCall := in.(*ssa.Call); !isCall || true {
				s.kill(mkLeaf(f, v, ""), e.lost(x))
			}
		}
		if e.C.Instr != nil {
			e.C.Instr(x)
			if s.dead {
				return
			}
		}
		switch in := in.(type) {
		case *ssa.If:
			c := x.Val(in.Cond)
			t, fa := s.clone(), s
			if t.assume(c, true) {
				e.edge(x, b, b.Succs[0], t, c, true)
			}
			if fa.assume(c, false) {
				e.edge(x, b, b.Succs[1], fa, c, false)
			}
			return
		case *ssa.Jump:
			e.edge(x, b, b.Succs[0], s, nil, false)
			return
		case *ssa.Return:
			e.ret(x, in)
			return
		case *ssa.Panic:
			if e.C.Panic != nil {
				e.C.Panic(x)
			}
			return
		case *ssa.RunDefers:
			ds := s.defers[f]
			if len(ds) == 0 {
				continue
			}
			d := ds[len(ds)-1]
			s.defers[f] = ds[: len(ds)-1 : len(ds)-1]
			if len(s.defers[f]) == 0 {
				delete(s.defers, f)
			}
			e.call(x, d.in, &d.in.Call, d.fn, d.args, "defer", b, i)
			return
		case *ssa.Call:
			fn, args := e.callee(x, &in.Call)
			if e.call(x, in, &in.Call, fn, args, "call", b, i+1) {
				return
			}
		case *ssa.Go:
			fn, args := e.callee(x, &in.Call)
			e.goCall(x, in, &in.Call, fn, args)
		case *ssa.Defer:
			fn, args := e.callee(x, &in.Call)
			old := s.defers[f]
			if len(old) < 16 {
				nd := append(append([]deferred(nil), old...), deferred{in, fn, args})
				s.defers[f] = nd
			} else {
				e.Abort = "defer in a loop at " + e.P.posOf(in)
				return
			}
		case *ssa.Store:
			e.store(x, x.Val(in.Addr), x.Val(in.Val))
		case *ssa.MapUpdate, *ssa.Send, *ssa.DebugRef:
		default:
			v := in.(ssa.Value)
			t := e.eval(x, in)
			l := mkLeaf(f, v, "")
			if t != nil && t != l {
				s.env[l] = t
			}
		}
		if s.dead {
			return
		}
	}
}

func (e *Engine) store(x *Ctx, addr, v *Term) {
	if addr.Kind == 'l' {
		if al, ok := addr.Val.(*ssa.Alloc); ok && e.conc[al] {
			return
		}
	}
	x.S.write(addr, v)
}

// callee evaluates the function value and the arguments of a call.
func (e *Engine) callee(x *Ctx, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, x.Val(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, x.Val(a))
	}
	if c.IsInvoke() {
		return mkSym("invoke", types.Typ[types.Invalid]), args
	}
	return x.Val(c.Value), args
}

// resolve lists the possible targets of a call.
func (e *Engine) resolve(x *Ctx, in ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term) []*Call {
	base := Call{In: in, Com: c, Args: args, FnT: fn}
	if c.IsInvoke() {
		recv := args[0]
		if recv.Kind == 'o' && recv.Op == "iface" {
			if m := e.P.methodOf(recv.Typ, c.Method.Name()); m != nil {
				k := base
				k.Fn, k.Name = m, qualName(m)
				k.Args = append([]*Term{recv.Args[0]}, args[1:]...)
				return []*Call{&k}
			}
		}
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		var out []*Call
		if it != nil {
			if n := namedOf(c.Value.Type()); n == nil || n.Obj().Pkg() == nil || e.P.Pkgs[n.Obj().Pkg().Path()] != nil {
				for _, t := range e.P.implementers(it) {
					if m := e.P.methodOf(t, c.Method.Name()); m != nil && x.S.boolOf(mkOp("istype", t, recv)) != 0 {
						k := base
						k.Fn, k.Name = m, qualName(m)
						k.Args = append([]*Term{mkOp("assert", t, recv)}, args[1:]...)
						out = append(out, &k)
					}
				}
			}
		}
		if len(out) == 0 {
			k := base
			k.Name = objName(c.Method)
			return []*Call{&k}
		}
		return out
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k := base
		k.Name = "builtin." + b.Name()
		return []*Call{&k}
	}
	return e.targets(&base, fn, c.Signature())
}

// targets lists the functions a function value can be.
func (e *Engine) targets(base *Call, fn *Term, sig *types.Signature) []*Call {
	switch {
	case fn.Kind == 'f':
		k := *base
		k.Fn = fn.Val.(*ssa.Function)
		k.Name = qualName(k.Fn)
		return []*Call{&k}
	case fn.Kind == 'o' && fn.Op == "closure":
		k := *base
		k.Fn = fn.Val.(*ssa.Function)
		k.Name = qualName(k.Fn)
		k.Bind = fn.Args
		return []*Call{&k}
	}
	// every function value of this type in the repository
	var out []*Call
	if e.Root != nil && e.repoFuncValue(fn) {
		for _, g := range e.P.Funcs {
			if e.P.addrTaken[g] && e.P.inRepo(g) && types.Identical(g.Signature, sig) && !initFunc(g) {
				k := *base
				k.Fn = g
				k.Name = qualName(g)
				out = append(out, &k)
			}
		}
	}
	if len(out) == 0 {
		k := *base
		return []*Call{&k}
	}
	return out
}

func initFunc(g *ssa.Function) bool { return g.Name() == "init" }

// repoFuncValue tells function values that come out of the repository's data
// from parameters of the entry point, which are unknown functions.
func (e *Engine) repoFuncValue(fn *Term) bool {
	for _, l := range fn.leaves {
		if l.Frame == nil {
			return false
		}
		if p, ok := l.Val.(*ssa.Parameter); ok && l.Frame.Kind == "root" && p == l.Val {
			if l == fn {
				return false
			}
		}
	}
	return true
}

func (e *Engine) canInline(x *Ctx, k *Call) bool {
	if k.Fn == nil || len(k.Fn.Blocks) == 0 || x.F.depth > 40 {
		return false
	}
	n := 0
	for f := x.F; f != nil; f = f.Parent {
		if f.Fn == k.Fn {
			n++
		}
	}
	if n > 1 {
		return false
	}
	if e.C.Inline != nil && !e.C.Inline(k) {
		return false
	}
	return true
}

// call interprets a call; true when the continuation was handed to the worklist.
func (e *Engine) call(x *Ctx, in ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term, kind string, b *ssa.BasicBlock, next int) bool {
	ks := e.resolve(x, in, c, fn, args)
	if len(ks) == 1 && kind == "call" {
		// the common case needs no copy of the state
		return e.callOne(x, ks[0], kind, b, next, false)
	}
	for _, k := range ks {
		s := x.S.clone()
		y := &Ctx{e, x.F, x.I, s}
		if c.IsInvoke() && len(ks) > 1 {
			// remember which type it was
			s.bools[mkOp("istype", k.Args[0].Typ, args[0])] = true
		}
		e.callOne(y, k, kind, b, next, true)
	}
	return true
}

func (e *Engine) callOne(x *Ctx, k *Call, kind string, b *ssa.BasicBlock, next int, forked bool) bool {
	s := x.S
	cont := func(res *Term) bool {
		if s.dead {
			return true
		}
		if v, ok := x.I.(*ssa.Call); ok && res != nil {
			l := mkLeaf(x.F, v, "")
			if res != l {
				s.env[l] = res
			}
		}
		if forked {
			e.push(x.F, b, next, s)
			return true
		}
		return false
	}
	if e.C.Call != nil {
		if handled, res := e.C.Call(x, k); handled {
			return cont(res)
		}
		if s.dead {
			return true
		}
	}
	if e.isSpawner(k.Name) {
		fnArg := k.Args[len(k.Args)-1]
		e.goCall(x, x.I, nil, fnArg, nil)
		return cont(nil)
	}
	if e.canInline(x, k) {
		e.enter(x, k, kind, s)
		return true
	}
	// functions of other packages that call back
	if k.Fn == nil || len(k.Fn.Blocks) == 0 {
		for _, a := range k.Args {
			if (a.Kind == 'f' || a.Kind == 'o' && a.Op == "closure") && e.callsBack(k.Name) {
				e.callback(x, k, a, b, next)
				return true
			}
		}
	}
	return cont(e.external(x, k))
}

func (e *Engine) callsBack(name string) bool {
	switch {
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices."), strings.HasPrefix(name, "strings."),
		name == "sync.Once.Do", strings.HasPrefix(name, "maps."), strings.HasPrefix(name, "bytes."),
		strings.HasPrefix(name, "sync.Map."), name == "path/filepath.Walk":
		return true
	}
	return false
}

func (e *Engine) isSpawner(name string) bool {
	switch name {
	case "golang.org/x/sync/errgroup.Group.Go", "sync.WaitGroup.Go", "golang.org/x/sync/errgroup.Group.TryGo", "time.AfterFunc":
		return true
	}
	return false
}

// enter starts the body of a callee.
func (e *Engine) enter(x *Ctx, k *Call, kind string, s *State) {
	g := e.frame(x.F, x.I, k.Fn, kind)
	e.bind(x, g, k, s)
	e.push(g, k.Fn.Blocks[0], 0, s)
}

func (e *Engine) bind(x *Ctx, g *Frame, k *Call, s *State) {
	lost := e.lost(x)
	// evaluate under temporary names first: the arguments may mention old values of the same frame
	type pair struct{ l, tmp *Term }
	var ps []pair
	add := func(v ssa.Value, t *Term) {
		l := mkLeaf(g, v, "")
		tmp := mkLeaf(g, v, "'")
		if t != nil {
			s.env[tmp] = t
		}
		ps = append(ps, pair{l, tmp})
	}
	for i, p := range k.Fn.Params {
		if i < len(k.Args) {
			add(p, k.Args[i])
		} else {
			add(p, nil)
		}
	}
	for i, fv := range k.Fn.FreeVars {
		if i < len(k.Bind) {
			add(fv, k.Bind[i])
		} else {
			add(fv, nil)
		}
	}
	for _, p := range ps {
		s.kill(p.l, lost)
	}
	for _, p := range ps {
		s.replace(p.tmp, p.l, lost)
	}
}

// callback models a function of another package that calls a.
func (e *Engine) callback(x *Ctx, k *Call, a *Term, b *ssa.BasicBlock, next int) {
	// not called at all
	s0 := x.S.clone()
	if k.Name != "sync.Once.Do" {
		y := &Ctx{e, x.F, x.I, s0}
		res := e.external(y, k)
		if v, ok := x.I.(*ssa.Call); ok && res != nil && res != mkLeaf(x.F, v, "") {
			s0.env[mkLeaf(x.F, v, "")] = res
		}
	}
	e.push(x.F, b, next, s0)
	for _, t := range e.targets(&Call{In: k.In, Com: k.Com, FnT: a}, a, nil) {
		s := x.S.clone()
		y := &Ctx{e, x.F, x.I, s}
		if e.C.Call != nil {
			if handled, _ := e.C.Call(y, t); handled || s.dead {
				continue
			}
		}
		if !e.canInline(y, t) {
			continue
		}
		// a read-only callback such as a comparison may run any number of times
		e.enter(y, t, "callback", s)
	}
}

func (e *Engine) goCall(x *Ctx, in ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term) {
	var ks []*Call
	if c != nil {
		ks = e.resolve(x, in, c, fn, args)
	} else {
		ks = e.targets(&Call{In: in, FnT: fn}, fn, types.NewSignatureType(nil, nil, nil, nil, nil, false))
	}
	for _, k := range ks {
		if e.C.Go != nil {
			e.C.Go(x, k)
		}
		if k.Fn == nil || len(k.Fn.Blocks) == 0 {
			continue
		}
		g := e.frame(x.F, in, k.Fn, "go")
		s := x.S.clone()
		s.tags = map[*Term]string{}
		s.auto = map[string]string{}
		s.defers = map[*Frame][]deferred{}
		y := &Ctx{e, x.F, x.I, s}
		e.bind(y, g, k, s)
		e.gc(g, k.Fn.Blocks[0], 0, s)
		dup := false
		for _, o := range e.Spawns {
			if o.F == g {
				// keep one state per goroutine: what holds for each start of it
				j := o.S.join(s)
				o.S = j
				dup = true
				break
			}
		}
		if !dup {
			e.Spawns = append(e.Spawns, &spawn{F: g, S: s, Args: k.Args, From: x.F, In: in})
		}
	}
}

// ret interprets a return.
func (e *Engine) ret(x *Ctx, in *ssa.Return) {
	s, f := x.S, x.F
	res := make([]*Term, len(in.Results))
	for i, r := range in.Results {
		res[i] = x.Val(r)
	}
	delete(s.defers, f)
	switch f.Kind {
	case "root", "go":
		if e.C.Exit != nil {
			e.C.Exit(x, res)
		}
		return
	}
	if e.C.Ret != nil {
		e.C.Ret(x, res)
		if s.dead {
			return
		}
	}
	site := f.Site
	b := site.Block()
	i := 0
	for j, ins := range b.Instrs {
		if ins == site {
			i = j
			break
		}
	}
	switch f.Kind {
	case "defer":
		// site is the RunDefers instruction: it goes on with the next deferred call
		e.push(f.Parent, b, i, s)
		return
	case "callback":
		y := &Ctx{e, f.Parent, site, s}
		if c, ok := site.(*ssa.Call); ok {
			s.kill(mkLeaf(f.Parent, c, ""), e.lost(y))
		}
		e.push(f.Parent, b, i+1, s)
		return
	}
	c := site.(*ssa.Call)
	l := mkLeaf(f.Parent, c, "")
	switch len(res) {
	case 0:
	case 1:
		s.env[l] = res[0]
	default:
		for j, r := range res {
			s.env[mkOpX("extract", c.Type().(*types.Tuple).At(j).Type(), nil, j, l)] = r
		}
	}
	e.push(f.Parent, b, i+1, s)
}

// edge follows a control-flow edge.
func (e *Engine) edge(x *Ctx, from, to *ssa.BasicBlock, s *State, cond *Term, val bool) {
	y := &Ctx{e, x.F, x.I, s}
	if cond != nil && e.C.Edge != nil {
		if str := emptyStr(cond); str != nil {
			cond = str
		}
		e.C.Edge(y, cond, val, to)
		if s.dead {
			return
		}
	}
	if e.C.Next != nil {
		e.C.Next(y, from, to)
		if s.dead {
			return
		}
	}
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			// both branches of an If can lead to the same block
			if cond != nil && !val && i+1 < len(to.Preds) {
				dup := -1
				for j := i + 1; j < len(to.Preds); j++ {
					if to.Preds[j] == from {
						dup = j
					}
				}
				if dup >= 0 && from.Succs[0] == to && from.Succs[1] == to {
					k = dup
				}
			}
			break
		}
	}
	back := backEdge(from, to)
	header := back
	for _, p := range to.Preds {
		if backEdge(p, to) {
			header = true
		}
	}
	lost := e.lost(y)
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if header && e.C.Once != nil && e.C.Once(x.F, to) {
		if back {
			return
		}
		e.anyIteration(y, to, phis, k, lost)
		e.push(x.F, to, 0, s)
		return
	}
	widen := map[*Term]bool{}
	if len(phis) > 0 {
		f := x.F
		tmp := make([]*Term, len(phis))
		consts := make([]*Term, len(phis))
		for i, ph := range phis {
			t := e.val(f, ph.Edges[k], s)
			tmp[i] = mkLeaf(f, ph, "'")
			if header && constNumeric(t) {
				consts[i] = t
				continue
			}
			if back && isConst(t) && t.C != nil && t.C.Kind() == constant.String {
				if _, lit := ph.Edges[k].(*ssa.Const); !lit {
					continue
				}
			}
			s.env[tmp[i]] = t
		}
		for _, ph := range phis {
			s.kill(mkLeaf(f, ph, ""), lost)
		}
		for i, ph := range phis {
			l := mkLeaf(f, ph, "")
			s.replace(tmp[i], l, lost)
			if c := consts[i]; c != nil {
				if isSignedInt(ph.Type()) {
					s.addLin(linOf(l).plus(linOf(c), -1), ival{hasLo: true, hasHi: true})
				} else if isFloat(ph.Type()) && !back {
					s.addRel(l, c, relEQ)
				}
			}
			if header && isSignedInt(ph.Type()) {
				if init, dir := monotone(ph); dir != 0 {
					v := ival{hasLo: true}
					if dir < 0 {
						v = ival{hasHi: true}
					}
					s.addLin(linOf(l).plus(linOf(e.val(f, init, s)), -1), v)
				}
			}
			if header {
				widen[l] = true
				if s.env[l] != nil && back && !stableAlias(s.env[l]) {
					delete(s.env, l)
				}
			}
		}
	}
	if back {
		// elements of earlier iterations
		for _, a := range sortedMem(s) {
			if _, ok := s.mem[a]; ok && earlier(x.F, a, phis) {
				s.unknownAt(a)
			}
		}
		mods := e.P.loopModsIn(x.F, to)
		var addrs []*Term
		for a := range s.mem {
			addrs = append(addrs, a)
		}
		sort.Slice(addrs, func(i, j int) bool { return addrs[i].id < addrs[j].id })
		for _, a := range addrs {
			v, ok := s.mem[a]
			if !ok || v.Kind == 'l' || !mods.has(a) {
				continue
			}
			et := elemTyp(a)
			if !numericTerm(et) {
				continue
			}
			mp := terms.get(fmt.Sprintf("memphi|%d|%p|%d", x.F.id, to, a.id), func() *Term {
				return &Term{Kind: 'l', Frame: x.F, Extra: a.String(), Typ: et, Op: "memphi", Args: []*Term{a}}
			})
			tp := terms.get(fmt.Sprintf("memphi'|%d|%p|%d", x.F.id, to, a.id), func() *Term {
				return &Term{Kind: 'l', Frame: x.F, Extra: a.String() + "'", Typ: et, Op: "memphi", Args: []*Term{a}}
			})
			if constNumeric(v) {
				delete(s.mem, a)
				s.kill(mp, lost)
				if isSignedInt(et) {
					s.addLin(linOf(mp).plus(linOf(v), -1), ival{hasLo: true, hasHi: true})
				}
			} else {
				s.env[tp] = v
				s.kill(mp, lost)
				if w := s.env[tp]; w != nil && w.Kind == 'o' && !stableAlias(w) {
					delete(s.env, tp)
				}
				s.replace(tp, mp, lost)
			}
			s.mem[a] = s.norm(mp)
			delete(s.env, mp)
			s.mem[a] = mp
			widen[mp] = true
		}
	}
	if back {
		for a, v := range s.mem {
			if v.Op == "memphi" {
				widen[v] = true
			}
			_ = a
		}
		clampLins(s, widen)
	}
	e.push(x.F, to, 0, s)
}

// anyIteration makes the state that of the start of any iteration of a loop.
func (e *Engine) anyIteration(x *Ctx, h *ssa.BasicBlock, phis []*ssa.Phi, k int, lost func(*Term, string)) {
	s := x.S
	inits := make([]*Term, len(phis))
	for i, ph := range phis {
		inits[i] = mkLeaf(x.F, ph, "'")
		s.env[inits[i]] = e.val(x.F, ph.Edges[k], s)
	}
	for _, ph := range phis {
		s.kill(mkLeaf(x.F, ph, ""), lost)
	}
	for i, ph := range phis {
		if isSignedInt(ph.Type()) {
			if _, dir := monotone(ph); dir != 0 {
				v := ival{hasLo: true}
				if dir < 0 {
					v = ival{hasHi: true}
				}
				s.addLin(linOf(mkLeaf(x.F, ph, "")).plus(linOf(s.norm(inits[i])), -1), v)
			}
		}
	}
	// two counters that move by one keep their sum or their difference
	for i, p := range phis {
		for j, q := range phis[:i] {
			d1, d2 := int64(unitStep(p)), int64(unitStep(q))
			if d1 == 0 || d2 == 0 || !isSignedInt(p.Type()) || !isSignedInt(q.Type()) {
				continue
			}
			now := linOf(mkLeaf(x.F, p, "")).plus(linOf(mkLeaf(x.F, q, "")), -d1*d2)
			was := linOf(s.norm(inits[i])).plus(linOf(s.norm(inits[j])), -d1*d2)
			s.addLin(now.plus(was, -1), ival{hasLo: true, hasHi: true})
		}
	}
	for _, l := range inits {
		s.kill(l, nil)
	}
	mods := e.P.loopModsIn(x.F, h)
	for _, a := range sortedMem(s) {
		v, ok := s.mem[a]
		if !ok || !mods.has(a) || a.Kind == 'l' && a.Frame == x.F && keptIn(a.Val, h) || a.Kind == 'l' && a.Frame != x.F && x.F.calledIn(a.Frame) && keptIn(a.Val, nil) {
			continue
		}
		var now *Term
		if al, ok := a.Val.(*ssa.Alloc); ok && a.Kind == 'l' && a.Extra == "" && a.Frame == x.F && !e.conc[al] {
			if st := int64(cellStep(al, h)); st != 0 {
				// a counter that closures read
				now = cellAt(x.F, al, h)
				v = s.norm(v)
				s.kill(now, lost)
				if !v.has(now) {
					s.addLin(linOf(now).plus(linOf(v), -1).times(st), ival{hasLo: true})
				}
			}
		}
		s.unknownAt(a)
		if now != nil {
			s.mem[a] = now
		}
	}
	if e.C.Loop != nil {
		e.C.Loop(x, h)
	}
}

// keptIn reports a local variable that is assigned only outside of the loop,
// by its own function. Without a loop, that closures do not assign it.
func keptIn(v ssa.Value, h *ssa.BasicBlock) bool {
	cell, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	var body map[*ssa.BasicBlock]bool
	if h != nil {
		body = naturalLoop(h)
	}
	if body[cell.Block()] {
		return false
	}
	var only func(v ssa.Value, own bool) bool
	only = func(v ssa.Value, own bool) bool {
		for _, ref := range *v.Referrers() {
			switch in := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if in.Val == v || !own || body[in.Block()] {
					return false
				}
			case *ssa.MakeClosure:
				f := in.Fn.(*ssa.Function)
				for i, b := range in.Bindings {
					if b == v && !only(f.FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return only(cell, true)
}

// monotone recognises a loop variable that only grows, or only shrinks, and
// gives the value that it starts from.
func monotone(ph *ssa.Phi) (init ssa.Value, dir int) {
	b := ph.Block()
	if len(b.Preds) != len(ph.Edges) {
		return nil, 0
	}
	for i, p := range b.Preds {
		v := ph.Edges[i]
		if !backEdge(p, b) {
			if init != nil && init != v {
				return nil, 0
			}
			init = v
			continue
		}
		if v == ph {
			continue
		}
		bo, ok := v.(*ssa.BinOp)
		if !ok || bo.X != ph {
			return nil, 0
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return nil, 0
		}
		d := constant.Sign(c.Value)
		if bo.Op == token.SUB {
			d = -d
		} else if bo.Op != token.ADD {
			return nil, 0
		}
		if dir*d < 0 {
			return nil, 0
		}
		dir += d
		if dir > 1 {
			dir = 1
		} else if dir < -1 {
			dir = -1
		}
	}
	if init == nil {
		return nil, 0
	}
	return init, dir
}

// earlier reports whether an address is that of an element whose index is
// given by what a loop variable was before.
func earlier(f *Frame, a *Term, phis []*ssa.Phi) bool {
	for ; isPath(a); a = a.Args[0] {
		if a.Op != "indexaddr" || a.Args[1].Kind != 'o' {
			continue
		}
		for _, ph := range phis {
			if a.Args[1].has(mkLeaf(f, ph, "")) {
				return true
			}
		}
	}
	return false
}

// stableAlias limits what a loop variable may stand for after an iteration, so
// that the analysis of the loop ends.
func stableAlias(t *Term) bool { return termSize(t) < 12 }

func termSize(t *Term) int {
	n := 1
	for _, a := range t.Args {
		if t.Kind == 'l' {
			break
		}
		n += termSize(a)
		if n > 50 {
			return n
		}
	}
	return n
}

func clampLins(s *State, widen map[*Term]bool) {
	for k, f := range s.lins {
		hit := false
		for _, a := range f.f.at {
			for _, l := range a.leaves {
				if widen[l] {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		v := f.v.clone()
		if v.hasLo {
			switch {
			case v.lo > 1:
				v.lo = 1
			case v.lo < -2:
				v.hasLo, v.lo = false, 0
			}
		}
		if v.hasHi {
			switch {
			case v.hi > 2:
				v.hasHi, v.hi = false, 0
			case v.hi < -2:
				v.hi = -2
			}
		}
		var ns []int64
		for _, n := range v.neq {
			if n >= -1 && n <= 1 {
				ns = append(ns, n)
			}
		}
		v.neq = ns
		if v.trivial() {
			delete(s.lins, k)
		} else {
			s.lins[k] = &linFact{f: f.f, v: v}
		}
	}
}

// eval computes the term of a value-producing instruction other than a call.
func (e *Engine) eval(x *Ctx, in ssa.Instruction) *Term {
	s, f := x.S, x.F
	switch v := in.(type) {
	case *ssa.Alloc:
		l := mkLeaf(f, v, "")
		if !e.conc[v] {
			for k := range s.mem {
				if k == l || under(k, l) {
					delete(s.mem, k)
				}
			}
			s.mem[l] = mkZero(v.Type().(*types.Pointer).Elem())
		}
		return l
	case *ssa.BinOp:
		return mkBin(v.Op, v.X.Type(), v.Type(), x.Val(v.X), x.Val(v.Y))
	case *ssa.UnOp:
		a := x.Val(v.X)
		switch v.Op {
		case token.MUL:
			return e.load(x, v, a)
		case token.NOT:
			return mkNot(a)
		case token.SUB:
			if isSignedInt(v.Type()) {
				return mkLin(linOf(a).times(-1))
			}
			if c, ok := constFloat(a); ok {
				return mkConst(constant.MakeFloat64(-c), v.Type())
			}
			return mkOp("neg", v.Type(), a)
		case token.XOR:
			return mkOp("compl", v.Type(), a)
		}
		return nil
	case *ssa.ChangeType:
		return x.Val(v.X)
	case *ssa.ChangeInterface:
		return x.Val(v.X)
	case *ssa.Convert:
		return mkConv(v.X.Type(), v.Type(), x.Val(v.X))
	case *ssa.MakeInterface:
		return mkOp("iface", v.X.Type(), x.Val(v.X))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range v.Bindings {
			bs = append(bs, x.Val(b))
		}
		return mkOpX("closure", v.Type(), v.Fn.(*ssa.Function), 0, bs...)
	case *ssa.MakeSlice:
		l := mkLeaf(f, v, "")
		s.env[mkLen(l)] = x.Val(v.Len)
		return l
	case *ssa.MakeChan:
		return nil
	case *ssa.MakeMap:
		l := mkLeaf(f, v, "")
		return l
	case *ssa.FieldAddr:
		return mkFieldAddr(x.Val(v.X), v.Field, v.X.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Field:
		if o := e.optTerm(v.X.Type(), v.Field); o != nil {
			return o
		}
		return mkField(x.Val(v.X), v.Field, v.X.Type())
	case *ssa.IndexAddr:
		b, i := x.Val(v.X), x.Val(v.Index)
		if b == tNil {
			s.dead = true // it panics
			return nil
		}
		return mkIndexAddr(b, i, v.Type())
	case *ssa.Index:
		return mkOp("index", v.Type(), x.Val(v.X), x.Val(v.Index))
	case *ssa.Lookup:
		if isString(v.X.Type()) {
			return mkOp("index", v.Type(), x.Val(v.X), x.Val(v.Index))
		}
		return nil
	case *ssa.Slice:
		return e.slice(x, v)
	case *ssa.Extract:
		t := x.Val(v.Tuple)
		if t.Kind == 'o' && t.Op == "tuple" {
			return t.Args[v.Index]
		}
		return s.norm(mkOpX("extract", v.Type(), nil, v.Index, t))
	case *ssa.TypeAssert:
		return e.typeAssert(x, v)
	}
	return nil
}

func mkIndexAddr(b, i *Term, typ types.Type) *Term {
	if b.Kind == 'o' && b.Op == "slice" {
		return mkIndexAddr(b.Args[0], mkLin(linOf(b.Args[1]).plus(linOf(i), 1)), typ)
	}
	return mkOp("indexaddr", typ, b, i)
}

func mkConv(from, to types.Type, a *Term) *Term {
	if a.Kind == 'c' && a.C != nil {
		switch {
		case isFloat(to):
			if v := constant.ToFloat(a.C); v.Kind() == constant.Float {
				return mkConst(v, to)
			}
		case isSignedInt(to), isUnsigned(to):
			if v := constant.ToInt(a.C); v.Kind() == constant.Int && (isSignedInt(to) || constant.Sign(v) >= 0) {
				return mkConst(v, to)
			}
		}
	}
	if isSignedInt(from) && isSignedInt(to) {
		fs, ts := basicSize(from), basicSize(to)
		if ts >= fs {
			return a
		}
		return mkOp("conv:"+typKey(to.Underlying()), to, a)
	}
	if isSignedInt(to) && a.Kind == 'o' && strings.HasPrefix(a.Op, "conv:uint") && basicSize(to) >= basicSize(from) && isSignedInt(a.Args[0].Typ) && basicSize(from) >= basicSize(a.Args[0].Typ) {
		return a.Args[0]
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return a
	}
	return mkOp("conv:"+typKey(to.Underlying()), to, a)
}

func basicSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

// optTerm recognises a hyperparameter: a field of the Options struct of a
// model that is only assigned while the options are put together.
func (e *Engine) optTerm(structTyp types.Type, field int) *Term {
	n := namedOf(structTyp)
	if n == nil || n.Obj().Name() != "Options" || n.Obj().Pkg() == nil || e.P.Pkgs[n.Obj().Pkg().Path()] == nil {
		return nil
	}
	st := structOf(structTyp)
	if st == nil || field >= st.NumFields() {
		return nil
	}
	if e.optMut[n.Obj().Pkg().Path()+"."+st.Field(field).Name()] {
		return nil
	}
	return mkOpt(n, st.Field(field).Name(), st.Field(field).Type())
}

func (e *Engine) load(x *Ctx, v *ssa.UnOp, a *Term) *Term {
	s := x.S
	if a.Kind == 'o' && a.Op == "fieldaddr" {
		if o := e.optTerm(a.Typ, a.Field); o != nil {
			return o
		}
	}
	if a.Kind == 'g' {
		if g, ok := a.Val.(*ssa.Global); ok && e.P.constGlobal(g) {
			return mkOp("globalval", v.Type(), a)
		}
	}
	if a.Kind == 'l' {
		if al, ok := a.Val.(*ssa.Alloc); ok && e.conc[al] {
			return nil
		}
	}
	if r := s.read(a); r != nil {
		return s.norm(r)
	}
	l := mkLeaf(x.F, v, "")
	s.mem[a] = l
	return l
}

func (e *Engine) slice(x *Ctx, v *ssa.Slice) *Term {
	s := x.S
	b := x.Val(v.X)
	lo := mkInt(0)
	if v.Low != nil {
		lo = x.Val(v.Low)
	}
	isArr := false
	var hi *Term
	if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
		isArr = true
		if at, ok := p.Elem().Underlying().(*types.Array); ok {
			hi = mkInt(at.Len())
		}
	}
	if v.High != nil {
		hi = x.Val(v.High)
	} else if hi == nil {
		hi = s.lenOf(b)
	}
	s.addLin(linOf(lo), ival{hasLo: true})
	s.addLin(linOf(hi).plus(linOf(lo), -1), ival{hasLo: true})
	if v.High != nil && isString(v.X.Type()) {
		s.addLin(linOf(s.lenOf(b)).plus(linOf(hi), -1), ival{hasLo: true})
	}
	if !isArr && lo == mkInt(0) && hi == s.lenOf(b) {
		return b
	}
	if b.Kind == 'o' && b.Op == "slice" {
		nlo := mkLin(linOf(b.Args[1]).plus(linOf(lo), 1))
		nhi := mkLin(linOf(b.Args[1]).plus(linOf(hi), 1))
		b, lo, hi = b.Args[0], nlo, nhi
	}
	return mkOp("slice", v.Type(), b, lo, hi)
}

func (e *Engine) typeAssert(x *Ctx, v *ssa.TypeAssert) *Term {
	a := x.Val(v.X)
	if a.Kind == 'o' && a.Op == "iface" {
		ok := false
		if it, isI := v.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(a.Typ, it)
			if ok {
				if v.CommaOk {
					return mkOp("tuple", v.Type(), a, tTrue)
				}
				return a
			}
		} else {
			ok = types.Identical(a.Typ, v.AssertedType)
			if ok {
				if v.CommaOk {
					return mkOp("tuple", v.Type(), a.Args[0], tTrue)
				}
				return a.Args[0]
			}
		}
		if v.CommaOk {
			return mkOp("tuple", v.Type(), mkZeroConst2(v.AssertedType), tFalse)
		}
	}
	val := mkOp("assert", v.AssertedType, a)
	if v.CommaOk {
		return mkOp("tuple", v.Type(), val, mkOp("istype", v.AssertedType, a))
	}
	return val
}

func mkZeroConst2(t types.Type) *Term { return mkZero(t) }

// pure lists functions of other packages whose result depends on nothing but their arguments.
func pureFunc(name string) bool {
	if strings.HasPrefix(name, "math.") {
		return true
	}
	switch name {
	case "strings.ToLower", "strings.ToUpper", "strings.HasPrefix", "strings.HasSuffix", "strings.TrimSpace", "strings.Contains",
		"strings.Title", "strings.EqualFold", "path/filepath.Dir", "path/filepath.Clean", "path/filepath.Join", "strconv.Itoa",
		"strings.Map", "strings.ToLowerSpecial", "math/bits.TrailingZeros64":
		return true
	}
	return false
}

// external models a call whose body is not analysed.
func (e *Engine) external(x *Ctx, k *Call) *Term {
	s := x.S
	var l *Term
	if v, ok := x.I.(*ssa.Call); ok {
		l = mkLeaf(x.F, v, "")
	}
	typ := func() types.Type {
		if l != nil {
			return l.Typ
		}
		return types.Typ[types.Invalid]
	}()
	if strings.HasPrefix(k.Name, "builtin.") {
		switch k.Name {
		case "builtin.len":
			return s.lenOf(k.Args[0])
		case "builtin.cap":
			return s.norm(mkOp("cap", typ, k.Args[0]))
		case "builtin.append":
			if l != nil && len(k.Args) == 2 {
				a, b := linOf(s.lenOf(k.Args[0])), linOf(s.lenOf(k.Args[1]))
				s.env[mkLen(l)] = mkLin(a.plus(b, 1))
				s.nils[l] = false
				if v := s.ivalOf(a.plus(b, 1)); !(v.hasLo && v.lo > 0) {
					delete(s.nils, l)
				}
			}
			return nil
		case "builtin.min", "builtin.max":
			if len(k.Args) == 2 && l != nil {
				return e.minmax(x, k, l)
			}
			return nil
		case "builtin.copy":
			for a := range s.mem {
				if a.Kind == 'o' && a.Op == "indexaddr" || a.Kind == 'o' && a.Op == "fieldaddr" && hasIndex(a) || holdsArray(elemTyp(a)) {
					s.dropAround(a)
					delete(s.mem, a)
				}
			}
			return nil
		}
		return nil
	}
	switch k.Name {
	case "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "fmt.Errorf":
		if l != nil {
			s.nils[l] = false
		}
		e.havocArgs(x, k)
		return nil
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage",
		"github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
		return mkOp("errwrap", typ, k.Args[0])
	case "context.Background", "context.TODO":
		return mkOp("ext", typ, mkStr(k.Name))
	}
	if pureFunc(k.Name) {
		as := make([]*Term, len(k.Args))
		copy(as, k.Args)
		return mkOp("call:"+k.Name, typ, as...)
	}
	if k.Fn != nil && len(k.Fn.Blocks) > 0 || k.Name == "" {
		// a function of the repository, or an unknown function value
		e.P.computeMods()
		mods := fnMods[k.Fn]
		for _, a := range sortedMem(s) {
			v, ok := s.mem[a]
			if r := addrRoot(a); !ok || freshRoot(r) && !escapes(r) {
				continue
			}
			if mods == nil {
				delete(s.mem, a)
			} else if mods.has(a) {
				s.unknownAt(a)
			} else if v.Kind == 'o' && (v.Op == "zero" || v.Op == "struct") {
				s.forgetParts(a, mods)
			}
		}
		return nil
	}
	e.havocArgs(x, k)
	return nil
}

func hasIndex(a *Term) bool {
	for isPath(a) {
		if a.Op == "indexaddr" {
			return true
		}
		a = a.Args[0]
	}
	return false
}

// minmax gives the builtin min and max their order facts.
func (e *Engine) minmax(x *Ctx, k *Call, l *Term) *Term {
	s := x.S
	a, b := k.Args[0], k.Args[1]
	for _, o := range []*Term{a, b} {
		if isSignedInt(l.Typ) {
			d := linOf(l).plus(linOf(o), -1)
			if k.Name == "builtin.max" {
				s.addLin(d, ival{hasLo: true})
			} else {
				s.addLin(d, ival{hasHi: true})
			}
		} else if k.Name == "builtin.max" {
			s.addRel(l, o, relGT|relEQ)
		} else {
			s.addRel(l, o, relLT|relEQ)
		}
	}
	return nil
}

// havocArgs forgets what is known of memory that is handed to other packages.
func (e *Engine) havocArgs(x *Ctx, k *Call) {
	s := x.S
	if readOnlyFunc(k.Name) {
		return
	}
	for _, a := range k.Args {
		e.havoc(s, a, 0)
	}
}

func (e *Engine) havoc(s *State, a *Term, d int) {
	if d > 3 {
		return
	}
	if a.Kind == 'o' && a.Op == "iface" {
		a = a.Args[0]
	}
	if a.Kind == 'o' && a.Op == "slice" {
		base := a.Args[0]
		var elems []*Term
		for k, v := range s.mem {
			if under(k, base) {
				elems = append(elems, v)
			}
		}
		for _, v := range elems {
			if v.Kind == 'o' && v.Op == "iface" {
				e.havoc(s, v, d+1)
			}
		}
		return
	}
	if a.Typ == nil {
		return
	}
	if sl, ok := a.Typ.Underlying().(*types.Slice); ok {
		// the elements may be changed
		for _, c := range sortedMem(s) {
			if _, ok := s.mem[c]; ok && c.Kind == 'o' && c.Op == "indexaddr" && types.Identical(elemTyp(c), sl.Elem()) && !freshElse(c, a) {
				s.dropAround(c)
				delete(s.mem, c)
			}
		}
		return
	}
	if _, ok := a.Typ.Underlying().(*types.Pointer); ok || a.Kind == 'o' && isPath(a) {
		s.unknownAt(a)
	}
}

// freshElse reports an element of a local array that is not that of slice a.
func freshElse(c, a *Term) bool {
	r := addrRoot(c)
	return freshRoot(r) && !escapes(r) && !a.has(r)
}

// forgetParts forgets the fields of an object that a function may change.
func (s *State) forgetParts(a *Term, mods *modSet) {
	st := structOf2(a)
	if st == nil {
		if holdsArray(elemTyp(a)) {
			delete(s.mem, a)
			s.dropAround(a)
		}
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fa := mkFieldAddr(a, i, structTypOf(a))
		if mods.has(fa) {
			s.unknownAt(fa)
		} else {
			s.forgetParts(fa, mods)
		}
	}
}

func readOnlyFunc(name string) bool {
	switch {
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"), strings.HasPrefix(name, "fmt.Sprint"),
		strings.HasPrefix(name, "fmt.Errorf"), strings.HasPrefix(name, "github.com/pkg/errors."), strings.HasPrefix(name, "sync/atomic.Load"):
		return true
	}
	return false
}

// gc forgets what cannot influence the rest of the analysis.
func (e *Engine) gc(f *Frame, b *ssa.BasicBlock, i int, s *State) {
	reach := map[*Term]bool{}
	add := func(t *Term) bool {
		ch := false
		for _, l := range t.leaves {
			if !reach[l] {
				reach[l] = true
				ch = true
			}
		}
		return ch
	}
	mark := func(fr *Frame, v ssa.Value) {
		add(mkLeaf(fr, v, ""))
	}
	point := f
	var live map[ssa.Value]bool
	if i == 0 {
		live = e.P.liveIn(f.Fn)[b]
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			mark(f, ph)
		}
		if b.Index == 0 {
			for _, p := range f.Fn.Params {
				mark(f, p)
			}
			for _, p := range f.Fn.FreeVars {
				mark(f, p)
			}
		}
	} else {
		live = e.P.liveAfter(b.Instrs[i-1])
		if v, ok := b.Instrs[i-1].(ssa.Value); ok {
			mark(f, v)
			if tup, ok := v.Type().(*types.Tuple); ok {
				for j := 0; j < tup.Len(); j++ {
					add(mkOpX("extract", tup.At(j).Type(), nil, j, mkLeaf(f, v, "")))
				}
			}
		}
		if _, ok := b.Instrs[i].(*ssa.RunDefers); ok {
			for v := range e.P.liveAfter(b.Instrs[i]) {
				mark(f, v)
			}
		}
	}
	for {
		for v := range live {
			mark(point, v)
		}
		if point.Parent == nil {
			for _, p := range point.Fn.Params {
				mark(point, p)
			}
			for _, p := range point.Fn.FreeVars {
				mark(point, p)
			}
			break
		}
		live = e.P.liveAfter(point.Site)
		if rd, ok := point.Site.(*ssa.RunDefers); ok {
			_ = rd
		}
		point = point.Parent
	}
	for t := range s.tags {
		add(t)
	}
	for _, ds := range s.defers {
		for _, d := range ds {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	ok := func(t *Term) bool {
		for _, l := range t.leaves {
			if l.Frame == nil && l.Op == "" {
				continue
			}
			if !reach[l] {
				if e.C.Pin != nil && l.Val != nil && e.C.Pin(l.Val) {
					continue
				}
				return false
			}
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for k, v := range s.env {
			if ok(k) && add(v) {
				changed = true
			}
		}
		for k, v := range s.mem {
			if ok(k) && add(v) {
				changed = true
			}
		}
	}
	for k := range s.env {
		if !ok(k) {
			delete(s.env, k)
		}
	}
	for k := range s.mem {
		if !ok(k) {
			delete(s.mem, k)
			s.dropAround(k)
		}
	}
	for k := range s.nils {
		if !ok(k) {
			delete(s.nils, k)
		}
	}
	for k := range s.bools {
		if !ok(k) {
			delete(s.bools, k)
		}
	}
	for k := range s.strs {
		if !ok(k) {
			delete(s.strs, k)
		}
	}
	var pts []lin
	var pvs []ival
	for _, v := range s.lins {
		// a value that is known exactly leaves what is known of the others
		rest := v.f
		dead := 0
		for i, a := range v.f.at {
			if !ok(a) {
				p := s.direct(lin{at: []*Term{a}, co: []int64{1}})
				if !p.hasLo || !p.hasHi || p.lo != p.hi {
					dead = -1
					break
				}
				dead++
				rest = rest.plus(lin{at: []*Term{a}, co: []int64{1}}, -v.f.co[i])
				rest.c += v.f.co[i] * p.lo
			}
		}
		if dead > 0 && len(rest.at) > 0 {
			pts = append(pts, rest)
			pvs = append(pvs, *v.v.clone())
		}
	}
	for k, v := range s.lins {
		for _, a := range v.f.at {
			if !ok(a) {
				delete(s.lins, k)
				break
			}
		}
	}
	for _, i := range sortedBy(pts) {
		s.addLin(pts[i], pvs[i])
	}
	for k := range s.rels {
		if !ok(k[0]) || !ok(k[1]) {
			delete(s.rels, k)
		}
	}
}

// sortedBy gives the indices of linear forms in an order that does not depend on how they were collected.
func sortedBy(ls []lin) []int {
	ks := make([]string, len(ls))
	out := make([]int, len(ls))
	for i, l := range ls {
		k, _ := l.norm()
		ks[i] = fmt.Sprint(k, l.c)
		out[i] = i
	}
	sort.SliceStable(out, func(i, j int) bool { return ks[out[i]] < ks[out[j]] })
	return out
}
