package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic value numbering of numeric kernels ----
//
// A kernel is a function whose loops work on vectors element by element. All of
// its paths are followed once, with calls inlined; each loop is summarised by one
// arbitrary round (round symbol k, 0 <= k < N), whose sums are recognised
// (s' = s + e in every round, with e not depending on s, is s + sum(N, e)).
// Memory is a map from access paths to expressions; distinct access paths are
// taken to be distinct memory. What a loop writes gets a new version, so that an
// expression says whether it uses values from before or after.

type kframe struct {
	id     int
	fn     *ssa.Function
	depth  int
	parent *kframe
}

type kvk struct {
	f *kframe
	v ssa.Value
}

type kevent struct {
	kind string // write, map, call, send, loop
	addr *kx    // write: the element; map: the map
	key  *kx    // map: the key
	val  *kx
	old  *kx
	name string
	args []*kx
	loop *kloop
	pos  string
	fn   *ssa.Function
}

type kloop struct {
	id      int
	k       *kx // the round
	n       *kx // number of rounds, nil if unknown
	over    *kx // range over a map: the map
	paths   []*kpath
	breaks  bool
	fn      *ssa.Function
	counted bool
	down    bool        // the rounds go from the last position to the first
	init    map[*kx]*kx // what the variables of the loop start with
	rngKey  *kx
}

// kpath is one way through a function or a round of a loop.
type kpath struct {
	guards []*kx
	events []kevent
	ret    []*kx
	end    string // return, next (round), exit (of the loop)
	st     *kstate
	to     *ssa.BasicBlock
	from   *ssa.BasicBlock
	cond   bool        // exit by the condition at the head of the loop
	next   map[*kx]*kx // what the variables of the loop are in the next round
}

type kstate struct {
	vals   map[kvk]*kx
	mem    map[*kx]*kx
	ver    map[*kx]int
	guards []*kx
	events []kevent
	cells  map[*kx]types.Type // cells written
	bases  map[*kx]bool       // slices, maps whose elements were written
	spans  map[*kx][]kspan    // what loops wrote
	epoch  int                // counts the points at which anything may have changed
}

// kspan says that between two versions of a slice only the elements lo..hi-1 changed.
type kspan struct {
	from, to int
	lo, hi   *kx
	rk, val  *kx // what element lo+rk holds, if known
}

func newKState() *kstate {
	return &kstate{vals: map[kvk]*kx{}, mem: map[*kx]*kx{}, ver: map[*kx]int{}, cells: map[*kx]types.Type{}, bases: map[*kx]bool{}, spans: map[*kx][]kspan{}}
}

func (s *kstate) clone() *kstate {
	n := newKState()
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.bases {
		n.bases[k] = v
	}
	for k, v := range s.spans {
		n.spans[k] = v
	}
	n.epoch = s.epoch
	n.guards = append([]*kx{}, s.guards...)
	n.events = append([]kevent{}, s.events...)
	return n
}

// assume adds a condition; false means that it cannot hold.
func (s *kstate) assume(c *kx) bool {
	switch kDecide(s.guards, c) {
	case 1:
		return true
	case 0:
		return false
	}
	s.guards = append(s.guards, c)
	return true
}

type kern struct {
	p    *Prog
	call func(k *kern, fr *kframe, s *kstate, in ssa.CallInstruction, fn *ssa.Function, name string, args []*kx) (res *kx, handled bool)
	impl func(in *ssa.CallCommon) []*ssa.Function // targets of an interface call
	norm func(x *kx) *kx
	// inline selects the functions of the repository that are followed (nil: all)
	inline func(f *ssa.Function) bool
	nf     int
	nsym   int
	steps  int
	abort  string
	fns    map[*ssa.Function]bool
	loops  int
	memo   map[string]*kx
	allocs map[string]*ssa.Alloc
	frames map[string]int
	rounds []*kx // the rounds of the loops that are being followed
}

type kabort struct{ msg string }

func newKern(p *Prog) *kern {
	return &kern{p: p, fns: map[*ssa.Function]bool{}, memo: map[string]*kx{}, frames: map[string]int{}, allocs: map[string]*ssa.Alloc{}}
}

func (k *kern) fail(format string, a ...interface{}) { panic(kabort{fmt.Sprintf(format, a...)}) }

func (k *kern) fresh(what string) *kx {
	k.nsym++
	return mkx(fmt.Sprintf("%s#%d", what, k.nsym))
}

// freshAt names something by where it comes from, so that it is the same when
// a loop is analysed again.
func (k *kern) freshAt(fr *kframe, in ssa.Value, what string) *kx {
	key := fmt.Sprintf("%s %d %p", what, fr.id, in)
	x := k.memo[key]
	if x == nil {
		x = k.fresh(what)
		k.memo[key] = x
	}
	if len(k.rounds) > 0 {
		return mkx(x.op, append([]*kx{}, k.rounds...)...)
	}
	return x
}

// Run follows a function with the given arguments.
func (k *kern) Run(fn *ssa.Function, args []*kx, s *kstate) (out []*kpath, abort string) {
	return k.RunIn(fn, args, nil, s)
}

// RunBound is Run for a closure.
func (k *kern) RunBound(fn *ssa.Function, args, bind []*kx) (out []*kpath, abort string) {
	return k.RunIn(fn, args, bind, nil)
}

func (k *kern) RunIn(fn *ssa.Function, args, bind []*kx, s *kstate) (out []*kpath, abort string) {
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(kabort); ok {
				out, abort = nil, a.msg
				return
			}
			panic(e)
		}
	}()
	if s == nil {
		s = newKState()
	}
	out = k.function(nil, nil, fn, args, bind, s)
	return out, ""
}

func (k *kern) function(parent *kframe, at ssa.Instruction, fn *ssa.Function, args, bind []*kx, s *kstate) []*kpath {
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	// the same call has the same frame when a loop is followed again
	key := fmt.Sprintf("%p %p", at, fn)
	if parent != nil {
		key = fmt.Sprintf("%d %s", parent.id, key)
	}
	id := k.frames[key]
	if id == 0 {
		k.nf++
		id = k.nf
		k.frames[key] = id
	}
	fr := &kframe{id: id, fn: fn, depth: d, parent: parent}
	k.fns[fn] = true
	for i, p := range fn.Params {
		s.vals[kvk{fr, p}] = args[i]
	}
	for i, p := range fn.FreeVars {
		s.vals[kvk{fr, p}] = bind[i]
	}
	if len(fn.Blocks) == 0 {
		k.fail("%s has no body", fnName(fn))
	}
	return k.block(fr, nil, fn.Blocks[0], nil, s)
}

type kiter struct {
	h    *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

// block follows the paths from the start of a block to the end of the function
// or of the round of the loop that is being analysed.
func (k *kern) block(fr *kframe, it *kiter, b, pred *ssa.BasicBlock, s *kstate) []*kpath {
	k.steps++
	if k.steps > 60000 {
		k.fail("too many paths in %s", fnName(fr.fn))
	}
	if it != nil {
		if b == it.h {
			return []*kpath{{guards: s.guards, events: s.events, end: "next", st: s, from: pred, to: b}}
		}
		if !it.body[b] {
			return []*kpath{{guards: s.guards, events: s.events, end: "exit", st: s, from: pred, to: b}}
		}
	}
	if naturalLoop(b) != nil {
		return k.loop(fr, it, b, pred, s)
	}
	k.phis(fr, b, pred, s)
	return k.exec(fr, it, b, 0, s)
}

func (k *kern) phis(fr *kframe, b, pred *ssa.BasicBlock, s *kstate) {
	var ns []*kx
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == pred {
				ps = append(ps, ph)
				ns = append(ns, k.val(fr, ph.Edges[i], s))
				break
			}
		}
	}
	for i, ph := range ps {
		s.vals[kvk{fr, ph}] = ns[i]
	}
}

func (k *kern) exec(fr *kframe, it *kiter, b *ssa.BasicBlock, i int, s *kstate) []*kpath {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := k.cond(k.val(fr, in.Cond, s))
			var out []*kpath
			d := kDecide(s.guards, c)
			if d != 0 {
				t := s
				if d < 0 {
					t = s.clone()
				}
				if t.assume(c) {
					out = append(out, k.block(fr, it, b.Succs[0], b, t)...)
				}
			}
			if d != 1 && s.assume(kNot(c)) {
				out = append(out, k.block(fr, it, b.Succs[1], b, s)...)
			}
			return out
		case *ssa.Jump:
			return k.block(fr, it, b.Succs[0], b, s)
		case *ssa.Return:
			p := &kpath{guards: s.guards, events: s.events, end: "return", st: s}
			for _, r := range in.Results {
				p.ret = append(p.ret, k.val(fr, r, s))
			}
			return []*kpath{p}
		case *ssa.Panic:
			return nil
		case *ssa.Call:
			outs := k.doCall(fr, in, in.Common(), s)
			if outs == nil {
				return nil
			}
			if len(outs) == 1 {
				s = outs[0].st
				if outs[0].val != nil {
					s.vals[kvk{fr, in}] = outs[0].val
				}
				continue
			}
			var all []*kpath
			for _, o := range outs {
				if o.val != nil {
					o.st.vals[kvk{fr, in}] = o.val
				}
				all = append(all, k.exec(fr, it, b, i+1, o.st)...)
			}
			return all
		default:
			k.instr(fr, in, s)
		}
	}
	return nil
}

func (k *kern) cond(x *kx) *kx { return x }

type kout struct {
	st  *kstate
	val *kx
}

func (k *kern) doCall(fr *kframe, in ssa.CallInstruction, com *ssa.CallCommon, s *kstate) []kout {
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return []kout{{s, k.builtin(fr, in, b.Name(), com, s)}}
	}
	var args []*kx
	if com.IsInvoke() {
		args = append(args, k.val(fr, com.Value, s))
	}
	for _, a := range com.Args {
		args = append(args, k.val(fr, a, s))
	}
	var fns []*ssa.Function
	var bind []*kx
	switch {
	case com.IsInvoke():
		name := "(" + typKey(com.Value.Type()) + ")." + com.Method.Name()
		if k.call != nil {
			if res, ok := k.call(k, fr, s, in, nil, name, args); ok {
				return []kout{{s, res}}
			}
		}
		if k.impl != nil {
			fns = k.impl(com)
		}
		if len(fns) == 0 {
			return []kout{{s, k.opaqueCall(fr, in, name, nil, args, s)}}
		}
		// a value keeps its type
		for _, f := range fns {
			is := mkx("is:"+typKey(f.Signature.Recv().Type()), args[0])
			for _, g := range s.guards {
				if g == is {
					fns = []*ssa.Function{f}
				}
			}
			if len(fns) == 1 {
				break
			}
		}
	default:
		f := com.StaticCallee()
		if f == nil || f.Parent() != nil {
			v := k.val(fr, com.Value, s)
			if v.fn == nil {
				return []kout{{s, k.opaqueCall(fr, in, "", nil, args, s)}}
			}
			f, bind = v.fn, v.args
		}
		name := qualName(f)
		if k.call != nil {
			if res, ok := k.call(k, fr, s, in, f, name, args); ok {
				return []kout{{s, res}}
			}
		}
		if res, ok := kMath(name, args); ok {
			return []kout{{s, res}}
		}
		if isVerboseDo(name) {
			return []kout{{s, nil}}
		}
		if !k.p.inRepo(f) || len(f.Blocks) == 0 {
			return []kout{{s, k.opaqueCall(fr, in, name, f, args, s)}}
		}
		if k.inline != nil && f.Parent() == nil && !k.inline(f) {
			v := k.opaqueCall(fr, in, name, f, args, s)
			if !k.p.readsOnly(f, map[*ssa.Function]bool{}, false) {
				s.epoch++
			}
			return []kout{{s, v}}
		}
		fns = []*ssa.Function{f}
	}
	var outs []kout
	for n, f := range fns {
		if k.recursive(fr, f) {
			v := k.opaqueCall(fr, in, qualName(f), f, args, s)
			s.epoch++
			outs = append(outs, kout{s.clone(), v})
			continue
		}
		t := s
		if n < len(fns)-1 {
			t = s.clone()
		}
		if fr.depth > 14 {
			k.fail("calls nest too deep at %s", fnName(f))
		}
		if com.IsInvoke() && len(fns) > 1 {
			t.guards = append(t.guards, mkx("is:"+typKey(f.Signature.Recv().Type()), args[0]))
		}
		for _, p := range k.function(fr, in, f, args, bind, t) {
			if p.end != "return" {
				k.fail("a path of %s does not return", fnName(f))
			}
			var v *kx
			switch len(p.ret) {
			case 0:
			case 1:
				v = p.ret[0]
			default:
				v = mkx("tuple", p.ret...)
			}
			outs = append(outs, kout{p.st, v})
		}
	}
	return outs
}

func (k *kern) recursive(fr *kframe, f *ssa.Function) bool {
	for q := fr; q != nil; q = q.parent {
		if q.fn == f {
			return true
		}
	}
	return false
}

// opaqueCall is a call that is not followed. It may change what its arguments
// point to.
func (k *kern) opaqueCall(fr *kframe, in ssa.CallInstruction, name string, fn *ssa.Function, args []*kx, s *kstate) *kx {
	s.events = append(s.events, kevent{kind: "call", name: name, args: args, fn: fn, pos: k.p.posOf(in)})
	v, ok := in.(ssa.Value)
	if !ok {
		return nil
	}
	pure := fn != nil && pureFunc(name)
	if !pure {
		for _, a := range args {
			if (a.op == "alloc" || strings.HasPrefix(a.op, "alloc#")) && !readOnlyFunc(name) {
				k.bump(s, a)
			}
		}
	}
	if tup, ok := v.Type().(*types.Tuple); ok {
		if tup.Len() == 0 {
			return nil
		}
		var rs []*kx
		base := k.freshAt(fr, v, "res:"+name)
		for i := 0; i < tup.Len(); i++ {
			rs = append(rs, mkx(fmt.Sprintf("ret%d", i), base))
		}
		return mkx("tuple", rs...)
	}
	if pure {
		return mkx("call:"+name, args...)
	}
	switch name {
	case "fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return k.freshAt(fr, v, "makeerror")
	}
	return k.freshAt(fr, v, "res:"+name)
}

// kMath models the functions of package math.
func kMath(name string, a []*kx) (*kx, bool) {
	if !strings.HasPrefix(name, "math.") {
		return nil, false
	}
	switch name {
	case "math.Sqrt":
		return kSqrt(a[0]), true
	case "math.Pow":
		return kPow(a[0], a[1]), true
	case "math.Log":
		return kLog(a[0]), true
	case "math.Exp":
		return kExp(a[0]), true
	case "math.Min":
		return mkMinMax("min", a[0], a[1]), true
	case "math.Max":
		return mkMinMax("max", a[0], a[1]), true
	case "math.Hypot":
		return kSqrt(kAdd(kMul(a[0], a[0]), kMul(a[1], a[1]))), true
	case "math.FMA":
		return kAdd(kMul(a[0], a[1]), a[2]), true
	case "math.Log1p":
		return kLog(kAdd(kInt(1), a[0])), true
	}
	return mkx("call:"+name, a...), true
}

func mkMinMax(op string, a, b *kx) *kx {
	if a.key > b.key {
		a, b = b, a
	}
	return mkx(op, a, b)
}

func (k *kern) builtin(fr *kframe, in ssa.CallInstruction, name string, com *ssa.CallCommon, s *kstate) *kx {
	var args []*kx
	for _, a := range com.Args {
		args = append(args, k.val(fr, a, s))
	}
	switch name {
	case "len":
		return k.length(args[0])
	case "cap":
		return mkx("cap", args[0])
	case "copy":
		dst, src := args[0], args[1]
		n := k.length(dst)
		l := &kloop{id: 0, n: n, fn: fr.fn, counted: true}
		l.k = k.freshAt(fr, in.(ssa.Value), "k")
		st := s.clone()
		st.events = nil
		addr := k.elem(dst, l.k)
		v := k.load(st, k.elem(src, l.k), nil)
		l.paths = []*kpath{{events: []kevent{{kind: "write", addr: addr, val: v, old: k.load(st, addr, nil), pos: k.p.posOf(in)}}, end: "next", st: st}}
		s.events = append(s.events, kevent{kind: "loop", loop: l, pos: k.p.posOf(in)})
		k.bump(s, rootBase(addr))
		s.bases[rootBase(addr)] = true
		return n
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = mkMinMax(name, r, a)
		}
		return r
	case "append":
		s.events = append(s.events, kevent{kind: "append", args: args, pos: k.p.posOf(in)})
		return k.freshAt(fr, in.(ssa.Value), "append")
	case "delete":
		s.events = append(s.events, kevent{kind: "delete", addr: args[0], key: args[1], pos: k.p.posOf(in)})
		return nil
	case "clear":
		k.bump(s, args[0])
		s.events = append(s.events, kevent{kind: "clear", addr: args[0], pos: k.p.posOf(in)})
		return nil
	}
	if v, ok := in.(ssa.Value); ok {
		return k.freshAt(fr, v, "builtin:"+name)
	}
	return nil
}

// length of a slice, map or string.
func (k *kern) length(x *kx) *kx {
	switch {
	case x.op == "slice":
		return kSub(x.args[2], x.args[1])
	case strings.HasPrefix(x.op, "make#"):
		return x.args[0]
	case x.op == "row":
		return k.fix(mkx("cols", x.args[0]))
	}
	return k.fix(mkx("len", x))
}

func (k *kern) fix(x *kx) *kx {
	if k.norm != nil {
		if y := k.norm(x); y != nil {
			return y
		}
	}
	return x
}

// elem is the address of an element.
func (k *kern) elem(base, idx *kx) *kx {
	for base.op == "slice" {
		idx = kAdd(base.args[1], idx)
		base = base.args[0]
	}
	return mkx("ia", base, idx)
}

// rootBase is what a version is kept for: the slice that an element belongs to,
// or the cell itself.
func rootBase(a *kx) *kx {
	for {
		switch {
		case a.op == "ia":
			return a.args[0]
		case strings.HasPrefix(a.op, "fa:") && hasElem(a):
			a = a.args[0]
		default:
			return a
		}
	}
}

func hasElem(a *kx) bool {
	for strings.HasPrefix(a.op, "fa:") {
		a = a.args[0]
	}
	return a.op == "ia"
}

// bump forgets what is known of a cell, or of the elements of a slice.
func (k *kern) bump(s *kstate, base *kx) {
	s.ver[base]++
	for a := range s.mem {
		if a == base || rootBase(a) == base || underK(a, base) {
			delete(s.mem, a)
		}
	}
}

// bumpSpan forgets the elements lo..hi-1 of a slice.
func (k *kern) bumpSpan(s *kstate, base, lo, hi *kx, to int, rk, val *kx) {
	old := s.ver[base]
	s.ver[base] = to
	for a := range s.mem {
		if rootBase(a) == base && !(a.op == "ia" && s.outside(a.args[1], lo, hi)) {
			delete(s.mem, a)
		}
	}
	s.spans[base] = append(append([]kspan{}, s.spans[base]...), kspan{old, to, lo, hi, rk, val})
}

// onlyWrite gives the address of the only element of a slice that a round writes,
// which is another one in each round.
func onlyWrite(outs []*kpath, base, rk *kx) *kx {
	var at *kx
	good := true
	var walk func(es []kevent)
	walk = func(es []kevent) {
		for _, e := range es {
			switch e.kind {
			case "loop":
				for _, q := range e.loop.paths {
					walk(q.events)
				}
			case "write":
				if rootBase(e.addr) != base {
					continue
				}
				if e.addr.op != "ia" || at != nil && at != e.addr || !(kHasCoef(e.addr.args[1], rk, 1) || kHasCoef(e.addr.args[1], rk, -1)) || e.addr.args[0].has(rk) {
					good = false
				}
				at = e.addr
			case "clear", "append":
				if e.addr == base {
					good = false
				}
			}
		}
	}
	for _, o := range outs {
		walk(o.events)
	}
	if !good {
		return nil
	}
	return at
}

func underK(a, b *kx) bool {
	for strings.HasPrefix(a.op, "fa:") || a.op == "ia" {
		a = a.args[0]
		if a == b {
			return true
		}
	}
	return false
}

func (k *kern) load(s *kstate, a *kx, t types.Type) *kx {
	if s.epoch > 0 && !freshAddr(a) && !strings.HasPrefix(rootBase(a).op, "make#") {
		return k.fix(mkx("ld", a, mkx(fmt.Sprintf("epoch%d", s.epoch))))
	}
	if v := s.mem[a]; v != nil {
		return v
	}
	if t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok {
			// by fields, if any is known
			known := freshAddr(a)
			for i := 0; i < st.NumFields(); i++ {
				known = known || s.mem[k.field(a, t, i)] != nil
			}
			if known {
				var fs []*kx
				for i := 0; i < st.NumFields(); i++ {
					fs = append(fs, k.load(s, k.field(a, t, i), st.Field(i).Type()))
				}
				return mkx("struct:"+typKey(t), fs...)
			}
		}
	}
	// part of a known struct
	if strings.HasPrefix(a.op, "fa:") {
		if v := s.mem[a.args[0]]; v != nil {
			return k.fieldOf(v, a.op)
		}
	}
	root := rootBase(a)
	ver := s.ver[root]
	if ver == 0 && t != nil {
		if strings.HasPrefix(root.op, "alloc#") || strings.HasPrefix(root.op, "make#") || freshAddr(root) {
			return zeroK(t)
		}
	}
	// elements of an array or slice of unknown index may have been written
	for b := range s.mem {
		if b.op == "ia" && a.op == "ia" && b.args[0] == a.args[0] {
			if d, ok := kSub(b.args[1], a.args[1]).konst(); !ok || d.Sign() == 0 {
				if s.impliesNe(b.args[1], a.args[1]) {
					continue
				}
				return k.fix(mkx("ld", a, mkx("after", s.mem[b], b)))
			}
		}
	}
	if a.op == "ia" {
		sp := s.spans[root]
		for i := len(sp) - 1; i >= 0; i-- {
			if sp[i].to == ver && sp[i].val != nil && s.inside(a.args[1], sp[i].lo, sp[i].hi) {
				return kReplace(sp[i].val, sp[i].rk, kSub(a.args[1], sp[i].lo))
			}
			if sp[i].to == ver && s.outside(a.args[1], sp[i].lo, sp[i].hi) {
				ver = sp[i].from
			}
		}
	}
	if ver == 0 {
		if t != nil && (strings.HasPrefix(root.op, "make#") || freshAddr(root)) {
			return zeroK(t)
		}
		return k.fix(mkx("ld", a))
	}
	return k.fix(mkx("ld", a, kInt(int64(ver))))
}

func (s *kstate) outside(i, lo, hi *kx) bool {
	return kDecide(s.guards, mkRel("ile", kSub(hi, i))) == 1 || kDecide(s.guards, mkRel("ile", kAdd(kSub(i, lo), kInt(1)))) == 1
}

func (s *kstate) inside(i, lo, hi *kx) bool {
	return kDecide(s.guards, mkRel("ile", kSub(lo, i))) == 1 && kDecide(s.guards, mkRel("ile", kAdd(kSub(i, hi), kInt(1)))) == 1
}

func (s *kstate) impliesNe(a, b *kx) bool {
	d := kSub(a, b)
	return kImplied(s.guards, kNot(mkRel("eq", d))) || kImplied(s.guards, mkRel("ile", kAdd(d, kInt(1)))) || kImplied(s.guards, mkRel("ile", kSub(kInt(1), d)))
}

func freshAddr(a *kx) bool {
	for strings.HasPrefix(a.op, "fa:") {
		a = a.args[0]
	}
	return strings.HasPrefix(a.op, "alloc#")
}

func zeroK(t types.Type) *kx {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsNumeric != 0:
			return kInt(0)
		case u.Info()&types.IsBoolean != 0:
			return kFalse
		case u.Info()&types.IsString != 0:
			return mkx(`str:""`)
		}
	case *types.Struct:
		var fs []*kx
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroK(u.Field(i).Type()))
		}
		return mkx("struct:"+typKey(t), fs...)
	case *types.Array:
		return mkx("zero:" + typKey(t))
	}
	return mkx("nil")
}

func (k *kern) field(a *kx, t types.Type, i int) *kx {
	return mkx("fa:"+typKey(t)+"."+fieldName(t, i), a)
}

func (k *kern) fieldOf(v *kx, op string) *kx {
	// op is fa:type.field
	name := op[3:]
	if strings.HasPrefix(v.op, "struct:") {
		t := v.op[7:]
		if strings.HasPrefix(name, t+".") {
			for i, n := range k.structFields(t) {
				if n == name[len(t)+1:] && i < len(v.args) {
					return v.args[i]
				}
			}
		}
	}
	if v.op == "ld" && len(v.args) == 1 {
		return k.fix(mkx("ld", mkx(op, v.args[0])))
	}
	return k.fix(mkx("f:"+name, v))
}

var kStructs = map[string][]string{}

func (k *kern) structFields(t string) []string { return kStructs[t] }

func noteStruct(t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		key := typKey(t)
		if kStructs[key] == nil {
			for i := 0; i < st.NumFields(); i++ {
				kStructs[key] = append(kStructs[key], st.Field(i).Name())
			}
		}
	}
}

func (k *kern) store(fr *kframe, s *kstate, a, v *kx, t types.Type, pos string) {
	if strings.HasPrefix(v.op, "struct:") {
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == len(v.args) {
			for i := range v.args {
				k.store(fr, s, k.field(a, t, i), v.args[i], st.Field(i).Type(), pos)
			}
			return
		}
	}
	if freshAddr(a) {
		s.events = append(s.events, kevent{kind: "set", addr: a, val: v, pos: pos})
	} else {
		s.events = append(s.events, kevent{kind: "write", addr: a, val: v, old: k.load(s, a, t), pos: pos})
	}
	root := rootBase(a)
	if hasElem(a) {
		s.bases[root] = true
		// other elements of unknown index
		for b := range s.mem {
			if b != a && rootBase(b) == root && b.op == a.op {
				ia, ib := elemIdx(a), elemIdx(b)
				if d, ok := kSub(ia, ib).konst(); ok && d.Sign() != 0 || s.impliesNe(ia, ib) {
					continue
				}
				if ia == ib {
					continue
				}
				delete(s.mem, b)
				s.ver[root]++
			}
		}
	} else {
		s.cells[a] = t
		for b := range s.mem {
			if underK(b, a) {
				delete(s.mem, b)
			}
		}
	}
	s.mem[a] = v
}

func elemIdx(a *kx) *kx {
	for strings.HasPrefix(a.op, "fa:") {
		a = a.args[0]
	}
	return a.args[1]
}

func (k *kern) val(fr *kframe, v ssa.Value, s *kstate) *kx {
	switch v := v.(type) {
	case *ssa.Const:
		return kConst(v)
	case *ssa.Function:
		return kxFn(v)
	case *ssa.Global:
		return mkx("global:" + v.String())
	case *ssa.Builtin:
		return mkx("builtin:" + v.Name())
	}
	if x := s.vals[kvk{fr, v}]; x != nil {
		return x
	}
	x := k.freshAt(fr, v, "unknown:"+v.Name())
	s.vals[kvk{fr, v}] = x
	return x
}

func kConst(c *ssa.Const) *kx {
	if c.Value == nil {
		return zeroK(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return kTrue
		}
		return kFalse
	case constant.String:
		return mkx(fmt.Sprintf("str:%q", constant.StringVal(c.Value)))
	case constant.Int, constant.Float:
		r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if ok {
			return kRat(r)
		}
	}
	return mkx("const:" + c.Value.ExactString())
}

func (k *kern) instr(fr *kframe, in ssa.Instruction, s *kstate) {
	set := func(v ssa.Value, x *kx) {
		if x == nil {
			x = k.freshAt(fr, v, "value")
		}
		s.vals[kvk{fr, v}] = x
	}
	v := func(x ssa.Value) *kx { return k.val(fr, x, s) }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		noteStruct(t)
		a := k.freshAt(fr, in, "alloc")
		k.allocs[a.op] = in
		// a new variable in every round
		for b := range s.mem {
			if b == a || underK(b, a) {
				delete(s.mem, b)
			}
		}
		delete(s.ver, a)
		set(in, a)
	case *ssa.BinOp:
		set(in, k.binop(in, v(in.X), v(in.Y)))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			noteStruct(in.Type())
			set(in, k.load(s, v(in.X), in.Type()))
		case token.SUB:
			set(in, kNeg(v(in.X)))
		case token.NOT:
			set(in, kNot(v(in.X)))
		case token.ARROW:
			r := k.freshAt(fr, in, "recv")
			s.events = append(s.events, kevent{kind: "recv", addr: v(in.X), val: r, pos: k.p.posOf(in)})
			set(in, r)
		default:
			set(in, mkx("un"+in.Op.String(), v(in.X)))
		}
	case *ssa.Convert:
		set(in, k.convert(v(in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeType:
		set(in, v(in.X))
	case *ssa.ChangeInterface:
		set(in, v(in.X))
	case *ssa.MakeInterface:
		set(in, v(in.X))
	case *ssa.TypeAssert:
		if in.CommaOk {
			set(in, mkx("tuple", v(in.X), mkx("is:"+typKey(in.AssertedType), v(in.X))))
		} else {
			set(in, v(in.X))
		}
	case *ssa.Extract:
		t := v(in.Tuple)
		if t.op == "tuple" && in.Index < len(t.args) {
			set(in, t.args[in.Index])
		} else {
			set(in, mkx(fmt.Sprintf("ret%d", in.Index), t))
		}
	case *ssa.FieldAddr:
		t := in.X.Type().Underlying().(*types.Pointer).Elem()
		noteStruct(t)
		set(in, k.field(v(in.X), t, in.Field))
	case *ssa.Field:
		noteStruct(in.X.Type())
		set(in, k.fieldOf(v(in.X), "fa:"+typKey(in.X.Type())+"."+fieldName(in.X.Type(), in.Field)))
	case *ssa.IndexAddr:
		set(in, k.elem(v(in.X), v(in.Index)))
	case *ssa.Index:
		set(in, mkx("index", v(in.X), v(in.Index)))
	case *ssa.Lookup:
		var x *kx
		m := v(in.X)
		// an entry that was just stored
		for b, c := range s.mem {
			if b.op == "map" && b.args[0] == m && b.args[1] == v(in.Index) {
				x = c
			}
		}
		if x == nil {
			x = mkx("map", m, v(in.Index))
			if n := s.ver[m]; n > 0 {
				x = mkx("map", m, v(in.Index), kInt(int64(n)))
			}
			x = k.fix(x)
		}
		if in.CommaOk {
			x = mkx("tuple", x, mkx("in", m, v(in.Index)))
		}
		set(in, x)
	case *ssa.MapUpdate:
		m, key := v(in.Map), v(in.Key)
		s.events = append(s.events, kevent{kind: "map", addr: m, key: key, val: v(in.Value), pos: k.p.posOf(in)})
		for b := range s.mem {
			if b.op == "map" && b.args[0] == m {
				delete(s.mem, b)
			}
		}
		s.ver[m]++
		s.mem[mkx("map", m, key)] = v(in.Value)
		s.bases[m] = true
	case *ssa.Slice:
		x := v(in.X)
		lo, hi := kInt(0), (*kx)(nil)
		if in.Low != nil {
			lo = v(in.Low)
		}
		if in.High != nil {
			hi = v(in.High)
		} else {
			hi = k.length(x)
		}
		if x.op == "slice" {
			lo, hi, x = kAdd(x.args[1], lo), kAdd(x.args[1], hi), x.args[0]
		}
		if lo.isInt(0) && kEq(hi, k.length(x)) {
			set(in, x)
		} else {
			set(in, mkx("slice", x, lo, hi))
		}
	case *ssa.MakeSlice:
		b := k.freshAt(fr, in, "make")
		x := mkx(b.op, append([]*kx{v(in.Len)}, b.args...)...)
		for a := range s.mem {
			if rootBase(a) == x {
				delete(s.mem, a)
			}
		}
		delete(s.ver, x)
		set(in, x)
	case *ssa.MakeMap:
		set(in, k.freshAt(fr, in, "makemap"))
	case *ssa.MakeChan:
		set(in, k.freshAt(fr, in, "makechan"))
	case *ssa.MakeClosure:
		var bs []*kx
		for _, b := range in.Bindings {
			bs = append(bs, v(b))
		}
		set(in, kxFn(in.Fn.(*ssa.Function), bs...))
	case *ssa.Range:
		set(in, mkx("range", v(in.X)))
	case *ssa.Next:
		set(in, k.freshAt(fr, in, "next"))
	case *ssa.Store:
		k.store(fr, s, v(in.Addr), v(in.Val), in.Val.Type(), k.p.posOf(in))
	case *ssa.Send:
		s.events = append(s.events, kevent{kind: "send", addr: v(in.Chan), val: v(in.X), pos: k.p.posOf(in)})
	case *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.DebugRef:
	default:
		if x, ok := in.(ssa.Value); ok {
			set(x, nil)
		}
	}
}

func (k *kern) convert(x *kx, from, to types.Type) *kx {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
			return mkx("trunc", x)
		}
		if tb.Kind() == types.Float32 {
			return mkx("float32", x)
		}
		return x
	}
	return mkx("conv:"+typKey(to), x)
}

func isNumericType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func (k *kern) binop(in *ssa.BinOp, x, y *kx) *kx {
	num := isNumericType(in.X.Type())
	isF := num && isFloat(in.X.Type())
	switch in.Op {
	case token.ADD:
		if num {
			return kAdd(x, y)
		}
	case token.SUB:
		return kSub(x, y)
	case token.MUL:
		return kMul(x, y)
	case token.QUO:
		if isF {
			return kDiv(x, y)
		}
		return mkx("quo", x, y)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if !num {
			break
		}
		op := in.Op
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
			op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
		}
		d := kSub(x, y)
		if op == token.LSS {
			if isF {
				return mkRel("lt", d)
			}
			return mkRel("ile", kAdd(d, kInt(1)))
		}
		if !isF {
			return mkRel("ile", d)
		}
		return mkRel("le", d)
	case token.EQL, token.NEQ:
		var c *kx
		switch {
		case num:
			c = mkRel("eq", kSub(x, y))
		case x == y:
			c = kTrue
		case strings.HasPrefix(x.op, "str:") && strings.HasPrefix(y.op, "str:"):
			c = kFalse
		case x == kTrue || y == kTrue || x == kFalse || y == kFalse:
			if x == kTrue || x == kFalse {
				x, y = y, x
			}
			c = x
			if y == kFalse {
				c = kNot(x)
			}
		case y.op == "nil" && notNil(x), x.op == "nil" && notNil(y):
			c = kFalse
		default:
			if x.key > y.key {
				x, y = y, x
			}
			c = mkx("same", x, y)
		}
		if in.Op == token.NEQ {
			return kNot(c)
		}
		return c
	}
	return mkx("op"+in.Op.String(), x, y)
}

func notNil(x *kx) bool {
	return x.fn != nil || strings.HasPrefix(x.op, "alloc#") || strings.HasPrefix(x.op, "make")
}

// loop summarises a loop by one arbitrary round and goes on behind it.
func (k *kern) loop(fr *kframe, it *kiter, h, pred *ssa.BasicBlock, s *kstate) []*kpath {
	body := naturalLoop(h)
	inner := &kiter{h, body}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	init := map[*ssa.Phi]*kx{}
	{
		t := s.clone()
		k.phis(fr, h, pred, t)
		for _, ph := range phis {
			init[ph] = t.vals[kvk{fr, ph}]
		}
	}
	lkey := fmt.Sprintf("loop %d %d %v", fr.id, h.Index, k.rounds)
	l := &kloop{fn: fr.fn, init: map[*kx]*kx{}}
	if x := k.memo[lkey]; x != nil {
		l.k = x
	} else {
		k.loops++
		l.k = mkx(fmt.Sprintf("k#%d", k.loops), append([]*kx{}, k.rounds...)...)
		k.memo[lkey] = l.k
	}
	// range over a map
	var next *ssa.Next
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			next = n
		}
	}
	sym := map[*ssa.Phi]*kx{}
	for i, ph := range phis {
		sym[ph] = mkx(fmt.Sprintf("phi%d", i), l.k)
		l.init[sym[ph]] = init[ph]
	}
	step := map[*ssa.Phi]int64{}
	shiftTo := map[*ssa.Phi]*kx{} // what a counter is in round k
	cellSym := map[*kx]*kx{}
	cellTyp := map[*kx]types.Type{}
	cellStep := map[*kx]*kx{}
	only := map[*kx]*kx{} // the one element of a slice that a round writes
	bumped := map[*kx]bool{}
	var outs []*kpath
	var start *kstate
	round := func() {
		start = s.clone()
		start.events, start.cells, start.bases = nil, map[*kx]types.Type{}, map[*kx]bool{}
		for b := range bumped {
			k.bump(start, b)
			if a := only[b]; a != nil {
				start.mem[a] = k.load(s, a, types.Typ[types.Float64])
			}
		}
		for c, x := range cellSym {
			for b := range start.mem {
				if underK(b, c) {
					delete(start.mem, b)
				}
			}
			if y := cellStep[c]; y != nil {
				x = y
			}
			start.mem[c] = x
		}
		for _, ph := range phis {
			v := sym[ph]
			if x := shiftTo[ph]; x != nil {
				v = x
			}
			start.vals[kvk{fr, ph}] = v
		}
		start.assume(mkRel("ile", kNeg(l.k)))
		if next != nil {
			it := mkx("key", l.k)
			rng := k.val(fr, next.Iter, start)
			var m *kx
			if rng.op == "range" {
				m = rng.args[0]
			} else {
				k.fail("an iterator of %s is not understood", fnName(fr.fn))
			}
			l.over, l.rngKey = m, it
			l.n = k.length(m)
			val := k.fix(mkx("map", m, it))
			if next.IsString {
				val = mkx("index", m, it)
			}
			k.memo[fmt.Sprintf("next %d %p", fr.id, next)] = mkx("tuple", mkx("more", l.k), it, val)
		}
		k.rounds = append(k.rounds, l.k)
		outs = k.iteration(fr, inner, h, next, start.clone())
		k.rounds = k.rounds[:len(k.rounds)-1]
	}
	// what the loop writes
	for n := 0; ; n++ {
		if n > 8 {
			k.fail("the loop at %s does not settle", k.p.posOf(h.Instrs[0]))
		}
		round()
		more := false
		for _, o := range outs {
			for b := range o.st.bases {
				if !bumped[b] {
					bumped[b] = true
					more = true
				}
			}
			for c, t := range o.st.cells {
				if cellSym[c] == nil {
					cellSym[c] = mkx("cell", l.k, c)
					cellTyp[c] = t
					more = true
				}
			}
			s0 := start.ver
			for b, v := range o.st.ver {
				if v > s0[b] && !bumped[b] && cellSym[b] == nil {
					bumped[b] = true
					more = true
				}
			}
		}
		// counters
		for _, ph := range phis {
			if shiftTo[ph] != nil || !isNumericType(ph.Type()) {
				continue
			}
			d, same := (*kx)(nil), true
			for _, o := range outs {
				if o.end != "next" {
					continue
				}
				e := kSub(k.phiNext(fr, ph, o), sym[ph])
				if d != nil && d != e {
					same = false
				}
				d = e
			}
			if d == nil || !same {
				continue
			}
			if c, ok := d.konst(); ok && c.IsInt() && isIntegerType(ph.Type()) {
				n := c.Num().Int64()
				if n == 1 || n == -1 || n == 0 {
					step[ph] = n
					shiftTo[ph] = kAdd(init[ph], kMul(kInt(n), l.k))
					more = true
				}
			}
		}
		for c, sy := range cellSym {
			if cellStep[c] != nil || !isIntegerType(cellTyp[c]) {
				continue
			}
			d, same := (*kx)(nil), true
			for _, o := range outs {
				if o.end != "next" {
					continue
				}
				e := kSub(k.load(o.st, c, cellTyp[c]), sy)
				same = same && (d == nil || d == e)
				d = e
			}
			if d == nil || !same {
				continue
			}
			if n, ok := d.konst(); ok && n.IsInt() {
				cellStep[c] = kAdd(k.load(s, c, cellTyp[c]), kMul(kRat(n), l.k))
				more = true
			}
		}
		// slices of which each round writes one element of its own
		if !more {
			for b := range bumped {
				if _, done := only[b]; done {
					continue
				}
				if a := onlyWrite(outs, b, l.k); a != nil {
					only[b] = a
					more = true
				}
			}
		}
		// values that stay what they are
		for _, ph := range phis {
			if shiftTo[ph] != nil {
				continue
			}
			same := true
			for _, o := range outs {
				same = same && (o.end != "next" || k.phiNext(fr, ph, o) == sym[ph])
			}
			if same {
				shiftTo[ph] = init[ph]
				more = true
			}
		}
		if !more {
			break
		}
	}
	// the number of rounds
	rounds := func() *kx {
		if next != nil {
			return l.n
		}
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		stay := body[h.Succs[0]]
		if stay == body[h.Succs[1]] {
			return nil
		}
		t := start.clone()
		k.rounds = append(k.rounds, l.k)
		c := k.headCond(fr, h, iff, t)
		k.rounds = k.rounds[:len(k.rounds)-1]
		if c == nil {
			return nil
		}
		if !stay {
			c = kNot(c)
		}
		if len(c.args) != 1 {
			return nil
		}
		p := c.args[0]
		strict := false
		if c.op == "not" && p.op == "eq" {
			p = p.args[0]
			if kHasCoef(p, l.k, -1) {
				p = kNeg(p)
			}
			strict = true
		} else if c.op != "ile" {
			return nil
		}
		if !kHasCoef(p, l.k, 1) {
			return nil
		}
		n := kSub(l.k, p) // k <= n or k < n
		if !strict {
			n = kAdd(n, kInt(1))
		}
		if n.has(l.k) {
			return nil
		}
		return n
	}
	l.n = rounds()
	headExit := false
	for _, o := range outs {
		headExit = headExit || o.end == "exit" && o.from == h
	}
	if l.n != nil {
		// a loop that only counts down visits the same positions as one that counts up
		down, up := 0, 0
		for _, ph := range phis {
			switch step[ph] {
			case -1:
				down++
			case 1:
				up++
			}
		}
		if down > 0 && up == 0 {
			l.down = true
			for _, ph := range phis {
				if step[ph] == -1 {
					shiftTo[ph] = kAdd(kSub(init[ph], kSub(l.n, kInt(1))), l.k)
				}
			}
			round()
		}
	}
	l.counted = l.n != nil
	for _, o := range outs {
		o.cond = o.end == "exit" && o.from == h
		if !o.cond && o.end != "next" {
			l.breaks = true
		}
		if !o.cond {
			if o.end == "next" {
				o.next = map[*kx]*kx{}
				for _, ph := range phis {
					o.next[sym[ph]] = k.phiNext(fr, ph, o)
				}
				for c, x := range cellSym {
					if y := cellStep[c]; y == nil {
						o.next[x] = k.load(o.st, c, cellTyp[c])
					}
				}
			}
			l.paths = append(l.paths, o)
		}
		o.guards = o.guards[len(s.guards):]
	}
	ev := kevent{kind: "loop", loop: l, pos: k.p.posOf(h.Instrs[0])}
	after := func(t *kstate) {
		t.events = append(append([]kevent{}, s.events...), ev)
		for c, ty := range s.cells {
			t.cells[c] = ty
		}
		for b := range s.bases {
			t.bases[b] = true
		}
	}
	var result []*kpath
	for _, o := range outs {
		switch {
		case o.end == "next":
		case o.cond:
		case o.end == "return":
			after(o.st)
			q := *o
			q.events = o.st.events
			q.guards = o.st.guards
			result = append(result, &q)
		case o.end == "exit":
			t := o.st.clone()
			after(t)
			result = append(result, k.block(fr, it, o.to, o.from, t)...)
		}
	}
	if headExit {
		t := s.clone()
		for b := range bumped {
			t.bases[b] = true
			// other versions than those in the rounds
			to := s.ver[b]
			for _, o := range outs {
				to = max(to, o.st.ver[b])
			}
			to++
			if a := only[b]; a != nil && l.n != nil && kHasCoef(a.args[1], l.k, 1) {
				lo := kReplace(a.args[1], l.k, kInt(0))
				var val *kx
				for _, o := range outs {
					if o.end != "next" {
						continue
					}
					v := k.load(o.st, a, types.Typ[types.Float64])
					if val != nil && val != v || dependsOnRound(v, phis, sym, cellSym, shiftTo) {
						val = nil
						break
					}
					val = v
				}
				k.bumpSpan(t, b, lo, kAdd(lo, l.n), to, l.k, val)
				continue
			}
			k.bump(t, b)
			t.ver[b] = to
		}
		final := func(x, sy, in0 *kx, nx func(o *kpath) *kx) *kx {
			var e *kx
			for _, o := range outs {
				if o.end != "next" {
					continue
				}
				d := kSub(nx(o), sy)
				if e != nil && e != d || d.has(sy) {
					return mkx("last", l.k, sy)
				}
				e = d
			}
			if e == nil {
				return in0
			}
			if l.n == nil {
				return mkx("last", l.k, sy)
			}
			if e.isInt(0) {
				return in0
			}
			if dep := dependsOnRound(e, phis, sym, cellSym, shiftTo); dep {
				return mkx("last", l.k, sy)
			}
			bound := mkx("κ")
			for e.has(bound) {
				bound = mkx(bound.op + "'")
			}
			return kAdd(in0, kSum(l.n, bound, kReplace(e, l.k, bound)))
		}
		for _, ph := range phis {
			if x := shiftTo[ph]; x != nil {
				v := mkx("last", l.k, sym[ph])
				if l.n != nil {
					// behind the last round
					v = kReplace(x, l.k, l.n)
					if step[ph] == -1 {
						v = kSub(init[ph], l.n)
					}
				}
				if !x.has(l.k) {
					v = x
				}
				t.vals[kvk{fr, ph}] = v
				continue
			}
			if !isNumericType(ph.Type()) {
				t.vals[kvk{fr, ph}] = mkx("last", l.k, sym[ph])
				continue
			}
			t.vals[kvk{fr, ph}] = final(nil, sym[ph], init[ph], func(o *kpath) *kx { return k.phiNext(fr, ph, o) })
		}
		for c, sy := range cellSym {
			if y := cellStep[c]; y != nil && l.n != nil {
				t.mem[c] = kReplace(y, l.k, l.n)
				t.cells[c] = cellTyp[c]
				continue
			}
			in0 := k.load(s, c, cellTyp[c])
			v := mkx("last", l.k, sy)
			if isNumericType(cellTyp[c]) {
				v = final(nil, sy, in0, func(o *kpath) *kx { return k.load(o.st, c, cellTyp[c]) })
			}
			for b := range t.mem {
				if underK(b, c) {
					delete(t.mem, b)
				}
			}
			t.mem[c] = v
			t.cells[c] = cellTyp[c]
		}
		after(t)
		to := h.Succs[0]
		if body[to] {
			to = h.Succs[1]
		}
		// what the head computes
		for _, in := range h.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.If:
			case *ssa.Call:
				if v := k.headCall(fr, in, t); v != nil {
					t.vals[kvk{fr, in}] = v
				}
			default:
				k.instr(fr, in, t)
			}
		}
		result = append(result, k.block(fr, it, to, h, t)...)
	}
	return result
}

// headCall evaluates a call in the condition of a loop, which has to have one outcome.
func (k *kern) headCall(fr *kframe, in *ssa.Call, t *kstate) *kx {
	n := len(t.events)
	outs := k.doCall(fr, in, in.Common(), t.clone())
	if len(outs) != 1 {
		return nil
	}
	t.events = t.events[:n]
	return outs[0].val
}

func (k *kern) headCond(fr *kframe, h *ssa.BasicBlock, iff *ssa.If, t *kstate) *kx {
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If:
		case *ssa.Call:
			v := k.headCall(fr, in, t)
			if v == nil && in.Type() != nil {
				return nil
			}
			t.vals[kvk{fr, in}] = v
		default:
			k.instr(fr, in, t)
		}
	}
	return k.val(fr, iff.Cond, t)
}

// iteration follows one round from the head.
func (k *kern) iteration(fr *kframe, it *kiter, h *ssa.BasicBlock, next *ssa.Next, s *kstate) []*kpath {
	k.steps++
	if k.steps > 60000 {
		k.fail("too many paths in %s", fnName(fr.fn))
	}
	if next != nil {
		s.vals[kvk{fr, next}] = k.memo[fmt.Sprintf("next %d %p", fr.id, next)]
		for i, in := range h.Instrs {
			if in == next {
				return k.exec(fr, it, h, i+1, s)
			}
		}
	}
	return k.exec(fr, it, h, 0, s)
}

func (k *kern) phiNext(fr *kframe, ph *ssa.Phi, o *kpath) *kx {
	for i, p := range ph.Block().Preds {
		if p == o.from {
			return k.val(fr, ph.Edges[i], o.st)
		}
	}
	return mkx("nowhere")
}

func isIntegerType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// kHasCoef reports that p is c*k + something without k.
func kHasCoef(p, k *kx, c int64) bool {
	return !kSub(p, kMul(kInt(c), k)).has(k) && p.has(k)
}

func dependsOnRound(e *kx, phis []*ssa.Phi, sym map[*ssa.Phi]*kx, cells map[*kx]*kx, known map[*ssa.Phi]*kx) bool {
	for _, ph := range phis {
		if known[ph] == nil && e.has(sym[ph]) {
			return true
		}
	}
	for _, c := range cells {
		if e.has(c) {
			return true
		}
	}
	return false
}

// kSum is the sum of e for bound = 0..n-1. What does not depend on it is taken out.
func kSum(n, bound, e *kx) *kx {
	f := e.num()
	if !f.isPoly() {
		return mkx("sum", n, e)
	}
	r := kInt(0)
	for _, m := range f.n.sorted() {
		in, out := kInt(1), kRat(m.c)
		for _, q := range m.f {
			x := kNum(&frac{poly{"": &mono{big.NewRat(1, 1), []factor{q}}}.rekey(), polyConst(big.NewRat(1, 1))})
			if q.a.has(bound) {
				in = kMul(in, x)
			} else {
				out = kMul(out, x)
			}
		}
		if in.isInt(1) {
			r = kAdd(r, kMul(n, out))
		} else {
			r = kAdd(r, kMul(out, mkx("sum", n, in)))
		}
	}
	return r
}

// dump prints what a path does, for development.
func (p *kpath) dump(b *strings.Builder, ind string) {
	fmt.Fprintf(b, "%s[%s] if %v\n", ind, p.end, p.guards)
	for _, e := range p.events {
		switch e.kind {
		case "loop":
			fmt.Fprintf(b, "%s  loop %v n=%v over=%v breaks=%v\n", ind, e.loop.k, e.loop.n, e.loop.over, e.loop.breaks)
			for _, q := range e.loop.paths {
				q.dump(b, ind+"    ")
			}
		case "write":
			fmt.Fprintf(b, "%s  %v := %v\n", ind, e.addr, e.val)
		case "map":
			fmt.Fprintf(b, "%s  %v[%v] := %v\n", ind, e.addr, e.key, e.val)
		default:
			fmt.Fprintf(b, "%s  %s %s %v %v\n", ind, e.kind, e.name, e.args, e.val)
		}
	}
	if p.end == "return" {
		fmt.Fprintf(b, "%s  return %v\n", ind, p.ret)
	}
}

// readsOnly reports that a function changes no memory that its caller sees:
// it stores to its own variables (and, with maps, to maps) alone, and what it
// calls computes or prints.
func (p *Prog) readsOnly(f *ssa.Function, seen map[*ssa.Function]bool, maps bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if !p.inRepo(f) || len(f.Blocks) == 0 {
		return harmless(f)
	}
	own := func(a ssa.Value) bool {
		for {
			switch q := a.(type) {
			case *ssa.FieldAddr:
				a = q.X
				continue
			case *ssa.IndexAddr:
				if _, ok := q.X.(*ssa.Alloc); !ok {
					return false
				}
				a = q.X
				continue
			case *ssa.Alloc:
				return true
			}
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !own(in.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if !maps {
					return false
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Panic:
				return false
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				com := in.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "append", "delete", "clear", "close":
						return false
					}
					continue
				}
				if printing(com) {
					continue
				}
				g := com.StaticCallee()
				if g == nil || g.Parent() != nil || !p.readsOnly(g, seen, maps) {
					return false
				}
			}
		}
	}
	return true
}
