package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file follows the goroutines of an entry point: the typestate of every
// channel, wait group and semaphore in the function that starts them, and a
// summary of what each goroutine signals and waits for.

// isSync: an instruction that blocks, signals or starts a goroutine.
func isSync(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Send, *ssa.Select, *ssa.Go:
		return true
	case *ssa.UnOp:
		return in.Op == token.ARROW
	case ssa.CallInstruction:
		n := callName(in)
		return n == "builtin.close" || isSyncName(n)
	}
	return false
}

func isSyncName(n string) bool {
	if strings.HasPrefix(n, "sync.") {
		return !strings.HasPrefix(n, "sync.Map.") && !strings.HasPrefix(n, "sync.Pool.")
	}
	return strings.HasPrefix(n, "golang.org/x/sync/") || n == "time.AfterFunc"
}

// concOp is something a goroutine waits for.
type concOp struct {
	kind string // send, recv, drain, wait, acquire
	obj  *Term
	pos  string
	// sigs are the signals that are given before it on every path
	sigs map[string]bool
}

// gsum summarises a goroutine.
type gsum struct {
	id    int
	name  string // the construct
	pos   string
	ops   []*concOp
	opIx  map[string]*concOp
	exits int
	// given on every exit; the value is "1" or "many"
	sigs map[string]string
	// something else that may happen after a signal
	after map[string]string
	// units of semaphores that it releases and did not acquire
	net   map[string]int
	some  map[string]bool // signals given on some path
	cells []*Term
	fn    *ssa.Function
	site  ssa.CallInstruction
}

func (g *gsum) op(kind string, obj *Term, pos string, auto map[string]string) {
	k := fmt.Sprintf("%s %p %s", kind, obj, pos)
	now := map[string]bool{}
	for a := range auto {
		if strings.HasPrefix(a, "sig ") {
			now[a[4:]] = true
		}
	}
	o := g.opIx[k]
	if o == nil {
		o = &concOp{kind: kind, obj: obj, pos: pos, sigs: now}
		g.opIx[k] = o
		g.ops = append(g.ops, o)
		return
	}
	for a := range o.sigs {
		if !now[a] {
			delete(o.sigs, a)
		}
	}
}

// concFound is what the analysis of an entry point decides.
type concFound struct {
	rule, construct, msg string // msg is empty when the rule holds
}

type concFacts struct {
	m     map[string]*concFound
	order []string
}

type conc struct {
	r     *Rep
	p     *Prog
	what  string
	inl   func(k *Call) bool
	root  *concFacts // decided about the function that starts the goroutines
	gos   *concFacts // and about the goroutines
	cur   *concFacts
	done  map[string]bool // goroutines that were analysed, with the state
	sums  []*gsum
	given *Term  // a channel of the caller
	base  *State // what is assumed when the entry point is called
	cache map[string]*gsum
	objs  map[string]*Term
	caps  map[*Term]*Term          // capacity of a channel
	pools map[*ssa.MakeChan]bool   // channels that are filled where they are made
	asked map[string]bool          // loops around go statements
	live  func(x *Ctx, gs []*gsum) // told what may run at each instruction of the entry point
}

func newConc(r *Rep, what string) *conc {
	p := r.P
	rel := p.reaches(isSync)
	return &conc{
		r: r, p: p, what: what,
		inl:  func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) && (rel[k.Fn] || constructorLike(k.Fn)) },
		root: &concFacts{m: map[string]*concFound{}}, gos: &concFacts{m: map[string]*concFound{}}, done: map[string]bool{}, cache: map[string]*gsum{}, objs: map[string]*Term{},
		caps: map[*Term]*Term{}, pools: map[*ssa.MakeChan]bool{},
	}
}

func (c *conc) must(ok bool, rule, construct, msg string, args ...interface{}) {
	k := rule + "\x00" + construct
	if c.cur == nil {
		c.cur = c.root
	}
	f := c.cur.m[k]
	if f == nil {
		f = &concFound{rule: rule, construct: construct}
		c.cur.m[k] = f
		c.cur.order = append(c.cur.order, k)
	}
	if !ok && f.msg == "" {
		f.msg = fmt.Sprintf(msg, args...)
	}
}

// emit reports what was decided about the rules.
func (c *conc) emit(rules ...string) {
	for _, fs := range []*concFacts{c.root, c.gos} {
		for _, k := range fs.order {
			f := fs.m[k]
			for _, r := range rules {
				if f.rule == r {
					c.r.must(f.msg == "", f.rule, c.what+": "+f.construct, "%s", f.msg)
				}
			}
		}
	}
}

func (c *conc) id(t *Term) string {
	s := fmt.Sprintf("%p", t)
	c.objs[s] = t
	return s
}

func conName(t *Term) string { return t.String() }

// makes gives the instruction that made a channel.
func makes(t *Term) *ssa.MakeChan {
	for t.Kind == 'o' && (t.Op == "changetype" || t.Op == "convert") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if t.Kind == 'l' && t.Extra == "" {
		mc, _ := t.Val.(*ssa.MakeChan)
		return mc
	}
	return nil
}

// isPool: the channel is one that was filled when it was made.
func (c *conc) isPool(t *Term) bool {
	if mc := makes(t); mc != nil {
		return c.pools[mc]
	}
	if t.Kind != 'l' || t.Val == nil {
		return false
	}
	src := c.p.sources(t.Val)
	for _, s := range src {
		mc, ok := s.(*ssa.MakeChan)
		if !ok || !c.pools[mc] {
			return false
		}
	}
	return len(src) > 0
}

// thread is the client for the function that starts goroutines (g is nil), or
// for a goroutine.
type thread struct {
	c     *conc
	g     *gsum
	recvs map[*ssa.UnOp]bool
	chain func(x *Ctx) bool
}

func effectful(n string) bool {
	if strings.HasPrefix(n, "builtin.") {
		return n == "builtin.close" || n == "builtin.print" || n == "builtin.println" || n == "builtin.panic"
	}
	return !strings.HasSuffix(n, "semaphore.Weighted.Release") && !pureFunc(n)
}

func localCell(a *Term) bool {
	a = addrRoot(a)
	if a.Kind != 'l' {
		return false
	}
	_, ok := a.Val.(*ssa.Alloc)
	return ok
}

// effect notes that something happens after the signals of a goroutine.
func (t *thread) effect(x *Ctx, what string) {
	if t.g == nil {
		return
	}
	for a := range x.S.auto {
		if strings.HasPrefix(a, "sig ") && t.g.after[a[4:]] == "" {
			t.g.after[a[4:]] = what + " (" + x.Pos() + ")"
		}
	}
}

// signal gives a signal of a goroutine.
func (t *thread) signal(x *Ctx, sig string) {
	t.effect(x, sigWord(sig))
	a := "sig " + sig
	if x.S.auto[a] == "" {
		x.S.auto[a] = "1"
	} else {
		x.S.auto[a] = "many"
	}
	t.g.some[sig] = true
}

func sigWord(sig string) string { return strings.SplitN(sig, " ", 2)[0] }

// inOnce gives the call of sync.Once.Do whose function is being run.
func inOnce(f *Frame) bool {
	for ; f != nil; f = f.Parent {
		if f.Kind == "callback" {
			if ci, ok := f.Site.(ssa.CallInstruction); ok && callName(ci) == "sync.Once.Do" {
				return true
			}
		}
		if f.Kind == "go" {
			return false
		}
	}
	return false
}

// block is called where the thread waits for something.
func (t *thread) block(x *Ctx, kind string, obj *Term) {
	c := t.c
	here := fnName(x.F.Fn)
	t.effect(x, kind)
	c.must(!inOnce(x.F), "locks", here, "it waits (%s at %s) inside a sync.Once, while others wait for that", kind, x.Pos())
	for a, v := range x.S.auto {
		if strings.HasPrefix(a, "lock ") && v != "" {
			c.must(false, "locks", here, "it waits (%s at %s) while it holds a lock", kind, x.Pos())
		}
		if strings.HasPrefix(a, "held ") {
			c.must(false, "pool", here, "it waits (%s at %s) while it holds what it took from a pool", kind, x.Pos())
		}
	}
	if t.g != nil {
		t.g.op(kind, obj, x.Pos(), x.S.auto)
	}
}

func (t *thread) running(s *State) []*gsum {
	var out []*gsum
	for a := range s.auto {
		if strings.HasPrefix(a, "run ") {
			i, _ := strconv.Atoi(a[4:])
			out = append(out, t.c.sums[i])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// can decides whether a goroutine gets to give a signal without help of the
// function that started it, which drains the channels in by. It gives the
// reason why not.
func (t *thread) can(x *Ctx, g *gsum, sig string, by map[*Term]bool, seen map[string]bool) string {
	k := fmt.Sprintf("%d %s", g.id, sig)
	if seen[k] {
		return g.name + " and others wait for each other"
	}
	seen[k] = true
	defer delete(seen, k)
	s := x.S
	for _, o := range g.ops {
		if o.sigs[sig] || sig == "drained "+t.c.id(o.obj) && o.kind == "drain" {
			continue // after the signal
		}
		why := ""
		id := t.c.id(o.obj)
		switch o.kind {
		case "send":
			if by[o.obj] || s.auto["drained "+id] != "" {
				continue
			}
			if n, ok := t.capOf(o.obj); ok && n >= 1 && g.sigs["sent "+id] == "1" && s.auto["run "+strconv.Itoa(g.id)] == "1" && t.senders(s, o.obj) == 1 {
				continue
			}
			why = "nothing receives until " + conName(o.obj) + " is drained"
			for _, d := range t.running(s) {
				if d != g && d.sigs["drained "+id] != "" && s.auto["run "+strconv.Itoa(d.id)] == "1" {
					if why = t.can(x, d, "drained "+id, by, seen); why == "" {
						break
					}
				}
			}
		case "recv", "drain":
			if s.auto["closed "+id] != "" {
				continue
			}
			why = "nothing closes " + conName(o.obj)
			for _, d := range t.running(s) {
				if d == g {
					continue
				}
				for _, sg := range []string{"closed " + id, "sent " + id} {
					if d.sigs[sg] != "" && (sg[0] == 'c' || o.kind == "recv") {
						why = t.can(x, d, sg, by, seen)
						break
					}
				}
				if why == "" {
					break
				}
			}
		case "wait":
			if s.auto["waited "+id] != "" {
				continue
			}
			for _, d := range t.running(s) {
				if d != g && d.sigs["done "+id] != "" {
					if w := t.can(x, d, "done "+id, by, seen); w != "" {
						why = w
					}
				}
			}
		case "acquire":
			// the holders are among the goroutines that are asked about too, and
			// what they wait for does not depend on the semaphore
			for _, d := range t.running(s) {
				if d != g && d.hasOp("acquire", o.obj) {
					if w := t.can(x, d, "exit", by, seen); w != "" {
						why = w
					}
				}
			}
		}
		if why != "" {
			return fmt.Sprintf("%s may wait forever (%s at %s): %s", g.name, o.kind, o.pos, why)
		}
	}
	return ""
}

func (g *gsum) hasOp(kind string, obj *Term) bool {
	for _, o := range g.ops {
		if o.kind == kind && o.obj == obj {
			return true
		}
	}
	return false
}

func (t *thread) senders(s *State, ch *Term) int {
	n := 0
	for _, g := range t.running(s) {
		if g.some["sent "+t.c.id(ch)] {
			n++
		}
	}
	return n
}

func (t *thread) capOf(ch *Term) (int64, bool) {
	sz := t.c.caps[ch]
	if sz == nil {
		return 0, false
	}
	return constInt(sz)
}

// joined notes that a goroutine has given its last signal.
func (t *thread) joined(x *Ctx, g *gsum, sig string) {
	c := t.c
	c.must(g.after[sig] == "", "last", g.name, "it goes on after the signal that it is waited for by (%s): %s", sigWord(sig), g.after[sig])
	c.must(true, "joined", g.name, "")
	delete(x.S.auto, "run "+strconv.Itoa(g.id))
	for s := range g.sigs {
		if strings.HasPrefix(s, "closed ") {
			x.S.auto[s] = "y"
		}
		if strings.HasPrefix(s, "drained ") && x.S.auto[s] == "" {
			// the end of the channel came from one that closed it
			t.drained(x, s[len("drained "):])
		}
		if strings.HasPrefix(s, "waited ") {
			t.waited(x, s[len("waited "):])
		}
	}
}

// waited: the wait group id was waited for.
func (t *thread) waited(x *Ctx, id string) {
	for _, g := range t.running(x.S) {
		if g.sigs["done "+id] != "" {
			t.joined(x, g, "done "+id)
		}
	}
	x.S.auto["waited "+id] = "y"
}

// receive handles a receive of the function that starts the goroutines.
func (t *thread) receive(x *Ctx, ch *Term, drain bool) {
	c, s := t.c, x.S
	id := c.id(ch)
	here := fnName(x.F.Fn) + ": receive from " + t.nameOf(x, ch)
	if s.auto["closed "+id] != "" {
		c.must(true, "needs", here, "")
		return
	}
	why := "no goroutine that is running certainly sends to it or closes it"
	for _, g := range t.running(s) {
		if s.auto["run "+strconv.Itoa(g.id)] == "" {
			continue
		}
		for _, sg := range []string{"closed " + id, "sent " + id} {
			if g.sigs[sg] == "" || drain && sg[0] == 's' {
				continue
			}
			by := map[*Term]bool{ch: true}
			why = t.can(x, g, sg, by, map[string]bool{})
			if why == "" && drain {
				// the others that send
				for _, o := range t.running(s) {
					if o != g && o.some["sent "+id] && o.sigs["closed "+id] == "" {
						if w := t.can(x, o, "exit", by, map[string]bool{}); w != "" {
							why = w
						}
					}
				}
			}
			if why == "" && !drain && g.sigs[sg] == "1" && s.auto["run "+strconv.Itoa(g.id)] == "1" && t.onlySignal(s, g, id) {
				c.must(true, "needs", here, "")
				t.joined(x, g, sg)
				return
			}
			if why == "" {
				c.must(true, "needs", here, "")
				return
			}
		}
	}
	c.must(false, "needs", here, "%s may wait forever (%s): %s", fnName(x.F.Fn), x.Pos(), why)
}

// onlySignal: a value or the end of the channel can only come from g, once.
func (t *thread) onlySignal(s *State, g *gsum, id string) bool {
	for _, o := range t.running(s) {
		if o != g && (o.some["sent "+id] || o.some["closed "+id]) {
			return false
		}
	}
	if g.some["sent "+id] && g.sigs["sent "+id] == "" {
		return false // may close it without having sent
	}
	return !(g.sigs["sent "+id] == "many")
}

// nameOf gives a name that does not depend on lines.
func (t *thread) nameOf(x *Ctx, ch *Term) string {
	if mc := makes(ch); mc != nil {
		return "a channel of " + types.TypeString(mc.Type().Underlying().(*types.Chan).Elem(), func(p *types.Package) string { return p.Name() }) + " made in " + fnName(mc.Parent())
	}
	return "a channel"
}

func (t *thread) client() *Client {
	c := t.c
	t.recvs = map[*ssa.UnOp]bool{}
	cl := &Client{Inline: c.inl}
	cl.Instr = t.instr
	cl.Call = t.call
	cl.Go = func(x *Ctx, k *Call) { t.start(x, k) }
	cl.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) { t.edge(x) }
	cl.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		if t.g == nil && backEdge(from, to) {
			t.around(x, to)
		}
	}
	cl.Exit = func(x *Ctx, res []*Term) {
		if x.F.Kind == "root" {
			t.exit(x)
		}
	}
	return cl
}

// around is called at the back edge of a loop: none of an iteration's
// goroutines may be running when the next one starts, where an iteration is a
// round of the outermost loop around the go statement.
func (t *thread) around(x *Ctx, h *ssa.BasicBlock) {
	for _, g := range t.running(x.S) {
		if t.c.asked[fmt.Sprintf("%d %d:%d", g.id, x.F.id, h.Index)] {
			t.c.must(false, "joined", g.name, "it may still run when the next iteration starts (%s)", x.Pos())
			delete(x.S.auto, "run "+strconv.Itoa(g.id))
		}
	}
}

// outermost gives the outermost loop around an instruction.
func outermost(f *Frame, b *ssa.BasicBlock) (*Frame, *ssa.BasicBlock) {
	var of *Frame
	var oh *ssa.BasicBlock
	for f != nil {
		n := 0
		for _, h := range f.Fn.Blocks {
			if body := naturalLoop(h); body != nil && body[b] && len(body) > n {
				of, oh, n = f, h, len(body)
			}
		}
		if f.Site == nil || f.Kind == "go" {
			break
		}
		b = f.Site.Block()
		f = f.Parent
	}
	return of, oh
}

func (t *thread) exit(x *Ctx) {
	c, s := t.c, x.S
	here := fnName(x.F.Fn)
	for a, v := range s.auto {
		switch {
		case strings.HasPrefix(a, "held "):
			c.must(false, "pool", here, "what was taken from a pool may not be given back when it returns (%s)", x.Pos())
		case strings.HasPrefix(a, "lock ") && v != "":
			c.must(false, "locks", here, "it may return with a lock held (%s)", x.Pos())
		case strings.HasPrefix(a, "sem ") && v != "0" && t.g == nil:
			c.must(false, "semaphore", here, "what was acquired may not be released when it returns (%s)", x.Pos())
		}
	}
	if t.g == nil {
		c.must(true, "joined", here, "")
		for _, g := range t.running(s) {
			c.must(false, "joined", g.name, "it may still run when %s returns (%s)", here, x.Pos())
		}
		return
	}
	g := t.g
	now, net := map[string]string{}, map[string]int{}
	for a, v := range s.auto {
		if strings.HasPrefix(a, "sig ") {
			now[a[4:]] = v
		}
		if strings.HasPrefix(a, "sem ") {
			if n, _ := strconv.Atoi(v); n != 0 {
				net[a[4:]] = n
			}
		}
	}
	if g.exits == 0 {
		g.sigs, g.net = now, net
	} else {
		for sg, v := range g.sigs {
			if now[sg] == "" {
				c.must(!endSignal(sg), "signals", g.name, "it may return (%s) without its signal %s", x.Pos(), c.sigName(sg))
				delete(g.sigs, sg)
			} else if now[sg] != v {
				g.sigs[sg] = "many"
			}
		}
		for sg := range now {
			if g.sigs[sg] == "" {
				c.must(!endSignal(sg), "signals", g.name, "it gives its signal %s only on some paths (%s)", c.sigName(sg), x.Pos())
			}
		}
		for k, n := range net {
			if g.net[k] != n {
				c.must(false, "semaphore", g.name, "it does not always give back what it acquired (%s)", x.Pos())
			}
		}
		for k := range g.net {
			if _, ok := net[k]; !ok {
				c.must(false, "semaphore", g.name, "it does not always give back what it acquired (%s)", x.Pos())
			}
		}
	}
	g.exits++
	for sg, v := range now {
		if endSignal(sg) {
			c.must(v == "1", "signals", g.name, "it may give its signal %s twice (%s)", c.sigName(sg), x.Pos())
		}
	}
}

// endSignal: a signal that has to be given exactly once.
func endSignal(sg string) bool {
	return strings.HasPrefix(sg, "done ") || strings.HasPrefix(sg, "closed ")
}

func (c *conc) sigName(sg string) string {
	f := strings.SplitN(sg, " ", 2)
	if len(f) == 2 && c.objs[f[1]] != nil {
		return f[0] + " " + conName(c.objs[f[1]])
	}
	return sg
}

func (t *thread) edge(x *Ctx) {
	for u := range t.recvs {
		if u.Parent() != x.F.Fn {
			continue
		}
		tup := u.Type().(*types.Tuple)
		ok := mkOpX("extract", tup.At(1).Type(), nil, 1, mkLeaf(x.F, u, ""))
		if x.S.boolOf(x.S.norm(ok)) != 0 {
			continue
		}
		a := "got " + fmt.Sprintf("%d:%d", x.F.id, instrID(u))
		id := x.S.auto[a]
		if id == "" {
			continue
		}
		delete(x.S.auto, a)
		t.drained(x, id)
	}
}

// drained: a receive found that the channel id was closed and empty.
func (t *thread) drained(x *Ctx, id string) {
	if t.g != nil {
		if x.S.auto["sig drained "+id] == "" {
			x.S.auto["sig drained "+id] = "1"
		}
		return
	}
	x.S.auto["drained "+id] = "y"
	for _, g := range t.running(x.S) {
		if g.sigs["closed "+id] != "" {
			x.S.auto["closed "+id] = "y"
			if g.after["closed "+id] == "" {
				t.joined(x, g, "closed "+id)
			}
		}
	}
}

func (t *thread) instr(x *Ctx) {
	c, s := t.c, x.S
	here := fnName(x.F.Fn)
	if c.live != nil && t.g == nil {
		c.live(x, t.running(s))
	}
	switch in := x.I.(type) {
	case *ssa.MakeChan:
		l := mkLeaf(x.F, in, "")
		t.fresh(x, l)
		c.caps[l] = s.norm(x.Val(in.Size))
	case *ssa.Alloc:
		l := mkLeaf(x.F, in, "")
		t.fresh(x, l)
	case *ssa.Select:
		c.must(false, "known", here, "a select statement (%s) is not analysed", x.Pos())
	case *ssa.Store:
		a := x.Val(in.Addr)
		if t.g != nil {
			if !localCell(a) {
				t.effect(x, "a store")
			}
			break
		}
		for _, g := range t.running(s) {
			for _, cell := range g.cells {
				if cell == a {
					c.must(false, "known", g.name, "the channel it captured is replaced while it runs (%s)", x.Pos())
				}
			}
		}
	case *ssa.MapUpdate:
		t.effect(x, "a store")
	case *ssa.Go:
		if t.g != nil {
			c.must(false, "known", here, "a goroutine starts another one (%s): not analysed", x.Pos())
		}
	case *ssa.Send:
		t.send(x, s.norm(x.Val(in.Chan)))
	case *ssa.UnOp:
		if in.Op != token.ARROW {
			break
		}
		ch := s.norm(x.Val(in.X))
		id := c.id(ch)
		if c.isPool(ch) {
			for a := range s.auto {
				if strings.HasPrefix(a, "held ") {
					c.must(false, "pool", here, "it takes from a pool (%s) while it holds what it took from one", x.Pos())
				}
			}
			c.must(!inOnce(x.F), "locks", here, "it waits for a pool (%s) inside a sync.Once", x.Pos())
			for a, v := range s.auto {
				if strings.HasPrefix(a, "lock ") && v != "" {
					c.must(false, "locks", here, "it waits for a pool (%s) while it holds a lock", x.Pos())
				}
			}
			c.must(true, "pool", here, "")
			t.effect(x, "a receive")
			s.auto["held "+id] = "y"
			break
		}
		if in.CommaOk {
			t.recvs[in] = true
			s.auto["got "+fmt.Sprintf("%d:%d", x.F.id, instrID(in))] = id
		}
		if makes(ch) == nil && ch != c.given {
			c.must(false, "known", here, "it is not known from which channel it receives (%s: %s)", x.Pos(), ch)
			break
		}
		kind := "recv"
		if in.CommaOk {
			kind = "drain"
		}
		t.block(x, kind, ch)
		if t.g == nil {
			t.receive(x, ch, in.CommaOk)
		}
	}
}

// fresh forgets what was known of the object that is made again.
func (t *thread) fresh(x *Ctx, l *Term) {
	for a := range x.S.auto {
		i := strings.LastIndex(a, " ")
		o := t.c.objs[a[i+1:]]
		if i < 0 || o == nil || addrRoot(o) != l {
			continue
		}
		delete(x.S.auto, a)
	}
	if t.g != nil {
		return
	}
	for _, g := range t.running(x.S) {
		uses := false
		for sg := range g.some {
			f := strings.SplitN(sg, " ", 2)
			if o := t.c.objs[f[1]]; o != nil && addrRoot(o) == l {
				uses = true
			}
		}
		for _, o := range g.ops {
			uses = uses || addrRoot(o.obj) == l
		}
		if uses {
			t.c.must(false, "joined", g.name, "it may still run when what it signals with is made anew (%s)", x.Pos())
			delete(x.S.auto, "run "+strconv.Itoa(g.id))
		}
	}
}

func (t *thread) send(x *Ctx, ch *Term) {
	c, s := t.c, x.S
	here := fnName(x.F.Fn)
	id := c.id(ch)
	if s.auto["held "+id] != "" {
		// gives it back
		t.effect(x, "a send")
		delete(s.auto, "held "+id)
		c.must(true, "pool", here, "")
		return
	}
	if c.isPool(ch) && t.g != nil {
		c.must(false, "pool", here, "it gives to a pool (%s) what it did not take", x.Pos())
		return
	}
	mc := makes(ch)
	if mc == nil && ch != c.given {
		c.must(false, "known", here, "it is not known to which channel it sends (%s: %s)", x.Pos(), ch)
		return
	}
	if t.g != nil {
		c.must(s.auto["sig closed "+id] == "", "channels", here, "it may send (%s) to a channel that it closed", x.Pos())
		t.block(x, "send", ch)
		t.signal(x, "sent "+id)
		return
	}
	// the function that starts the goroutines
	for _, g := range t.running(s) {
		if g.hasOp("recv", ch) || g.hasOp("drain", ch) {
			why := "it does not receive until the channel is drained"
			if g.sigs["drained "+id] != "" {
				why = t.can(x, g, "drained "+id, nil, map[string]bool{})
			}
			c.must(why == "", "needs", here+": send to "+t.nameOf(x, ch), "%s may wait forever (%s): %s", here, x.Pos(), why)
			return
		}
	}
	// nothing receives: it must fit
	why := t.fits(x, ch)
	c.must(why == "", "fill", here, "%s (%s)", why, x.Pos())
	s.auto["fill "+id] = "y"
	c.pools[mc] = true
}

// fits decides whether the sends of a loop fit into the channel, which nothing
// receives from yet.
func (t *thread) fits(x *Ctx, ch *Term) string {
	c, s := t.c, x.S
	id := c.id(ch)
	site := fmt.Sprintf("%d:%d", x.F.id, instrID(x.I))
	if f := s.auto["fill "+id]; f != "" && s.auto["filled "+id] != site {
		return "it fills the channel at several places"
	}
	s.auto["filled "+id] = site
	sz := c.caps[ch]
	if sz == nil {
		return "the capacity of the channel is not known"
	}
	f, h := innermost(x.F, x.I.Block())
	var made *ssa.BasicBlock
	if h != nil && ch.Frame == f {
		made = ch.Val.(*ssa.MakeChan).Block()
	}
	if h == nil || made != nil && naturalLoop(h)[made] {
		if !s.atLeast(sz, 1) {
			return fmt.Sprintf("it sends to a channel of capacity %s that nothing receives from", sz)
		}
		return ""
	}
	n, why := t.rounds(x, f, h, x.F, x.I.Block())
	if n == nil {
		return why
	}
	if !s.lessEq(n, sz) {
		return fmt.Sprintf("it sends %s values into a channel of capacity %s that nothing receives from", n, sz)
	}
	return ""
}

// rounds gives how often the block at (in frame g, called in the loop) is run
// by the loop h of frame f.
func (t *thread) rounds(x *Ctx, f *Frame, h *ssa.BasicBlock, g *Frame, at *ssa.BasicBlock) (*Term, string) {
	for g != f {
		if g == nil {
			return nil, "the loop is not known"
		}
		at, g = g.Site.Block(), g.Parent
	}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		okExit := func(from, to *ssa.BasicBlock) bool { return t.c.p.neverReturns(to) }
		for start, from := range []int64{0, 1} {
			_ = start
			for _, idx := range append([]ssa.Value{ph}, succOf(ph)...) {
				if bound, minus, hh, ok := countFrom(from, idx, at, okExit); ok && hh == h {
					y := &Ctx{x.E, f, x.I, x.S}
					b := again(y, bound)
					return x.S.norm(mkLin(linOf(b).plus(lin{c: 1}, -minus-from))), ""
				}
			}
		}
	}
	return nil, "it is not known how often its loop runs"
}

// succOf gives the next value of a loop variable.
func succOf(ph *ssa.Phi) []ssa.Value {
	var out []ssa.Value
	for _, e := range ph.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.X == ph {
			out = append(out, b)
		}
	}
	return out
}

func background(t *Term) bool {
	if t.Kind == 'o' && t.Op == "ext" && len(t.Args) == 1 {
		n, _ := constStr(t.Args[0])
		return n == "context.Background" || n == "context.TODO"
	}
	return false
}

func (t *thread) call(x *Ctx, k *Call) (bool, *Term) {
	c, s := t.c, x.S
	here := fnName(x.F.Fn)
	if k.Fn != nil && c.inl(k) && x.E.canInline(x, k) {
		return false, nil
	}
	if effectful(k.Name) {
		if !isSyncName(k.Name) && k.Name != "builtin.close" {
			t.effect(x, "a call of "+short(k.Name))
		}
	}
	num := func(a *Term) (int64, bool) { return constInt(s.norm(a)) }
	switch k.Name {
	case "builtin.close":
		ch := s.norm(k.Args[0])
		id := c.id(ch)
		if makes(ch) == nil && ch != c.given || c.isPool(ch) {
			c.must(false, "known", here, "it is not known which channel it closes (%s: %s)", x.Pos(), ch)
			return false, nil
		}
		if t.g != nil {
			t.signal(x, "closed "+id)
			return false, nil
		}
		con := here + ": close of " + t.nameOf(x, ch)
		c.must(s.auto["closed "+id] == "", "channels", con, "it may be closed twice (%s)", x.Pos())
		for _, g := range t.running(s) {
			c.must(!g.some["sent "+id] && !g.some["closed "+id], "channels", con, "%s may still send to it or close it (%s)", g.name, x.Pos())
		}
		s.auto["closed "+id] = "y"
		return false, nil
	case "sync.WaitGroup.Add":
		wg := k.Args[0]
		id := c.id(wg)
		if t.g != nil {
			c.must(false, "waitgroup", here, "a goroutine adds to the wait group itself (%s), which may be waited for before", x.Pos())
			return false, nil
		}
		for _, g := range t.running(s) {
			c.must(g.sigs["waited "+id] == "" && !g.hasOp("wait", wg), "waitgroup", here, "it adds to the wait group (%s) while %s waits for it", x.Pos(), g.name)
		}
		delete(s.auto, "waited "+id)
		old := s.auto["add "+id]
		n, ok := num(k.Args[1])
		if ok {
			m := 0
			if old != "" {
				var err error
				if m, err = strconv.Atoi(old); err != nil {
					c.must(false, "waitgroup", here, "it adds to the wait group (%s) more than goroutines are started", x.Pos())
				}
			}
			s.auto["add "+id] = strconv.Itoa(m + int(n))
			if m+int(n) > 8 || n < 0 {
				c.must(false, "waitgroup", here, "it adds %d to the wait group (%s) and does not start as many goroutines", m+int(n), x.Pos())
				s.auto["add "+id] = "0"
			}
			return false, nil
		}
		if old != "" && old != "0" {
			c.must(false, "waitgroup", here, "it adds to the wait group (%s) more than goroutines are started", x.Pos())
		}
		s.auto["add "+id] = "bulk " + c.id(s.norm(k.Args[1]))
		return false, nil
	case "sync.WaitGroup.Done":
		id := c.id(k.Args[0])
		if t.g != nil {
			t.signal(x, "done "+id)
			return false, nil
		}
		if n, err := strconv.Atoi(s.auto["add "+id]); err == nil && n > 0 {
			s.auto["add "+id] = strconv.Itoa(n - 1)
		} else {
			c.must(false, "waitgroup", here, "it is done (%s) without having added to the wait group", x.Pos())
		}
		return false, nil
	case "sync.WaitGroup.Wait":
		wg := k.Args[0]
		id := c.id(wg)
		t.block(x, "wait", wg)
		if t.g != nil {
			t.signal(x, "waited "+id)
			return false, nil
		}
		con := here + ": wait for the workers"
		c.must(t.balanced(x, id), "waitgroup", con, "%s were added to the wait group (%s) and no goroutine is done for them", s.auto["add "+id], x.Pos())
		why := ""
		for _, g := range t.running(s) {
			if g.sigs["done "+id] != "" {
				if w := t.can(x, g, "done "+id, nil, map[string]bool{}); w != "" {
					why = w
				}
			} else if g.some["done "+id] {
				why = g.name + " may return without being done"
			}
		}
		c.must(why == "", "needs", con, "%s may wait forever (%s): %s", here, x.Pos(), why)
		t.waited(x, id)
		delete(s.auto, "add "+id)
		return false, nil
	case "golang.org/x/sync/semaphore.NewWeighted":
		if v, ok := x.I.(*ssa.Call); ok {
			t.fresh(x, mkLeaf(x.F, v, ""))
			c.caps[mkLeaf(x.F, v, "")] = s.norm(k.Args[0])
		}
		return false, nil
	case "golang.org/x/sync/semaphore.Weighted.Acquire":
		sem := s.norm(k.Args[0])
		id := c.id(sem)
		n, ok := num(k.Args[2])
		if !ok || !background(s.norm(k.Args[1])) {
			c.must(false, "semaphore", here, "it acquires (%s) with a context that may end, or an unknown number", x.Pos())
			return false, nil
		}
		con := here + ": acquires"
		sz := c.caps[sem]
		c.must(sz != nil && s.atLeast(c.unconv(sz), n), "semaphore", con, "it acquires %d of %v (%s), which may be less", n, sz, x.Pos())
		m, _ := strconv.Atoi(s.auto["sem "+id])
		c.must(m <= 0, "semaphore", con, "it acquires (%s) more while it holds some", x.Pos())
		t.block(x, "acquire", sem)
		if t.g == nil {
			why := ""
			for _, g := range t.running(s) {
				if g.net[id] < 0 || g.hasOp("acquire", sem) {
					if w := t.can(x, g, "exit", nil, map[string]bool{}); w != "" {
						why = w
					}
				}
			}
			c.must(why == "", "needs", here+": acquire", "%s may wait forever (%s): %s", here, x.Pos(), why)
		}
		s.auto["sem "+id] = strconv.Itoa(m + int(n))
		if l := resultLeaf(x); l != nil {
			s.addNil(l, true)
		}
		return true, nil
	case "golang.org/x/sync/semaphore.Weighted.Release":
		sem := s.norm(k.Args[0])
		id := c.id(sem)
		n, ok := num(k.Args[1])
		if !ok {
			c.must(false, "semaphore", here, "it releases (%s) an unknown number", x.Pos())
			return false, nil
		}
		m, _ := strconv.Atoi(s.auto["sem "+id])
		m -= int(n)
		if m < -8 {
			m = -8
		}
		if t.g == nil {
			c.must(m >= 0, "semaphore", here+": releases", "it releases (%s) more than it acquired", x.Pos())
		}
		s.auto["sem "+id] = strconv.Itoa(m)
		return false, nil
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
		id := c.id(k.Args[0])
		for a, v := range s.auto {
			if strings.HasPrefix(a, "lock ") && v != "" {
				c.must(false, "locks", here, "it locks (%s) while it holds a lock", x.Pos())
			}
			if strings.HasPrefix(a, "held ") {
				c.must(false, "pool", here, "it locks (%s) while it holds what it took from a pool", x.Pos())
			}
		}
		c.must(!inOnce(x.F), "locks", here, "it locks (%s) inside a sync.Once", x.Pos())
		s.auto["lock "+id] = "y"
		return false, nil
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		id := c.id(k.Args[0])
		c.must(s.auto["lock "+id] != "", "locks", here, "it unlocks (%s) what it did not lock", x.Pos())
		delete(s.auto, "lock "+id)
		return false, nil
	case "sync.Once.Do":
		for f := x.F; f != nil; f = f.Parent {
			if f.Kind == "callback" {
				if ci, ok := f.Site.(ssa.CallInstruction); ok && callName(ci) == "sync.Once.Do" {
					c.must(false, "locks", here, "a sync.Once is used inside a sync.Once (%s)", x.Pos())
				}
			}
		}
		c.must(true, "locks", here, "")
		return false, nil
	case "sync.WaitGroup.Go":
		return false, nil
	}
	if isSyncName(k.Name) {
		c.must(false, "known", here, "what %s does (%s) is not analysed", k.Name, x.Pos())
		return false, nil
	}
	if !c.p.inRepo2(k) {
		for _, a := range k.Args {
			if carriesSync(a.Typ, 0) && !strings.HasPrefix(k.Name, "builtin.") {
				c.must(false, "known", here, "%s gets a channel (%s): not analysed", k.Name, x.Pos())
			}
		}
	}
	return false, nil
}

func (p *Prog) inRepo2(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) }

// unconv drops integer conversions that keep the value.
func (c *conc) unconv(t *Term) *Term {
	for t.Kind == 'o' && t.Op == "convert" && len(t.Args) == 1 && isSignedInt(t.Args[0].Typ) {
		t = t.Args[0]
	}
	return t
}

func resultLeaf(x *Ctx) *Term {
	if v, ok := x.I.(*ssa.Call); ok {
		return mkLeaf(x.F, v, "")
	}
	return nil
}

// carriesSync: a value of the type is a channel or holds one.
func carriesSync(t types.Type, d int) bool {
	if t == nil || d > 3 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return true
	case *types.Pointer:
		if n := typeNameOf(u.Elem()); n == "sync.WaitGroup" || n == "golang.org/x/sync/semaphore.Weighted" || n == "sync.Mutex" {
			return true
		}
		return carriesSync(u.Elem(), d+1)
	case *types.Slice:
		return carriesSync(u.Elem(), d+1)
	}
	return false
}

func typeNameOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// balanced: every unit that was added to the wait group belongs to a goroutine.
func (t *thread) balanced(x *Ctx, id string) bool {
	a := x.S.auto["add "+id]
	switch {
	case a == "" || a == "0":
		return true
	case strings.HasPrefix(a, "bulk "):
		// as many goroutines were to be started, in a loop that ran to its end
		n := t.c.objs[a[5:]]
		if x.S.auto["bulk "+id] != "" {
			return true
		}
		v := x.S.ivalOf(linOf(n))
		return v.hasHi && v.hi <= 0
	}
	return false
}

// start is called at a go statement.
func (t *thread) start(x *Ctx, k *Call) {
	c, s := t.c, x.S
	here := fnName(x.F.Fn)
	if t.g != nil {
		c.must(false, "known", here, "a goroutine starts another one (%s): not analysed", x.Pos())
		return
	}
	if k.Fn == nil || len(k.Fn.Blocks) == 0 {
		c.must(false, "known", here, "it is not known what the goroutine does (%s)", x.Pos())
		return
	}
	if n := callName(x.I.(ssa.CallInstruction)); isSyncName(n) && n != "sync.WaitGroup.Go" {
		c.must(false, "known", here, "what %s does (%s) is not analysed", n, x.Pos())
		return
	}
	g := t.summary(x, k)
	c.must(g.exits > 0, "signals", g.name, "it never returns (%s)", x.Pos())
	run := "run " + strconv.Itoa(g.id)
	of, oh := outermost(x.F, x.I.Block())
	if oh != nil {
		if c.asked == nil {
			c.asked = map[string]bool{}
		}
		c.asked[fmt.Sprintf("%d %d:%d", g.id, of.id, oh.Index)] = true
	}
	c.must(len(g.sigs) > 0 || g.exits == 0, "signals", g.name, "it gives no signal when it ends (%s), so that it cannot be waited for", x.Pos())
	for sg := range g.sigs {
		f := strings.SplitN(sg, " ", 2)
		id := f[1]
		switch f[0] {
		case "done":
			a := s.auto["add "+id]
			n, err := strconv.Atoi(a)
			switch {
			case err == nil && n > 0:
				s.auto["add "+id] = strconv.Itoa(n - 1)
				c.must(true, "waitgroup", g.name, "")
			case strings.HasPrefix(a, "bulk "):
				c.must(t.eachRound(x, id, c.objs[a[5:]]), "waitgroup", g.name, "it is not known that as many goroutines are started (%s) as were added to the wait group", x.Pos())
				s.auto["bulk "+id] = "y"
			default:
				c.must(false, "waitgroup", g.name, "it is started (%s) before it is added to the wait group", x.Pos())
			}
		case "closed":
			c.must(s.auto[run] == "" && s.auto["closed "+id] == "", "channels", g.name, "the channel that it closes may be closed before, or by several goroutines (%s)", x.Pos())
			for _, o := range t.running(s) {
				if o == g {
					continue
				}
				c.must(!o.some["closed "+id], "channels", g.name, "the channel that it closes is closed by another goroutine too (%s)", x.Pos())
				if o.some["sent "+id] {
					c.must(t.sendsBefore(o, g, id), "channels", g.name, "%s may send to the channel after it closed it (%s)", o.name, x.Pos())
				}
			}
		}
	}
	for sg := range g.some {
		f := strings.SplitN(sg, " ", 2)
		if f[0] == "sent" {
			c.must(s.auto["closed "+f[1]] == "", "channels", g.name, "it may send to a channel that was closed (%s)", x.Pos())
			for _, o := range t.running(s) {
				if o != g && o.some["closed "+f[1]] {
					c.must(t.sendsBefore(g, o, f[1]), "channels", g.name, "it may send to a channel after %s closed it (%s)", o.name, x.Pos())
				}
			}
		}
	}
	for id, n := range g.net {
		m, _ := strconv.Atoi(s.auto["sem "+id])
		c.must(m+n == 0, "semaphore", g.name, "it gives back %d and %d were acquired for it (%s)", -n, m, x.Pos())
		s.auto["sem "+id] = "0"
	}
	if s.auto[run] == "" {
		s.auto[run] = "1"
	} else {
		s.auto[run] = "many"
	}
}

// sendsBefore: g closes the channel only after it waited for o, which sends.
func (t *thread) sendsBefore(o, g *gsum, ch string) bool {
	for sg := range o.sigs {
		if strings.HasPrefix(sg, "done ") && g.sigs["waited "+sg[5:]] != "" && o.after[sg] == "" {
			// closed after the wait
			for _, op := range g.ops {
				if op.kind == "wait" && t.c.id(op.obj) == sg[5:] && !op.sigs["closed "+ch] {
					return true
				}
			}
		}
	}
	return false
}

// eachRound: the go statement is run once in each of n rounds of its loop.
func (t *thread) eachRound(x *Ctx, id string, n *Term) bool {
	site := fmt.Sprintf("%d:%d", x.F.id, instrID(x.I))
	if o := x.S.auto["bulk at "+id]; o != "" && o != site {
		return false
	}
	x.S.auto["bulk at "+id] = site
	f, h := innermost(x.F, x.I.Block())
	if h == nil {
		return false
	}
	m, _ := t.rounds(x, f, h, x.F, x.I.Block())
	return m != nil && n != nil && x.S.equal(m, n)
}

// summary analyses a goroutine from the state in which it is started.
func (t *thread) summary(x *Ctx, k *Call) *gsum {
	c, s := t.c, x.S
	key := fmt.Sprintf("%d:%d %p", x.F.id, instrID(x.I), k.Fn)
	var cells []*Term
	for _, a := range k.Args {
		if carriesSync(a.Typ, 0) {
			key += fmt.Sprintf(" %p", s.norm(a))
		}
	}
	for _, b := range k.Bind {
		if pt, ok := b.Typ.Underlying().(*types.Pointer); ok && carriesSync(pt.Elem(), 0) {
			cells = append(cells, b)
			key += fmt.Sprintf(" %p", s.read(b))
		} else if carriesSync(b.Typ, 0) {
			key += fmt.Sprintf(" %p", s.norm(b))
		}
	}
	g := c.cache[key]
	if g == nil {
		g = &gsum{id: len(c.sums), pos: x.Pos(), opIx: map[string]*concOp{}, after: map[string]string{}, some: map[string]bool{}, cells: cells, sigs: map[string]string{}, fn: k.Fn, site: x.I.(ssa.CallInstruction)}
		g.name = "goroutine " + fnName(k.Fn)
		if k.Fn.Parent() != nil {
			g.name = "goroutine of " + fnName(k.Fn.Parent()) + c.role(k.Fn)
		}
		c.cache[key] = g
		c.sums = append(c.sums, g)
	}
	// what it depends on: the objects that exist, and the types of what is
	// called. The rest is forgotten, so that there are few such states.
	st := c.base.clone()
	args := make([]*Term, len(k.Args))
	for i, a := range k.Args {
		args[i] = s.norm(a)
	}
	for _, a := range sortedMem(s) {
		if v := s.norm(s.mem[a]); objTerm(v) {
			st.mem[a] = v
		}
	}
	for a, v := range s.auto {
		if strings.HasPrefix(a, "fill ") {
			st.auto[a] = v
		}
	}
	if full := key + fmt.Sprint(st.factKey()); !c.done[full] {
		c.done[full] = true
		old := c.cur
		c.cur = c.gos
		th := &thread{c: c, g: g}
		c.p.follow(c.r, k.Fn, args, k.Bind, st, th.client(), false, c.what+": "+g.name)
		c.cur = old
	}
	if n := callName(x.I.(ssa.CallInstruction)); n == "sync.WaitGroup.Go" {
		com := x.I.(ssa.CallInstruction).Common()
		wg := x.Val(com.Args[0])
		g.after = map[string]string{}
		g.sigs["done "+c.id(wg)] = "1"
		g.some["done "+c.id(wg)] = true
		id := c.id(wg)
		n, _ := strconv.Atoi(s.auto["add "+id])
		s.auto["add "+id] = strconv.Itoa(n + 1)
	}
	return g
}

// role tells the function literals of a function apart by what they call.
func (c *conc) role(fn *ssa.Function) string {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && c.p.inRepo(f) {
					return " calling " + f.Name()
				}
				if ci.Common().IsInvoke() {
					return " calling " + ci.Common().Method.Name()
				}
			}
		}
	}
	return ""
}

// run analyses an entry point until its goroutines are known in all states in
// which they are started.
func (c *conc) run(fn *ssa.Function, s *State) {
	t := &thread{c: c}
	e := newEngine(c.p, t.client())
	f := e.rootFrame(fn)
	c.base = s.clone()
	for n := 0; ; n++ {
		before := len(c.done)
		c.root = &concFacts{m: map[string]*concFound{}}
		c.cur = c.root
		e.reset()
		st := s.clone()
		e.Run(f, st)
		if n > 0 && len(c.done) == before {
			break
		}
		if n > 5 {
			c.must(false, "known", fnName(fn), "the goroutines are not known after %d rounds", n)
			break
		}
	}
	c.r.absorb(e, c.what+" "+fnName(fn))
}

// objTerm: the value is an object that was made, a function, or an interface
// value of a known type.
func objTerm(t *Term) bool {
	switch t.Kind {
	case 'f', 'g':
		return true
	case 'l':
		switch t.Val.(type) {
		case *ssa.MakeChan, *ssa.Alloc:
			return t.Extra == ""
		case *ssa.Call:
			return t.Extra == "" && carriesSync(t.Typ, 0)
		}
		_, ok := t.Typ.Underlying().(*types.Pointer)
		return ok && t.Val == nil || ok && isParam(t.Val)
	case 'o':
		switch t.Op {
		case "iface":
			return objTerm(t.Args[0])
		case "closure":
			return true
		}
	}
	return false
}

// closes analyses a producer that gets its channel: it closes it once, on every
// way to its end, and sends nothing afterwards.
func (c *conc) closes(fn *ssa.Function) {
	var args []*Term
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Chan); ok {
			c.given = mkSym("its channel", p.Type())
			args = append(args, c.given)
		} else {
			args = append(args, nil)
		}
	}
	g := &gsum{opIx: map[string]*concOp{}, after: map[string]string{}, some: map[string]bool{}, sigs: map[string]string{}, name: fnName(fn)}
	c.sums = append(c.sums, g)
	c.cur = c.gos
	th := &thread{c: c, g: g}
	c.p.follow(c.r, fn, args, nil, newState(), th.client(), false, c.what+": "+g.name)
	c.must(c.given != nil && g.exits > 0 && g.sigs["closed "+c.id(c.given)] == "1", "closes", g.name, "it does not close its channel exactly once on every way to its end")
	for _, o := range g.ops {
		c.must(o.kind == "send" && o.obj == c.given, "closes", g.name, "it waits (%s at %s) for something else", o.kind, o.pos)
	}
}
