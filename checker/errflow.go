package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errFlow decides whether every error that arises below an entry point is
// reported by it: on every path on which an error value may be non-nil when
// the entry point returns, the entry point returns an error.
//
// An error value is marked where a call returns it (or where it is made).
// The mark goes when the value is known to be nil, when it is handed to
// another goroutine that must then look at it, or (in the console) when it is
// printed. A mark whose value is overwritten becomes a "failed" state, which
// only a returned error ends.
type errFlow struct {
	r      *Rep
	e      *Engine
	what   string
	inline func(k *Call) bool
	exempt func(x *Ctx, k *Call) bool
	prints bool // printing an error reports it
	// goroutines that report an error through a channel, variable or group
	reporters map[*Frame]map[string]bool
	learning  bool
	writers   bool // follow buffered writers
	onExit    func(x *Ctx, res []*Term, failed bool)
	onCall    func(x *Ctx, k *Call) (bool, *Term)
	onEdge    func(x *Ctx, cond *Term, val bool)
	onInstr   func(x *Ctx)
	allSwitch bool
}

const ruleErr = "error-reaches-caller"

func errSite(x *Ctx, k *Call) string {
	n := k.Name
	if n == "" {
		n = "a function value"
	}
	return fnName(x.F.Fn) + ": " + short(n)
}

// defaultExempt lists calls whose error says nothing about the property.
func defaultExempt(x *Ctx, k *Call) bool {
	n := k.Name
	switch {
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "bytes.Buffer.Write"), strings.HasPrefix(n, "strings.Builder.Write"):
		return true
	case strings.HasPrefix(n, "fmt.Fprint"):
		return memWriter(k.Args[0]) || stdWriter(k.Args[0])
	case n == "os.File.Close", n == "io.Closer.Close", n == "github.com/peterh/liner.State.Close", n == "runtime/pprof.StartCPUProfile",
		n == "os.Stat", n == "os.Lstat", n == "os.IsNotExist", n == "os.File.Stat":
		return true
	case n == "golang.org/x/sync/semaphore.Weighted.Acquire":
		c := k.Args[1]
		return c.Kind == 'o' && c.Op == "ext"
	case strings.HasPrefix(n, "errors."), strings.HasPrefix(n, "github.com/pkg/errors."):
		return true // handled separately
	case strings.HasPrefix(n, "context."):
		return true
	}
	return false
}

// memWriter: an in-memory buffer, which never fails.
func memWriter(w *Term) bool {
	if w.Kind == 'o' && w.Op == "iface" {
		t := typKey(w.Typ)
		return t == "*bytes.Buffer" || t == "*strings.Builder"
	}
	t := typKey(w.Typ)
	return t == "*bytes.Buffer" || t == "*strings.Builder"
}

func stdWriter(w *Term) bool {
	for w.Kind == 'o' && len(w.Args) > 0 {
		w = w.Args[0]
	}
	if w.Kind == 'g' {
		n := w.Val.String()
		return n == "os.Stdout" || n == "os.Stderr"
	}
	return false
}

func isBufWriter(w *Term) *Term {
	if w.Kind == 'o' && w.Op == "iface" {
		if typKey(w.Typ) == "*bufio.Writer" {
			return w.Args[0]
		}
		return nil
	}
	if typKey(w.Typ) == "*bufio.Writer" {
		return w
	}
	return nil
}

func makesError(n string) bool {
	switch n {
	case "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "fmt.Errorf":
		return true
	}
	return false
}

func tolerateEOF(cond *Term) (*Term, bool) {
	if cond.Kind == 'o' && cond.Op == "==" {
		for i := 0; i < 2; i++ {
			g := cond.Args[i]
			if g.Kind == 'o' && g.Op == "globalval" && g.Args[0].Kind == 'g' && g.Args[0].Val.String() == "io.EOF" {
				return cond.Args[1-i], true
			}
		}
	}
	return nil, false
}

func (ef *errFlow) fail(s *State, site string) {
	if old := s.auto["failed"]; old == "" || old > site {
		s.auto["failed"] = site
	}
}

// covers reports whether returning res reports the error t.
func covers(s *State, res, t *Term) bool {
	res = s.norm(res)
	if s.nilOf(res) == 0 {
		return true
	}
	if res == t || s.norm(t) == res {
		return true
	}
	if res.Kind == 'o' && res.Op == "errwrap" {
		return covers(s, res.Args[0], t)
	}
	return false
}

// sweep drops the marks of errors that are known to be nil.
func (ef *errFlow) sweep(s *State) {
	for t, tag := range s.tags {
		if strings.HasPrefix(tag, "err:") && s.nilOf(t) == 1 {
			delete(s.tags, t)
		}
	}
}

// chanKey names a channel, a shared variable or a group, across goroutines.
func chanKey(t *Term) string { return fmt.Sprintf("%d", t.id) }

func (ef *errFlow) source(x *Ctx, t *Term, site string) {
	ef.r.ok(ruleErr, site)
	x.S.tags[t] = "err:" + site
}

func (ef *errFlow) client() *Client {
	c := &Client{}
	c.Inline = ef.inline
	c.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) {
		s := x.S
		for cond.Kind == 'o' && cond.Op == "!" {
			cond, val = cond.Args[0], !val
		}
		if t, ok := tolerateEOF(cond); ok && val {
			for u := range s.tags {
				if s.norm(u) == s.norm(t) {
					delete(s.tags, u)
				}
			}
		}
		ef.sweep(s)
		// the scanner said whether there is more
		for u, tag := range s.tags {
			if strings.HasPrefix(tag, "scan?") {
				// u is the result of Scan
				if b := s.boolOf(u); b >= 0 {
					delete(s.tags, u)
					id := tag[len("scan?"):]
					for w, t2 := range s.tags {
						if strings.HasPrefix(t2, "scan:") && chanKey(w) == id {
							if b == 1 {
								s.tags[w] = "scan:active"
							} else {
								s.tags[w] = "scan:end"
							}
						}
					}
				}
			}
		}
		if ef.onEdge != nil {
			ef.onEdge(x, cond, val)
		}
	}
	c.Lost = func(x *Ctx, t *Term, tag string) {
		switch {
		case strings.HasPrefix(tag, "err:"):
			ef.fail(x.S, tag[4:])
		case tag == "scan:active" || tag == "scan:end":
			ef.fail(x.S, "scanner: Err is not consulted")
		case tag == "dirty":
			ef.fail(x.S, "buffered output is not flushed")
		}
	}
	c.Instr = func(x *Ctx) { ef.instr(x) }
	c.Call = func(x *Ctx, k *Call) (bool, *Term) { return ef.call(x, k) }
	c.Go = func(x *Ctx, k *Call) {
		g := ef.e.frame(x.F, x.I, k.Fn, "go")
		for key := range ef.reporters[g] {
			x.S.auto["await:"+key] = fnName(k.Fn)
		}
	}
	c.Exit = func(x *Ctx, res []*Term) { ef.exit(x, res) }
	return c
}

func (ef *errFlow) instr(x *Ctx) {
	s := x.S
	switch in := x.I.(type) {
	case *ssa.Send:
		if isErrorType(in.X.Type()) {
			ef.handOver(x, x.Val(in.X), chanKey(x.Val(in.Chan)))
		}
	case *ssa.Store:
		if isErrorType(in.Val.Type()) {
			a := x.Val(in.Addr)
			if al, ok := a.Val.(*ssa.Alloc); ok && a.Kind == 'l' && ef.e.conc[al] {
				ef.handOver(x, x.Val(in.Val), chanKey(a))
			} else if a.Kind == 'o' && a.Op == "fieldaddr" && x.F.goFrame() != nil && !freshRoot(addrRoot(a)) {
				ef.handOver(x, x.Val(in.Val), termKey(a))
			}
		}
	case *ssa.UnOp:
		if u, ok := isRecv(in); ok {
			ct, isc := u.X.Type().Underlying().(*types.Chan)
			if isc && isErrorType(ct.Elem()) {
				l := mkLeaf(x.F, u, "")
				if u.CommaOk {
					l = mkOpX("extract", ct.Elem(), nil, 0, l)
				}
				key := chanKey(x.Val(u.X))
				delete(s.auto, "await:"+key)
				s.nils[l] = true
				delete(s.nils, l)
				ef.source(x, l, fnName(x.F.Fn)+": receive of an error")
			}
		} else if in.Op.String() == "*" && isErrorType(in.Type()) {
			a := x.Val(in.X)
			key := chanKey(a)
			if a.Kind == 'o' && a.Op == "fieldaddr" {
				key = termKey(a)
			}
			if s.auto["await:"+key] != "" {
				delete(s.auto, "await:"+key)
				ef.source(x, mkLeaf(x.F, in, ""), fnName(x.F.Fn)+": error variable of a goroutine")
			}
		}
	case *ssa.Select:
		for _, st := range in.States {
			if ct, ok := st.Chan.Type().Underlying().(*types.Chan); ok && isErrorType(ct.Elem()) {
				ef.r.bad(ruleErr, fnName(x.F.Fn)+": select", "an error goes through a select statement, which this check does not follow (%s)", x.Pos())
			}
		}
	}
	if ef.onInstr != nil {
		ef.onInstr(x)
	}
}

// goFrame is the goroutine root this context belongs to, nil for the caller's own.
func (f *Frame) goFrame() *Frame {
	for g := f; g != nil; g = g.Parent {
		if g.Kind == "go" {
			return g
		}
	}
	return nil
}

// handOver records that an error was given to whoever reads key.
func (ef *errFlow) handOver(x *Ctx, v *Term, key string) {
	s := x.S
	n := s.nilOf(v)
	for t := range s.tags {
		if strings.HasPrefix(s.tags[t], "err:") && (n == 0 || covers(s, v, t)) {
			delete(s.tags, t)
		}
	}
	if n == 0 {
		delete(s.auto, "failed")
	}
	if g := x.F.goFrame(); g != nil && n != 1 {
		if ef.reporters[g] == nil {
			ef.reporters[g] = map[string]bool{}
		}
		ef.reporters[g][key] = true
	}
}

func (ef *errFlow) call(x *Ctx, k *Call) (bool, *Term) {
	s := x.S
	if isVerboseDo(k.Name) {
		return true, nil
	}
	if ef.onCall != nil {
		if h, res := ef.onCall(x, k); h {
			return true, res
		}
	}
	switch k.Name {
	case "bufio.NewScanner":
		if v, ok := x.I.(*ssa.Call); ok {
			s.tags[mkLeaf(x.F, v, "")] = "scan:new"
			ef.r.ok("scanner-consulted", fnName(x.F.Fn))
		}
	case "bufio.Scanner.Scan":
		if v, ok := x.I.(*ssa.Call); ok {
			sc := k.Args[0]
			s.tags[sc] = "scan:active"
			ef.r.ok("scanner-consulted", fnName(x.F.Fn))
			s.tags[mkLeaf(x.F, v, "")] = "scan?" + chanKey(sc)
		}
	case "bufio.Scanner.Err":
		sc := k.Args[0]
		if s.tags[sc] == "scan:end" || s.tags[sc] == "scan:new" {
			delete(s.tags, sc)
		}
	case "golang.org/x/sync/errgroup.Group.Wait":
		delete(s.auto, "await:"+chanKey(k.Args[0]))
	}
	if makesError(k.Name) {
		if v, ok := x.I.(*ssa.Call); ok {
			s.tags[mkLeaf(x.F, v, "")] = "err:" + errSite(x, k)
			ef.r.ok(ruleErr, errSite(x, k))
		}
		// an error that wraps another reports it
		if k.Name == "fmt.Errorf" {
			ef.reportArgs(x, k)
		}
		return false, nil
	}
	if k.Name == "errors.Join" {
		ef.reportArgs(x, k)
	}
	if ef.prints && (strings.HasPrefix(k.Name, "fmt.Print") || strings.HasPrefix(k.Name, "fmt.Fprint") && stdWriter(k.Args[0]) || strings.HasPrefix(k.Name, "log.Print")) {
		for t, tag := range s.tags {
			if strings.HasPrefix(tag, "err:") && s.nilOf(t) == 0 {
				delete(s.tags, t)
			}
		}
		delete(s.auto, "failed")
	}
	if ef.writers {
		if h := ef.writer(x, k); h {
			return false, nil
		}
	}
	if k.Com == nil || !sigHasError(k.Com.Signature()) || (ef.exempt != nil && ef.exempt(x, k)) || defaultExempt(x, k) {
		return false, nil
	}
	if ef.e.canInline(x, k) {
		return false, nil // its own sources are followed
	}
	site := errSite(x, k)
	ts := errResults(x.F, x.I)
	if len(ts) == 0 {
		// deferred
		ef.r.ok(ruleErr, site)
		ef.fail(s, site)
		return false, nil
	}
	for _, t := range ts {
		delete(s.nils, t)
		ef.source(x, t, site)
	}
	return false, nil
}

// reportArgs: the errors among the variadic arguments are part of the result.
func (ef *errFlow) reportArgs(x *Ctx, k *Call) {
	s := x.S
	for _, a := range k.Args {
		if a.Kind == 'o' && a.Op == "slice" {
			for ad, v := range s.mem {
				if under(ad, a.Args[0]) {
					for t := range s.tags {
						if strings.HasPrefix(s.tags[t], "err:") && (v == t || v.has(t)) {
							delete(s.tags, t)
						}
					}
				}
			}
		}
	}
}

func (ef *errFlow) exit(x *Ctx, res []*Term) {
	s := x.S
	ef.sweep(s)
	if x.F.Kind == "go" {
		ef.goExit(x, res)
		return
	}
	var errRes *Term
	sig := x.F.Fn.Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		if isErrorType(sig.At(i).Type()) {
			errRes = s.norm(res[i])
		}
	}
	failing := errRes != nil && s.nilOf(errRes) == 0
	if !failing {
		for _, t := range sortedTags(s) {
			tag := s.tags[t]
			switch {
			case strings.HasPrefix(tag, "err:"):
				if errRes != nil && covers(s, errRes, t) {
					continue
				}
				ef.r.bad(ruleErr, tag[4:], "%s can return without an error (at %s) although this error may be non-nil", ef.what, x.Pos())
			case tag == "scan:active":
				ef.r.bad("scanner-consulted", "end of input", "%s can succeed (return at %s) before the scanner has read the whole input", ef.what, x.Pos())
			case tag == "scan:end":
				ef.r.bad("scanner-consulted", "Err", "%s can succeed (return at %s) without asking the scanner for a read error", ef.what, x.Pos())
			case tag == "dirty":
				ef.r.bad("writer-flushed", "bufio.Writer", "%s can succeed (return at %s) with output left in a buffer", ef.what, x.Pos())
			}
		}
		nilRes := errRes == nil || s.nilOf(errRes) != 0
		if f := s.auto["failed"]; f != "" && nilRes {
			ef.r.bad(ruleErr, f, "%s can return without an error (at %s) although this error was dropped", ef.what, x.Pos())
		}
		for k, v := range s.auto {
			if strings.HasPrefix(k, "await:") {
				ef.r.bad(ruleErr, "goroutine "+v, "%s can return without an error (at %s) without looking at the error that this goroutine reports", ef.what, x.Pos())
			}
		}
	}
	if ef.onExit != nil {
		ef.onExit(x, res, failing)
	}
}

func (ef *errFlow) goExit(x *Ctx, res []*Term) {
	s := x.S
	// a goroutine of an errgroup hands over its result
	site := x.F.Site
	group := ""
	if c, ok := site.(*ssa.Call); ok {
		if n := callName(c); strings.HasSuffix(n, "errgroup.Group.Go") || strings.HasSuffix(n, "errgroup.Group.TryGo") {
			group = chanKey(s.norm(ef.e.val(x.F.Parent, c.Call.Args[0], s)))
		}
	}
	if group != "" && len(res) == 1 {
		ef.handOver(x, s.norm(res[0]), group)
	}
	for _, t := range sortedTags(s) {
		tag := s.tags[t]
		switch {
		case strings.HasPrefix(tag, "err:"):
			ef.r.bad(ruleErr, tag[4:], "goroutine %s can end (at %s) without handing this error, which may be non-nil, to anyone", fnName(x.F.Fn), x.Pos())
		case tag == "scan:active":
			ef.r.bad("scanner-consulted", "end of input", "goroutine %s can end (at %s) before the scanner has read the whole input", fnName(x.F.Fn), x.Pos())
		case tag == "scan:end":
			ef.r.bad("scanner-consulted", "Err", "goroutine %s can end (at %s) without asking the scanner for a read error", fnName(x.F.Fn), x.Pos())
		}
	}
	if f := s.auto["failed"]; f != "" {
		ef.r.bad(ruleErr, f, "goroutine %s drops this error (it ends at %s)", fnName(x.F.Fn), x.Pos())
	}
}

func sortedTags(s *State) []*Term {
	var ts []*Term
	for t := range s.tags {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

// run analyses one entry point, its goroutines, and then the entry point again
// knowing which goroutines report errors to it.
func (ef *errFlow) run(fn *ssa.Function, s *State, what string) {
	ef.what = what
	ef.reporters = map[*Frame]map[string]bool{}
	ef.e = newEngine(ef.r.P, nil)
	ef.e.C = ef.client()
	f := ef.e.rootFrame(fn)
	// first without judging
	judge := ef.r
	ef.r = newRep("", judge.P)
	ef.e.Run(f, s.clone())
	spawned := len(ef.e.Spawns) > 0
	if spawned {
		ef.r = judge
		ef.e.RunSpawned()
		ef.e.reset()
	} else {
		ef.e.reset()
	}
	ef.r = judge
	ef.e.Run(f, s.clone())
	ef.r.absorb(ef.e, what)
}

// writer follows buffered writers: what was written to one must be flushed.
func (ef *errFlow) writer(x *Ctx, k *Call) bool {
	s := x.S
	n := k.Name
	switch {
	case n == "bufio.NewWriter" || n == "bufio.NewWriterSize":
		if v, ok := x.I.(*ssa.Call); ok {
			s.tags[mkLeaf(x.F, v, "")] = "clean"
			ef.r.ok("writer-flushed", fnName(x.F.Fn))
		}
		return true
	case strings.HasPrefix(n, "bufio.Writer.Write") || n == "bufio.Writer.ReadFrom":
		s.tags[k.Args[0]] = "dirty"
		s.auto["wrote"] = "1"
		return true // a failed write makes Flush fail
	case n == "bufio.Writer.Flush":
		s.tags[k.Args[0]] = "clean"
		return false
	case strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || n == "io.Copy":
		if w := isBufWriter(k.Args[0]); w != nil {
			s.tags[w] = "dirty"
			s.auto["wrote"] = "1"
			return n != "io.Copy"
		}
	case n == "bytes.Buffer.WriteTo" || n == "strings.Reader.WriteTo":
		if w := isBufWriter(k.Args[1]); w != nil {
			s.tags[w] = "dirty"
			s.auto["wrote"] = "1"
			return true
		}
	}
	if n == "io.Writer.Write" || n == "io.WriteString" || n == "io.Copy" || strings.HasPrefix(n, "fmt.Fprint") && !memWriter(k.Args[0]) && !stdWriter(k.Args[0]) || n == "bytes.Buffer.WriteTo" {
		s.auto["wrote"] = "1"
	}
	return false
}
