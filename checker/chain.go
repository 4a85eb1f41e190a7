package main

import (
	"golang.org/x/tools/go/ssa"
)

// exitState is what is known at one return of an entry point.
type exitState struct {
	S    *State
	Res  []*Term
	Fail int // 1 returns an error, 0 returns no error, -1 may do either
	Pos  string
}

func (p *Prog) errFate(fn *ssa.Function, s *State, res []*Term) int {
	sig := fn.Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		if isErrorType(sig.At(i).Type()) {
			switch s.nilOf(res[i]) {
			case 0:
				return 1
			case 1:
				return 0
			}
			return -1
		}
	}
	return 0
}

// follow analyses fn from state s with the given arguments and captured
// variables and collects its returns. The caller's goroutines are analysed too
// when goroutines is set.
func (p *Prog) follow(r *Rep, fn *ssa.Function, args, binds []*Term, s *State, c *Client, goroutines bool, what string) []exitState {
	var out []exitState
	c2 := *c
	c2.Exit = func(x *Ctx, res []*Term) {
		if x.F.Kind == "root" {
			out = append(out, exitState{S: x.S.clone(), Res: append([]*Term(nil), res...), Fail: p.errFate(fn, x.S, res), Pos: x.Pos()})
		}
		if c.Exit != nil {
			c.Exit(x, res)
		}
	}
	e := newEngine(p, &c2)
	f := e.rootFrame(fn)
	st := s.clone()
	st.tags, st.auto, st.defers = cloneTags(s), cloneAuto(s), map[*Frame][]deferred{}
	for i, pr := range fn.Params {
		if i < len(args) && args[i] != nil {
			st.env[mkLeaf(f, pr, "")] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) && binds[i] != nil {
			st.env[mkLeaf(f, fv, "")] = binds[i]
		}
	}
	e.Run(f, st)
	if goroutines {
		e.RunSpawned()
	}
	r.absorb(e, what)
	return out
}

func cloneTags(s *State) map[*Term]string {
	m := map[*Term]string{}
	for k, v := range s.tags {
		m[k] = v
	}
	return m
}

func cloneAuto(s *State) map[string]string {
	m := map[string]string{}
	for k, v := range s.auto {
		m[k] = v
	}
	return m
}

// created analyses NewForOptions of m in state s: the states in which it
// returns, with the receiver the methods of the new model get.
type created struct {
	exitState
	Recv *Term
}

func (p *Prog) create(r *Rep, m *modelType, s *State, what string) (ok, failed []created) {
	all := func(k *Call) bool { return true }
	for _, x := range p.follow(r, m.NewFO, nil, nil, s, &Client{Inline: all}, false, what+" NewForOptions") {
		c := created{exitState: x}
		if x.Fail == 1 {
			failed = append(failed, c)
			continue
		}
		for _, t := range x.Res {
			if t.Kind == 'o' && t.Op == "iface" {
				c.Recv = t.Args[0]
			}
		}
		if c.Recv == nil {
			r.bad("entry-points", m.Name+" NewForOptions", "the model that NewForOptions returns is not known (%s)", x.Pos)
			continue
		}
		ok = append(ok, c)
	}
	return ok, failed
}

// nilDeref gives the value that is certainly nil and is used as a pointer by
// the instruction, so that it panics.
func nilDeref(x *Ctx) *Term {
	chk := func(v ssa.Value) *Term {
		t := x.Val(v)
		if x.S.nilOf(t) == 1 {
			return t
		}
		return nil
	}
	switch in := x.I.(type) {
	case *ssa.FieldAddr:
		return chk(in.X)
	case *ssa.UnOp:
		if in.Op.String() == "*" {
			return chk(in.X)
		}
	case *ssa.Store:
		return chk(in.Addr)
	case *ssa.MapUpdate:
		return chk(in.Map)
	case *ssa.IndexAddr:
		return chk(in.X)
	case ssa.CallInstruction:
		com := in.Common()
		if com.IsInvoke() {
			return chk(com.Value)
		}
		if com.StaticCallee() == nil {
			if _, ok := com.Value.(*ssa.Builtin); !ok {
				return chk(com.Value)
			}
		}
	}
	return nil
}
