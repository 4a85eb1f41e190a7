package main

import (
	"golang.org/x/tools/go/ssa"
)

// Modular analysis: a function that keeps the rule by itself, for whatever
// arguments, is not looked into again where it is called; one that keeps it
// only under a precondition is not either, but its callers must establish the
// precondition; any other is analysed in the context of its callers.
const (
	modSelf   = "self"
	modPre    = "pre"
	modInline = "inline"
)

type modular struct {
	p      *Prog
	r      *Rep
	client func(r *Rep, fn *ssa.Function) *Client // without Inline
	pre    func(f *Frame, s *State) bool          // assumes the precondition; false: there is none
	in     func(f *ssa.Function) bool             // functions that may be inlined
	has    map[*ssa.Function]bool                 // functions that contain instances of the rule, with their callees
	stat   map[*ssa.Function]string
}

func newModular(p *Prog, r *Rep, interesting func(in ssa.Instruction) bool) *modular {
	return &modular{p: p, r: r, has: p.reaches(interesting), stat: map[*ssa.Function]string{}, in: func(f *ssa.Function) bool { return p.inRepo(f) }}
}

func (m *modular) run(fn *ssa.Function, pre bool) *Rep {
	tmp := newRep(m.r.ID, m.p)
	c := m.client(tmp, fn)
	c.Inline = func(k *Call) bool {
		if k.Fn == nil || !m.in(k.Fn) {
			return false
		}
		return !m.has[k.Fn] || m.status(k.Fn) == modInline
	}
	call := c.Call
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if call != nil {
			if done, t := call(x, k); done {
				return true, t
			}
		}
		if k.Fn == nil && k.Name == "" && k.Com != nil {
			// which function a parameter is only the callers know
			tmp.bad("unresolved", fnName(x.F.Fn), "a function value that is called is not known (%s)", x.Pos())
		}
		return false, nil
	}
	e := newEngine(m.p, c)
	f := e.rootFrame(fn)
	s := newState()
	if pre && !m.pre(f, s) {
		return nil
	}
	e.Run(f, s)
	e.RunSpawned()
	tmp.absorb(e, fnName(fn))
	return tmp
}

func (t *Rep) clean() bool {
	for _, o := range t.obl {
		if !o.OK {
			return false
		}
	}
	return true
}

func (r *Rep) merge(t *Rep) {
	for _, k := range t.order {
		o := t.obl[k]
		if o.OK {
			r.get(o.Rule, o.Construct).Times += o.Times
		} else {
			r.bad(o.Rule, o.Construct, "%s", o.Msg)
		}
	}
	for f := range t.fns {
		r.fns[f] = true
	}
	r.steps += t.steps
	r.runs += t.runs
}

// status decides how calls to fn are treated. What holds in fn by itself or
// under its precondition is reported once.
func (m *modular) status(fn *ssa.Function) string {
	if st, ok := m.stat[fn]; ok {
		return st
	}
	m.stat[fn] = modInline // while it is being decided: recursion is inlined
	if len(fn.Blocks) == 0 {
		return modInline
	}
	if t := m.run(fn, false); t.clean() {
		m.stat[fn] = modSelf
		m.r.merge(t)
	} else if m.pre != nil {
		if t := m.run(fn, true); t != nil && t.clean() {
			m.stat[fn] = modPre
			m.r.merge(t)
		}
	}
	return m.stat[fn]
}

// root requires that fn keeps the rule by itself.
func (m *modular) root(fn *ssa.Function) {
	if m.status(fn) != modSelf {
		m.r.merge(m.run(fn, false))
	}
}
