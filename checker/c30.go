package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C30",
		Technique: "interprocedural path-sensitive nilness analysis chaining NewForOptions, Train and Save over go/ssa",
		Explanation: "The states in which NewForOptions returns a model, and those in which Train of that model returns an error, are computed by abstract interpretation and Save is analysed from each of them: " +
			"from the untrained states every path of Save returns an error and writes nothing, and from none of them does Save use a nil pointer.",
		Run: runC30,
	})
}

func runC30(r *Rep) {
	r.rule("untrained-save-fails", 3, "Save of a model that has no parameters returns an error and writes nothing")
	r.rule("no-nil-use", 3, "Save uses no nil pointer after a failed Train")
	r.rule("failed-train-states", 6, "the failing returns of Train are found")
	p := r.P
	for _, m := range p.models(r) {
		ok, _ := p.create(r, m, newState(), m.Name)
		if len(ok) == 0 {
			r.bad("entry-points", m.Name, "NewForOptions never returns a model")
		}
		seen := map[key128]bool{}
		for _, c := range ok {
			saveFails(r, m, c.S, c.Recv, m.Name+" never trained", true)
			for _, mem := range []bool{false, true} {
				s := c.S.clone()
				m.setBool(s, "DocInMemory", mem)
				rel := relInline(p, func(in ssa.Instruction) bool {
					st, ok := in.(*ssa.Store)
					return ok && (isErrorType(st.Val.Type()) || fieldOfModel(m, st)) || errInteresting(in)
				})
				cl := &Client{Inline: rel, Call: func(x *Ctx, k *Call) (bool, *Term) { return isVerboseDo(k.Name), nil }}
				for _, x := range p.follow(r, m.Train, []*Term{c.Recv}, nil, s, cl, false, m.Name+" Train") {
					if x.Fail == 0 {
						continue
					}
					r.ok("failed-train-states", m.Name+": "+x.Pos)
					t := x.S.clone()
					t.tags, t.auto = map[*Term]string{}, map[string]string{}
					k := t.factKey()
					if seen[k] {
						continue
					}
					seen[k] = true
					saveFails(r, m, t, c.Recv, m.Name+" after Train failed at "+x.Pos, paramUnset(m, t, c.Recv))
				}
			}
		}
	}
}

func fieldOfModel(m *modelType, st *ssa.Store) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	return ok && namedOf(fa.X.Type()) == namedOf(m.Typ)
}

// paramUnset: the model still has no parameter matrix.
func paramUnset(m *modelType, s *State, recv *Term) bool {
	st := structOf(m.Typ)
	n := namedOf(m.Typ)
	found := false
	for i := 0; i < st.NumFields(); i++ {
		if f := namedOf(st.Field(i).Type()); f != nil && f.Obj().Name() == "Matrix" {
			found = true
			v := s.read(mkFieldAddr(recv, i, n))
			if v == nil || s.nilOf(v) != 1 {
				return false
			}
		}
	}
	return found
}

func saveFails(r *Rep, m *modelType, s *State, recv *Term, what string, mustFail bool) {
	p := r.P
	c := &Client{Inline: func(k *Call) bool { return !isVerboseDo(k.Name) }}
	wrote := ""
	c.Instr = func(x *Ctx) {
		if t := nilDeref(x); t != nil {
			r.bad("no-nil-use", m.Name, "Save of %s panics: %s is nil (%s)", what, t, x.Pos())
			x.S.dead = true
		}
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		switch {
		case k.Name == "io.Writer.Write", k.Name == "bufio.Writer.Flush", k.Name == "io.WriteString",
			strings.HasPrefix(k.Name, "fmt.Fprint") && !memWriter(k.Args[0]) && !stdWriter(k.Args[0]) && isBufWriter(k.Args[0]) == nil:
			wrote = x.Pos()
		}
		return false, nil
	}
	r.ok("no-nil-use", m.Name)
	for _, x := range p.follow(r, m.Save, []*Term{recv}, nil, s, c, false, "Save of "+what) {
		if mustFail {
			r.must(x.Fail == 1, "untrained-save-fails", m.Name, "Save of %s can return without an error (%s)", what, x.Pos)
		}
	}
	if mustFail && wrote != "" {
		r.bad("untrained-save-fails", m.Name, "Save of %s can write to the destination (%s)", what, wrote)
	}
}
