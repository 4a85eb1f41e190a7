package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A command of the program: the function that cobra runs for it.
type command struct {
	Name   string
	Run    *ssa.Function // the RunE function
	New    *ssa.Function
	Trains bool
	Err    bool // RunE (not Run)
}

// commands finds every cobra command that is built in the repository: the
// stores of a function into the RunE (or Run) field of a cobra.Command.
func (p *Prog) commands(r *Rep) []*command {
	var out []*command
	for _, f := range p.Funcs {
		if !p.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(fa.X.Type())
				if n == nil || n.Obj().Name() != "Command" || !strings.HasSuffix(n.Obj().Pkg().Path(), "spf13/cobra") {
					continue
				}
				fld := fieldName(fa.X.Type(), fa.Field)
				if fld != "RunE" && fld != "Run" {
					continue
				}
				var fn *ssa.Function
				switch v := st.Val.(type) {
				case *ssa.MakeClosure:
					fn = v.Fn.(*ssa.Function)
				case *ssa.Function:
					fn = v
				case *ssa.ChangeType:
					fn, _ = v.X.(*ssa.Function)
				}
				if fn == nil {
					r.bad("entry-points", fnName(f)+": "+fld, "the function of the command is not found (%s)", p.posOf(in))
					continue
				}
				c := &command{Name: short(f.Pkg.Pkg.Path()), Run: fn, New: f, Err: fld == "RunE"}
				for g := range p.reachable(fn) {
					if g.Name() == "Train" && g.Signature.Recv() != nil {
						c.Trains = true
					}
				}
				out = append(out, c)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	if len(out) < 6 {
		r.bad("entry-points", "commands", "only %d commands found", len(out))
	}
	for _, c := range out {
		if !c.Err {
			r.bad("command-exit", c.Name, "the command runs without returning an error (Run instead of RunE)")
		}
	}
	return out
}

// reachable lists the functions that fn may call.
func (p *Prog) reachable(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, g := range p.mayCall(in) {
					if !seen[g] && len(g.Blocks) > 0 {
						seen[g] = true
						work = append(work, g)
					}
				}
			}
		}
	}
	return seen
}

// cmdInline follows calls within cmd/ only; the library is opaque.
func cmdInline(p *Prog) func(k *Call) bool {
	return func(k *Call) bool {
		pk := pkgOf(k.Fn)
		return pk != nil && (strings.HasPrefix(short(pk.Path()), "cmd/") || pk.Path() == modPath)
	}
}
