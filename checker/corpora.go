package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// corpusType is an implementation of the corpus interface.
type corpusType struct {
	Pkg  string // relative to the module
	Typ  types.Type
	New  *ssa.Function
	load *ssa.Function
	bw   *ssa.Function
	idoc *ssa.Function
}

// corpora finds the implementations of the corpus interface.
func (p *Prog) corpora(r *Rep) []*corpusType {
	it := p.ifaceOf("pkg/corpus", "Corpus")
	if it == nil {
		r.bad("entry-points", "pkg/corpus", "the interface Corpus is not found")
		return nil
	}
	var out []*corpusType
	for _, t := range p.implementers(it) {
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil {
			continue
		}
		c := &corpusType{Pkg: short(n.Obj().Pkg().Path()), Typ: t, load: p.methodOf(t, "Load"), bw: p.methodOf(t, "BatchWords"), idoc: p.methodOf(t, "IndexedDoc")}
		for _, f := range p.Funcs {
			pk := pkgOf(f)
			if pk == n.Obj().Pkg() && f.Parent() == nil && f.Signature.Recv() == nil && f.Name() == "New" {
				c.New = f
			}
		}
		if c.New == nil || c.load == nil || c.bw == nil || c.idoc == nil {
			r.bad("entry-points", c.Pkg, "New, Load, BatchWords or IndexedDoc of the corpus is not found")
			continue
		}
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pkg < out[j].Pkg })
	if len(out) < 2 {
		r.bad("entry-points", "pkg/corpus", "only %d implementations of the corpus interface are found", len(out))
	}
	return out
}

// make analyses New with the given arguments (nil: unknown): the states in
// which it returns, and the receiver of the methods of the new corpus.
func (c *corpusType) make(r *Rep, args []*Term) (out []created) {
	all := func(k *Call) bool { return true }
	for _, x := range r.P.follow(r, c.New, args, nil, newState(), &Client{Inline: all}, false, c.Pkg+" New") {
		if x.Fail == 1 {
			continue
		}
		k := created{exitState: x}
		for _, t := range x.Res {
			if t.Kind == 'o' && t.Op == "iface" {
				k.Recv = t.Args[0]
			} else if k.Recv == nil {
				k.Recv = t
			}
		}
		out = append(out, k)
	}
	if len(out) == 0 {
		r.bad("entry-points", c.Pkg+" New", "New never returns a corpus")
	}
	return out
}

// argFields lists the hyperparameters that are passed for a parameter, and
// the calls that pass something else.
func (p *Prog) argFields(q *ssa.Parameter) (fields map[string]int, others []ssa.Value) {
	fields = map[string]int{}
	for _, a := range p.argsOf(q) {
		for _, s := range p.sources(a) {
			if id, ok := p.fieldOfValue(s); ok && p.isOptions(id) {
				fields[id.field]++
				continue
			}
			others = append(others, s)
		}
	}
	return
}

func (p *Prog) isOptions(id fieldID) bool {
	n := len(id.typ)
	return n > 8 && id.typ[n-8:] == ".Options"
}
