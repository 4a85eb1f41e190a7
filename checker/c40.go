package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C40",
		Technique: "abstract interpretation over go/ssa of one arbitrary iteration per loop (distance of the pairs as linear expressions), and symbolic value numbering with polynomial normal forms (weight of a pair)",
		Explanation: "The positions of the two words of a pair and the distance that a corpus gives for it are derived as linear expressions from its loops, and have to agree. Every way through each method of the table that counts a pair is followed for both count types: it has to add to the entry exactly once, 1 for increment and 1 by the distance for proximity counting, " +
			"and may fail only for a distance of zero, which no corpus gives.",
		Assumptions: []string{
			"The pairs are those of C08, the entry is that of the two words (C14), and the count type is the one of the options (C10, C11).",
		},
		Run: runC40,
	})
}

func runC40(r *Rep) {
	r.rule("distance", 2, "the distance of a pair is that of its two positions")
	r.rule("weight", 2, "a pair adds 1, or 1 by its distance, once")
	r.rule("counted", 2, "every pair can be counted")
	p := r.P
	backwards := false
	for _, c := range p.corpora(r) {
		if pairsRule(newRep(r.ID, p), r, c) {
			backwards = true
		}
	}
	for _, fn := range p.adders() {
		weightRule(r, fn, backwards)
	}
}

func weightRule(r *Rep, fn *ssa.Function, backwards bool) {
	site := fnName(fn)
	d := kInt(1)
	if len(fn.Params) > 3 && isSignedInt(fn.Params[3].Type()) {
		d = mkx("param:" + fn.Params[3].Name())
	}
	paths, k := kernelOf(r, fn, func(k *kern) {
		k.inline = func(f *ssa.Function) bool {
			return numericFunc(f) || f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/pkg/corpus/cooccurrence")
		}
	})
	if k == nil {
		return
	}
	var world []*kx
	if !backwards {
		world = append(world, mkRel("ile", kSub(kInt(1), d))) // the distances are positive
	}
	size := mkx("distance")
	abs := func(x *kx) *kx {
		return kSubst(x, func(y *kx) *kx {
			if y.op == "call:math.Abs" && len(y.args) == 1 {
				switch {
				case kEq(y.args[0], kInt(1)):
					return kInt(1)
				case kEq(y.args[0], d) || kEq(y.args[0], kNeg(d)):
					return size
				case kEq(y.args[0], kDiv(kInt(1), d)) || kEq(y.args[0], kDiv(kInt(-1), d)):
					return kDiv(kInt(1), size)
				}
			}
			return nil
		})
	}
	for _, typ := range []string{"inc", "prox"} {
		n := 0
		for _, q := range paths {
			if q.end != "return" || len(q.ret) == 0 {
				continue
			}
			possible := true
			for _, g := range q.guards {
				possible = possible && !otherType(g, typ) && kDecide(world, g) != 0
			}
			if !possible {
				continue
			}
			known := append(append([]*kx{}, world...), q.guards...)
			// failing
			if res := q.ret[len(q.ret)-1]; res.op != "nil" {
				r.must(kDecide(known, mkRel("eq", d)) == 1, "counted", site+" "+typ, "with %s a pair can be rejected although its distance is not zero (if %v)", typ, q.guards)
				continue
			}
			n++
			adds := 0
			for _, e := range q.events {
				switch {
				case e.kind == "loop":
					r.bad("weight", site+" "+typ, "a pair is counted in a loop (%s)", e.pos)
				case e.kind == "map" && !e.addr.has(mkx("param:"+fn.Params[0].Name())):
				case e.kind == "map":
					adds++
					if e.val == nil {
						r.bad("weight", site+" "+typ, "the entry of a pair is removed (%s)", e.pos)
						continue
					}
					old := mkx("map", e.addr, e.key)
					for _, g := range q.guards {
						if g == kNot(mkx("in", e.addr, e.key)) {
							old = kInt(0) // the first time
						}
					}
					w := abs(kSub(e.val, old))
					good := false
					switch {
					case typ == "inc" || kEq(d, kInt(1)):
						good = kEq(w, kInt(1))
					default:
						good = kEq(w, kDiv(kInt(1), size)) ||
							kEq(w, kDiv(kInt(1), d)) && kDecide(known, mkRel("ile", kNeg(d))) == 1 ||
							kEq(w, kDiv(kInt(-1), d)) && kDecide(known, mkRel("ile", d)) == 1
					}
					r.must(good, "weight", site+" "+typ, "with %s a pair adds %v (%s)", typ, w, e.pos)
				}
			}
			r.must(adds == 1, "weight", site+" "+typ, "with %s a pair is counted %d times (if %v)", typ, adds, q.guards)
		}
		r.must(n > 0, "counted", site+" "+typ, "with %s no pair is counted", typ)
	}
}

// otherType reports that a condition says that the count type is not typ.
func otherType(g *kx, typ string) bool {
	not := g.op == "not" && len(g.args) == 1
	if not {
		g = g.args[0]
	}
	if g.op != "same" || len(g.args) != 2 {
		return false
	}
	for i, a := range g.args {
		if strings.HasPrefix(a.op, "str:") && strings.Contains(g.args[1-i].String(), "Cooccurrence.typ") {
			return (a.op == `str:"`+typ+`"`) == not
		}
	}
	return false
}
