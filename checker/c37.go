package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:          "C37",
		Technique:   "abstract interpretation over go/ssa of one arbitrary iteration per loop; the positions a loop visits are derived as a conjunction of linear constraints, proved exact, and compared with those of the window by entailment",
		Explanation: "For every function that trains one position of a text, the linear constraints under which a loop over the context visits a position (proved exact: they hold at every visit; every iteration without one, the start and the end of the loop contradict them) are compared, in both directions, with: inside the text, not the trained position, at most Window - draw away from it on either side.",
		Run:         runC37,
	})
}

func runC37(r *Rep) {
	r.rule("window", 3, "the context is every other position of the text at most Window - draw away")
	p := r.P
	u := &unitCheck{r: newRep(r.ID, p), p: p, rows: map[fieldID]int64{}, stored: map[fieldID]string{}, used: map[fieldID]string{}}
	sums := map[*ssa.Function]map[*ssa.UnOp]bool{}
	for _, f := range p.Funcs {
		sums[f] = addLoads(f)
	}
	draws, window := windowDraws(r)
	n := 0
	for _, fn := range p.positionFuncs(u) {
		site := fnName(fn)
		// what C23 has to say is not repeated
		q := newRep(r.ID, p)
		tr := oneTraining(q, u, fn, draws, window, sums)
		for f := range q.fns {
			r.fns[f] = true
		}
		r.steps += q.steps
		r.runs += q.runs
		for _, o := range q.obl {
			if o.Rule == "analysis-completes" && !o.OK {
				r.bad(o.Rule, o.Construct, "%v", o.Msg)
			}
		}
		if tr == nil {
			continue
		}
		n++
		if tr.draw == nil || tr.doc == nil {
			r.bad("window", site, "no window is drawn")
			continue
		}
		some := false
		for _, k := range tr.vs.order {
			v := tr.vs.m[k]
			if !v.read && !v.change {
				continue
			}
			some = true
			if v.undec != "" {
				r.bad("window", site, "%s (%s)", v.undec, v.where)
				continue
			}
			if at := tr.vs.skips[k]; at != "" {
				r.bad("window", site, "a word of the context is looked at (%s) and can be left out (%s)", v.where, at)
			}
			ok := false
			for _, pos := range tr.pos {
				c, at := linOf(tr.vs.sym), linOf(pos)
				w, d := linOf(tr.w), linOf(tr.draw)
				facts := []linCon{
					{d, ival{hasLo: true}},
					{d.plus(w, -1), ival{hasHi: true, hi: -1}},
					{at, ival{hasLo: true}},
				}
				n := linOf(newState().lenOf(tr.doc))
				inText := domain{
					"lo":   {c, ival{hasLo: true}},
					"hi":   {c.plus(n, -1), ival{hasHi: true, hi: -1}},
					"self": {c.plus(at, -1), ival{neq: []int64{0}}},
				}
				facts = append(facts, linCon{at.plus(n, -1), ival{hasHi: true, hi: -1}})
				// Window - draw and 1 + draw are drawn alike
				for _, radius := range []lin{w.plus(d, -1), d.plus(lin{c: 1}, 1)} {
					dom := domain{
						"left":  {c.plus(at, -1).plus(radius, 1), ival{hasLo: true}},
						"right": {c.plus(at, -1).plus(radius, -1), ival{hasHi: true}},
					}
					for k, x := range inText {
						dom[k] = x
					}
					ok = ok || v.is(dom, facts...)
				}
			}
			r.must(ok, "window", site, "the context is {%s}, which is not every other position at most Window - draw away from the trained one (%s)", v.dom, v.where)
		}
		r.must(some, "window", site, "no context is visited")
	}
	r.must(n >= 3, "window", "functions", "%d functions train a position of a text", n)
}
