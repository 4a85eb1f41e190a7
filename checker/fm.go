package main

import "fmt"

// polyhedron is a conjunction of linear constraints over integer terms.
type polyhedron []linCon

// empty reports that no values satisfy all the constraints; false when it
// cannot tell. Variables are eliminated one by one (Fourier-Motzkin), excluded
// values split the constraints.
func (p polyhedron) empty() bool { return p.emptyIn(4) }

func (p polyhedron) emptyIn(splits int) bool {
	var qs []lin
	for _, c := range p {
		if c.v.hasHi {
			f := c.f
			f.c -= c.v.hi
			qs = append(qs, f)
		}
		if c.v.hasLo {
			f := c.f.times(-1)
			f.c += c.v.lo
			qs = append(qs, f)
		}
	}
	seen := map[*Term]bool{}
	for _, c := range p {
		for _, a := range c.f.at {
			if !seen[a] && nonNeg(a) {
				qs = append(qs, linOf(a).times(-1))
			}
			seen[a] = true
		}
	}
	if refute(qs) {
		return true
	}
	if splits == 0 {
		return false
	}
	for _, c := range p {
		for _, n := range c.v.neq {
			below := append(polyhedron{{c.f, ival{hasHi: true, hi: n - 1}}}, p...)
			above := append(polyhedron{{c.f, ival{hasLo: true, lo: n + 1}}}, p...)
			if below.emptyIn(0) && above.emptyIn(splits-1) || above.emptyIn(0) && below.emptyIn(splits-1) {
				return true
			}
		}
	}
	return false
}

func refute(qs []lin) bool {
	vars := map[*Term]bool{}
	for _, q := range qs {
		for _, a := range q.at {
			vars[a] = true
		}
	}
	for {
		for _, q := range qs {
			if len(q.at) == 0 && q.c > 0 {
				return true
			}
		}
		// the variable whose elimination costs least
		var best *Term
		cost := 0
		for v := range vars {
			up, down := 0, 0
			for _, q := range qs {
				switch c := coefOf(q, v); {
				case c > 0:
					up++
				case c < 0:
					down++
				}
			}
			if up+down == 0 {
				delete(vars, v)
				continue
			}
			if k := up*down - up - down; best == nil || k < cost || k == cost && v.id < best.id {
				best, cost = v, k
			}
		}
		if best == nil {
			return false
		}
		delete(vars, best)
		var rest, ups, downs []lin
		for _, q := range qs {
			switch c := coefOf(q, best); {
			case c > 0:
				ups = append(ups, q)
			case c < 0:
				downs = append(downs, q)
			default:
				rest = append(rest, q)
			}
		}
		if len(ups)*len(downs) > 2000 || len(rest) > 4000 {
			return false
		}
		for _, u := range ups {
			for _, d := range downs {
				q := u.times(-coefOf(d, best)).plus(d, coefOf(u, best))
				if q = reduced(q); len(q.at) == 0 && q.c <= 0 {
					continue
				}
				big := false
				for _, c := range append([]int64{q.c}, q.co...) {
					big = big || c > 1<<40 || c < -(1<<40)
				}
				if !big {
					rest = append(rest, q)
				}
			}
		}
		qs = dedup(rest)
	}
}

func coefOf(q lin, v *Term) int64 {
	for i, a := range q.at {
		if a == v {
			return q.co[i]
		}
	}
	return 0
}

// reduced divides by the common divisor of the coefficients and rounds the
// constant up, which is sound for integers.
func reduced(q lin) lin {
	g := int64(0)
	for _, c := range q.co {
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g <= 1 {
		return q
	}
	r := lin{at: q.at, co: make([]int64, len(q.co)), c: q.c / g}
	for i := range q.co {
		r.co[i] = q.co[i] / g
	}
	if q.c > 0 && q.c%g != 0 {
		r.c++
	}
	return r
}

func dedup(qs []lin) []lin {
	best := map[string]int{}
	var out []lin
	for _, q := range qs {
		k := ""
		r := q
		r.c = 0
		if len(r.at) > 0 {
			for i, a := range r.at {
				k += fmt.Sprintf("%d*%d ", r.co[i], a.id)
			}
		}
		if i, ok := best[k]; ok {
			if q.c > out[i].c {
				out[i] = q
			}
			continue
		}
		best[k] = len(out)
		out = append(out, q)
	}
	return out
}

// entails reports that every solution of p satisfies c.
func (p polyhedron) entails(c linCon) bool {
	if c.v.hasLo && !append(polyhedron{{c.f, ival{hasHi: true, hi: c.v.lo - 1}}}, p...).empty() {
		return false
	}
	if c.v.hasHi && !append(polyhedron{{c.f, ival{hasLo: true, lo: c.v.hi + 1}}}, p...).empty() {
		return false
	}
	for _, n := range c.v.neq {
		if !append(polyhedron{{c.f, ival{hasLo: true, lo: n, hasHi: true, hi: n}}}, p...).empty() {
			return false
		}
	}
	return true
}
