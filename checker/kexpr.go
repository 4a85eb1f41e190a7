package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- normal forms of numeric expressions ----
//
// A kx is a hash-consed expression. Numbers are fractions of polynomials over
// atoms (kx that are not sums or products themselves) with exponents in
// halves, so that two formulas that are equal as real functions by the usual
// laws (commutation, distribution, division, roots, logarithms of products,
// exponentials of sums) have the same normal form. Rounding is ignored.

type kx struct {
	id   int
	op   string
	args []*kx
	n    *frac         // of a sum or product
	fn   *ssa.Function // of a function value
	key  string
}

type factor struct {
	a *kx
	e int // in halves
}

type mono struct {
	c *big.Rat
	f []factor
}

type poly map[string]*mono

type frac struct{ n, d poly }

var kxs = map[string]*kx{}
var kxFns = map[*ssa.Function]int{}

func mkx(op string, args ...*kx) *kx {
	var b strings.Builder
	b.WriteString(op)
	if len(args) > 0 {
		b.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.key)
		}
		b.WriteByte(')')
	}
	k := b.String()
	if x := kxs[k]; x != nil {
		return x
	}
	x := &kx{id: len(kxs), op: op, args: args, key: k}
	kxs[k] = x
	return x
}

func kxFn(f *ssa.Function, bind ...*kx) *kx {
	if kxFns[f] == 0 {
		kxFns[f] = len(kxFns) + 1
	}
	x := mkx(fmt.Sprintf("func%d", kxFns[f]), bind...)
	x.fn = f
	return x
}

func (m *mono) key() string {
	var b strings.Builder
	for _, f := range m.f {
		fmt.Fprintf(&b, "%d^%d ", f.a.id, f.e)
	}
	return b.String()
}

func (p poly) add(m *mono) {
	k := m.key()
	if old := p[k]; old != nil {
		c := new(big.Rat).Add(old.c, m.c)
		if c.Sign() == 0 {
			delete(p, k)
		} else {
			p[k] = &mono{c, m.f}
		}
		return
	}
	if m.c.Sign() != 0 {
		p[k] = m
	}
}

func polyConst(c *big.Rat) poly {
	p := poly{}
	p.add(&mono{c: c})
	return p
}

func (p poly) plus(q poly, c int64) poly {
	r := poly{}
	for _, m := range p {
		r.add(m)
	}
	for _, m := range q {
		r.add(&mono{new(big.Rat).Mul(m.c, big.NewRat(c, 1)), m.f})
	}
	return r
}

func (m *mono) times(o *mono) *mono {
	r := &mono{c: new(big.Rat).Mul(m.c, o.c)}
	i, j := 0, 0
	for i < len(m.f) || j < len(o.f) {
		switch {
		case j == len(o.f) || i < len(m.f) && m.f[i].a.id < o.f[j].a.id:
			r.f = append(r.f, m.f[i])
			i++
		case i == len(m.f) || o.f[j].a.id < m.f[i].a.id:
			r.f = append(r.f, o.f[j])
			j++
		default:
			if e := m.f[i].e + o.f[j].e; e != 0 {
				r.f = append(r.f, factor{m.f[i].a, e})
			}
			i++
			j++
		}
	}
	return r
}

func (p poly) times(q poly) poly {
	r := poly{}
	for _, a := range p {
		for _, b := range q {
			r.add(a.times(b))
		}
	}
	return r
}

func (p poly) eq(q poly) bool {
	if len(p) != len(q) {
		return false
	}
	for k, m := range p {
		if o := q[k]; o == nil || o.c.Cmp(m.c) != 0 {
			return false
		}
	}
	return true
}

// sorted gives the monomials in a fixed order (by the keys of their atoms, so
// that it does not depend on the order in which atoms were made).
func (p poly) sorted() []*mono {
	var out []*mono
	for _, m := range p {
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].text() < out[j].text() })
	return out
}

func (m *mono) text() string {
	var fs []string
	for _, f := range m.f {
		k := f.a.key
		switch {
		case f.e == 2:
		case f.e%2 == 0:
			k += fmt.Sprintf("^%d", f.e/2)
		default:
			k += fmt.Sprintf("^(%d/2)", f.e)
		}
		fs = append(fs, k)
	}
	sort.Strings(fs)
	return strings.Join(fs, "*")
}

func (p poly) text() string {
	if len(p) == 0 {
		return "0"
	}
	var b strings.Builder
	for i, m := range p.sorted() {
		c, t := m.c, m.text()
		if i > 0 {
			if c.Sign() < 0 {
				b.WriteString(" - ")
				c = new(big.Rat).Neg(c)
			} else {
				b.WriteString(" + ")
			}
		}
		one := c.Cmp(big.NewRat(1, 1)) == 0
		switch {
		case t == "":
			b.WriteString(c.RatString())
		case one:
			b.WriteString(t)
		default:
			b.WriteString(c.RatString() + "*" + t)
		}
	}
	return b.String()
}

func (p poly) single() *mono {
	if len(p) == 1 {
		for _, m := range p {
			return m
		}
	}
	return nil
}

func (m *mono) inverse() *mono {
	r := &mono{c: new(big.Rat).Inv(m.c)}
	for _, f := range m.f {
		r.f = append(r.f, factor{f.a, -f.e})
	}
	return r
}

func mkFrac(n, d poly) *frac {
	if len(n) == 0 {
		return &frac{n, polyConst(big.NewRat(1, 1))}
	}
	if m := d.single(); m != nil {
		return &frac{n.times(poly{"": m.inverse()}), polyConst(big.NewRat(1, 1))}
	}
	if n.eq(d) {
		return &frac{polyConst(big.NewRat(1, 1)), polyConst(big.NewRat(1, 1))}
	}
	if len(d) > 1 {
		c := poly{"": &mono{c: new(big.Rat).Inv(d.sorted()[0].c)}}
		n, d = n.times(c), d.times(c)
	}
	return &frac{n, d}
}

func (a *frac) isPoly() bool {
	m := a.d.single()
	return m != nil && len(m.f) == 0
}

// num gives the number that an expression is.
func (x *kx) num() *frac {
	if x.n != nil {
		return x.n
	}
	return &frac{poly{"": &mono{c: big.NewRat(1, 1), f: []factor{{x, 2}}}}.rekey(), polyConst(big.NewRat(1, 1))}
}

func (p poly) rekey() poly {
	r := poly{}
	for _, m := range p {
		r.add(m)
	}
	return r
}

func kNum(f *frac) *kx {
	f = &frac{f.n.rekey(), f.d.rekey()}
	if f.isPoly() {
		if m := f.n.single(); m != nil && len(m.f) == 1 && m.f[0].e == 2 && m.c.Cmp(big.NewRat(1, 1)) == 0 {
			return m.f[0].a
		}
	}
	k := "{" + f.n.text()
	if !f.isPoly() {
		k += " / " + f.d.text()
	}
	x := mkx(k + "}")
	x.n = f
	return x
}

func kInt(n int64) *kx    { return kRat(big.NewRat(n, 1)) }
func kRat(r *big.Rat) *kx { return kNum(&frac{polyConst(r), polyConst(big.NewRat(1, 1))}) }

func (x *kx) konst() (*big.Rat, bool) {
	if x.n == nil || !x.n.isPoly() {
		return nil, false
	}
	if len(x.n.n) == 0 {
		return new(big.Rat), true
	}
	if m := x.n.n.single(); m != nil && len(m.f) == 0 {
		return m.c, true
	}
	return nil, false
}

func (x *kx) isInt(n int64) bool {
	c, ok := x.konst()
	return ok && c.Cmp(big.NewRat(n, 1)) == 0
}

func kAdd(a, b *kx) *kx { return kPlus(a, b, 1) }
func kSub(a, b *kx) *kx { return kPlus(a, b, -1) }

func kPlus(a, b *kx, c int64) *kx {
	f, g := a.num(), b.num()
	if f.d.eq(g.d) {
		return kNum(mkFrac(f.n.plus(g.n, c), f.d))
	}
	return kNum(mkFrac(f.n.times(g.d).plus(g.n.times(f.d), c), f.d.times(g.d)))
}

func kMul(a, b *kx) *kx {
	f, g := a.num(), b.num()
	return kNum(mkFrac(f.n.times(g.n), f.d.times(g.d)))
}

func kNeg(a *kx) *kx { return kMul(kInt(-1), a) }

func kDiv(a, b *kx) *kx {
	f, g := a.num(), b.num()
	if len(g.n) == 0 {
		return mkx("div", a, b)
	}
	return kNum(mkFrac(f.n.times(g.d), f.d.times(g.n)))
}

// kEq compares two expressions as real functions.
func kEq(a, b *kx) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	f, g := a.num(), b.num()
	return f.n.times(g.d).eq(g.n.times(f.d))
}

func kLog(a *kx) *kx {
	f := a.num()
	if !f.isPoly() {
		return kSub(kLog(kNum(mkFrac(f.n, polyConst(big.NewRat(1, 1))))), kLog(kNum(mkFrac(f.d, polyConst(big.NewRat(1, 1))))))
	}
	m := f.n.single()
	if m == nil || m.c.Sign() <= 0 {
		return mkx("log", a)
	}
	r := kInt(0)
	if m.c.Cmp(big.NewRat(1, 1)) != 0 {
		r = mkx("log", kRat(m.c))
	}
	for _, q := range m.f {
		var l *kx
		switch q.a.op {
		case "pow":
			l = kMul(q.a.args[1], kLog(q.a.args[0]))
		case "exp":
			l = q.a.args[0]
		case "sqrt":
			l = kMul(kRat(big.NewRat(1, 2)), kLog(q.a.args[0]))
		default:
			l = mkx("log", q.a)
		}
		r = kAdd(r, kMul(kRat(big.NewRat(int64(q.e), 2)), l))
	}
	return r
}

func kPow(a, b *kx) *kx {
	c, ok := b.konst()
	if !ok {
		return mkx("pow", a, b)
	}
	h := new(big.Rat).Mul(c, big.NewRat(2, 1))
	if !h.IsInt() || !h.Num().IsInt64() {
		return mkx("pow", a, b)
	}
	n := h.Num().Int64() // halves
	f := a.num()
	if m := f.n.single(); m != nil && f.isPoly() {
		good := m.c.Cmp(big.NewRat(1, 1)) == 0 || n%2 == 0
		r := &mono{c: big.NewRat(1, 1)}
		for _, q := range m.f {
			good = good && int64(q.e)*n%2 == 0
			r.f = append(r.f, factor{q.a, int(int64(q.e) * n / 2)})
		}
		if good && n != 0 {
			for i := int64(0); i < abs64(n)/2 && m.c.Cmp(big.NewRat(1, 1)) != 0; i++ {
				if n > 0 {
					r.c = new(big.Rat).Mul(r.c, m.c)
				} else {
					r.c = new(big.Rat).Quo(r.c, m.c)
				}
			}
			return kNum(mkFrac(poly{"": r}.rekey(), polyConst(big.NewRat(1, 1))))
		}
	}
	switch {
	case n == 0:
		return kInt(1)
	case n == 1:
		return mkx("sqrt", a)
	case n%2 == 0 && n > 0 && n <= 8:
		r := a
		for i := int64(2); i < n; i += 2 {
			r = kMul(r, a)
		}
		return r
	}
	return mkx("pow", a, b)
}

func abs64(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func kSqrt(a *kx) *kx { return kPow(a, kRat(big.NewRat(1, 2))) }

func kExp(a *kx) *kx {
	f := a.num()
	if !f.isPoly() {
		return mkx("exp", a)
	}
	r := kInt(1)
	for _, m := range f.n.sorted() {
		h := new(big.Rat).Mul(m.c, big.NewRat(2, 1))
		base, e := m, 2
		if h.IsInt() && h.Num().IsInt64() && abs64(h.Num().Int64()) < 64 {
			base, e = &mono{big.NewRat(1, 1), m.f}, int(h.Num().Int64())
		} else if m.c.Sign() < 0 {
			base, e = &mono{new(big.Rat).Neg(m.c), m.f}, -2
		}
		at := mkx("exp", kNum(&frac{poly{"": base}.rekey(), polyConst(big.NewRat(1, 1))}))
		r = kMul(r, kNum(&frac{poly{"": &mono{big.NewRat(1, 1), []factor{{at, e}}}}.rekey(), polyConst(big.NewRat(1, 1))}))
	}
	return r
}

// kSubst replaces atoms.
func kSubst(x *kx, m func(*kx) *kx) *kx {
	if r := m(x); r != nil {
		return r
	}
	if x.n != nil {
		sum := func(p poly) *kx {
			r := kInt(0)
			for _, q := range p.sorted() {
				t := kRat(q.c)
				for _, f := range q.f {
					y := kSubst(f.a, m)
					if f.e == 2 {
						t = kMul(t, y)
					} else {
						t = kMul(t, kPow(y, kRat(big.NewRat(int64(f.e), 2))))
					}
				}
				r = kAdd(r, t)
			}
			return r
		}
		return kDiv(sum(x.n.n), sum(x.n.d))
	}
	if len(x.args) == 0 {
		return x
	}
	args := make([]*kx, len(x.args))
	same := true
	for i, a := range x.args {
		args[i] = kSubst(a, m)
		same = same && args[i] == a
	}
	if same {
		return x
	}
	switch x.op {
	case "log":
		return kLog(args[0])
	case "exp":
		return kExp(args[0])
	case "sqrt":
		return kSqrt(args[0])
	case "pow":
		return kPow(args[0], args[1])
	case "div":
		return kDiv(args[0], args[1])
	case "le", "lt", "eq", "ile":
		return mkRel(x.op, args[0])
	}
	y := mkx(x.op, args...)
	y.fn = x.fn
	return y
}

func kReplace(x, from, to *kx) *kx {
	return kSubst(x, func(y *kx) *kx {
		if y == from {
			return to
		}
		return nil
	})
}

// each calls f for all parts of an expression.
func (x *kx) each(f func(*kx)) {
	seen := map[*kx]bool{}
	var walk func(x *kx)
	walk = func(x *kx) {
		if seen[x] {
			return
		}
		seen[x] = true
		f(x)
		if x.n != nil {
			for _, p := range []poly{x.n.n, x.n.d} {
				for _, m := range p {
					for _, q := range m.f {
						walk(q.a)
					}
				}
			}
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(x)
}

// atoms lists the factors that a number is made of.
func (x *kx) atoms() (out []*kx) {
	if x.n == nil {
		return []*kx{x}
	}
	seen := map[*kx]bool{}
	for _, p := range []poly{x.n.n, x.n.d} {
		for _, m := range p.sorted() {
			for _, f := range m.f {
				if !seen[f.a] {
					seen[f.a] = true
					out = append(out, f.a)
				}
			}
		}
	}
	return
}

// kConstPart is the constant term of a polynomial.
func kConstPart(x *kx) *kx {
	f := x.num()
	if !f.isPoly() {
		return nil
	}
	for _, m := range f.n {
		if len(m.f) == 0 {
			return kRat(m.c)
		}
	}
	return kInt(0)
}

func (x *kx) rat() *big.Rat {
	c, _ := x.konst()
	return c
}

func (x *kx) has(y *kx) bool {
	found := false
	x.each(func(z *kx) { found = found || z == y })
	return found
}

func (x *kx) String() string { return x.key }

// ---- conditions ----
//
// le(p), lt(p), eq(p) and, of integers, ile(p) compare with zero; anything else is opaque, and not(c)
// its negation.

var kTrue, kFalse = mkx("true"), mkx("false")

func mkRel(op string, p *kx) *kx {
	if c, ok := p.konst(); ok {
		if (op == "le" || op == "ile") && c.Sign() <= 0 || op == "lt" && c.Sign() < 0 || op == "eq" && c.Sign() == 0 {
			return kTrue
		}
		return kFalse
	}
	if f := p.num(); f.isPoly() && op != "ile" {
		// a positive leading factor of 1 (eq: of either sign)
		c := f.n.sorted()[0].c
		if op != "eq" && c.Sign() < 0 {
			c = new(big.Rat).Neg(c)
		}
		p = kMul(p, kRat(new(big.Rat).Inv(c)))
	}
	return mkx(op, p)
}

// kNot negates a condition.
func kNot(c *kx) *kx {
	switch {
	case c == kTrue:
		return kFalse
	case c == kFalse:
		return kTrue
	case c.op == "not":
		return c.args[0]
	case c.op == "ile":
		return mkRel("ile", kSub(kInt(1), c.args[0]))
	case c.op == "lt":
		return mkRel("le", kNeg(c.args[0]))
	case c.op == "le":
		return mkRel("lt", kNeg(c.args[0]))
	}
	return mkx("not", c)
}

// kDecide tells whether conditions that hold settle another one: 1 true, 0 false, -1 unknown.
func kDecide(known []*kx, c *kx) int {
	if c == kTrue {
		return 1
	}
	if c == kFalse {
		return 0
	}
	if kImplied(known, c) {
		return 1
	}
	if kImplied(known, kNot(c)) {
		return 0
	}
	return -1
}

func kImplied(known []*kx, c *kx) bool {
	for _, g := range known {
		if g == c {
			return true
		}
		if len(c.args) != 1 {
			continue
		}
		p := c.args[0]
		switch {
		case (c.op == "le" || c.op == "lt" || c.op == "ile") && (g.op == "le" || g.op == "lt" || g.op == "eq" || g.op == "ile"):
			// p = q + d, q <= 0
			qs := []*kx{g.args[0]}
			if g.op == "eq" {
				qs = append(qs, kNeg(g.args[0]))
			}
			for _, q := range qs {
				if d, ok := kSub(p, q).konst(); ok && (d.Sign() < 0 || d.Sign() == 0 && (c.op != "lt" || g.op == "lt")) {
					return true
				}
			}
		case c.op == "not" && c.args[0].op == "eq":
			e := c.args[0].args[0]
			for _, e := range []*kx{e, kNeg(e)} {
				if g.op == "le" || g.op == "lt" || g.op == "ile" {
					// e = q + d with q <= 0 and d < 0
					if d, ok := kSub(e, g.args[0]).konst(); ok && (d.Sign() < 0 || d.Sign() == 0 && g.op == "lt") {
						return true
					}
				}
				if g.op == "eq" {
					if d, ok := kSub(e, g.args[0]).konst(); ok && d.Sign() != 0 {
						return true
					}
				}
			}
		}
	}
	return false
}
