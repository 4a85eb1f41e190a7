package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C14",
		Technique: "bit-level provenance (every bit of a result is traced to a bit of an argument) and path-sensitive order facts over go/ssa; typestate of the counting map update",
		Explanation: "EncodeBigram is analysed for ids below 2^32 on every path: each of the 64 bits of the code is traced to a bit of one of the ids; one id must fill the lower half and the other the upper half, and which is which must be decided by an order of the two ids that the path has established, so that exchanging them gives the same code. " +
			"DecodeBigram must give back exactly the two halves. Cooccurrence.Add must, on every path without an error, add once to the entry of the code of its two arguments, an addition of one for increment counting. Every code must be made from, and taken apart to, whole ids.",
		Run: runC14,
	})
}

// bit is where one bit of a value comes from: bit n of src, or a constant.
type bit struct {
	src *Term
	n   int
	one bool
	any bool // not known
}

var bit0 = bit{}

type bits [64]bit

func unknownBits() (b bits) {
	for i := range b {
		b[i] = bit{any: true}
	}
	return
}

func (b *bits) isConst() (uint64, bool) {
	var n uint64
	for i, x := range b {
		if x.any || x.src != nil {
			return 0, false
		}
		if x.one {
			n |= 1 << uint(i)
		}
	}
	return n, true
}

func widthOf(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
			return 64
		}
	}
	return 0
}

// bitsOf traces the bits of an integer term. leaf gives those of a variable.
func bitsOf(t *Term, leaf func(t *Term) bits) bits {
	if t.Kind == 'c' && t.C != nil {
		v := constant.ToInt(t.C)
		var b bits
		if u, ok := constant.Uint64Val(v); ok {
			for i := range b {
				b[i].one = u>>uint(i)&1 == 1
			}
			return b
		}
		if n, ok := constant.Int64Val(v); ok {
			for i := range b {
				b[i].one = uint64(n)>>uint(i)&1 == 1
			}
			return b
		}
		return unknownBits()
	}
	if t.Kind == 'l' {
		return leaf(t)
	}
	if strings.HasPrefix(t.Op, "conv:") {
		b := bitsOf(t.Args[0], leaf)
		if w := widthOf(t.Typ); w > 0 && w < 64 {
			for i := w; i < 64; i++ {
				if isSignedInt(t.Typ) {
					b[i] = b[w-1] // sign
				} else {
					b[i] = bit0
				}
			}
		} else if w == 0 {
			return unknownBits()
		}
		return b
	}
	if len(t.Args) != 2 {
		return unknownBits()
	}
	x, y := bitsOf(t.Args[0], leaf), bitsOf(t.Args[1], leaf)
	var r bits
	switch t.Op {
	case "<<", ">>":
		n, ok := y.isConst()
		if !ok {
			return unknownBits()
		}
		for i := range r {
			j := i - int(n)
			if t.Op == ">>" {
				j = i + int(n)
			}
			if n < 64 && j >= 0 && j < 64 {
				r[i] = x[j]
			}
		}
		if t.Op == ">>" && !isUnsigned(t.Typ) {
			return unknownBits()
		}
	case "|", "&", "^", "+", "-", "&^":
		for i := range r {
			a, b := x[i], y[i]
			same := a == b && !a.any
			r[i] = bit{any: true}
			switch t.Op {
			case "|":
				switch {
				case a == bit0:
					r[i] = b
				case b == bit0 || same:
					r[i] = a
				case a.one || b.one:
					r[i] = bit{one: true}
				}
			case "&":
				switch {
				case a == bit0 || b == bit0:
					r[i] = bit0
				case a.one || same:
					r[i] = b
				case b.one:
					r[i] = a
				}
			case "^":
				switch {
				case a == bit0:
					r[i] = b
				case b == bit0:
					r[i] = a
				case same:
					r[i] = bit0
				}
			case "&^":
				switch {
				case b == bit0:
					r[i] = a
				case a == bit0 || same || b.one:
					r[i] = bit0
				}
			case "+": // without a carry
				switch {
				case a == bit0:
					r[i] = b
				case b == bit0:
					r[i] = a
				default:
					return unknownBits()
				}
			case "-": // without a borrow
				switch {
				case b == bit0:
					r[i] = a
				case same:
					r[i] = bit0
				default:
					return unknownBits()
				}
			}
		}
	case "*":
		for _, p := range [][2]bits{{x, y}, {y, x}} {
			if n, ok := p[1].isConst(); ok && n != 0 && n&(n-1) == 0 {
				k := 0
				for n>>uint(k) != 1 {
					k++
				}
				for i := k; i < 64; i++ {
					r[i] = p[0][i-k]
				}
				return r
			}
		}
		return unknownBits()
	case "/", "%":
		n, ok := y.isConst()
		if !ok || n == 0 || n&(n-1) != 0 || !isUnsigned(t.Typ) {
			return unknownBits()
		}
		k := 0
		for n>>uint(k) != 1 {
			k++
		}
		for i := range r {
			if t.Op == "%" && i < k {
				r[i] = x[i]
			} else if t.Op == "/" && i+k < 64 {
				r[i] = x[i+k]
			}
		}
	default:
		return unknownBits()
	}
	return r
}

// half gives the term whose low 32 bits fill bits from..from+31.
func (b *bits) half(from int) *Term {
	src := b[from].src
	for i := 0; i < 32; i++ {
		if b[from+i].any || b[from+i].src == nil || b[from+i].src != src || b[from+i].n != i {
			return nil
		}
	}
	return src
}

func runC14(r *Rep) {
	r.rule("encode", 1, "a code holds both ids, each in 32 bits of its own, and is the same for either order")
	r.rule("decode", 1, "decoding gives back the two halves of a code")
	r.rule("accumulates", 1, "counting a pair adds to what was counted for it")
	r.rule("whole-ids", 4, "codes are made from and taken apart to whole ids")
	p := r.P
	enc := p.fn("pkg/corpus/cooccurrence/encode", "EncodeBigram")
	dec := p.fn("pkg/corpus/cooccurrence/encode", "DecodeBigram")
	adds := p.adders()
	if enc == nil || dec == nil || len(adds) == 0 || len(enc.Params) != 2 || len(dec.Params) != 1 {
		r.bad("entry-points", "encode", "EncodeBigram, DecodeBigram or the method of Cooccurrence that counts is not found")
		return
	}
	inline := func(k *Call) bool { return p.inRepo(k.Fn) }

	// encoding
	var a, b *Term
	id32 := func(t *Term) bits {
		var bs bits
		if t != a && t != b {
			return unknownBits()
		}
		for i := 0; i < 32; i++ {
			bs[i] = bit{src: t, n: i}
		}
		return bs
	}
	smaller := func(s *State) (min, max *Term) {
		switch s.auto["order"] {
		case "ab":
			return a, b
		case "ba":
			return b, a
		}
		return nil, nil
	}
	orient := 0 // 1: the smaller id is in the lower half, 2: in the upper
	c := &Client{Inline: inline}
	c.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) {
		t, v := cond, val
		for t.Kind == 'o' && t.Op == "!" {
			t, v = t.Args[0], !v
		}
		if t.Kind != 'o' || len(t.Args) != 2 || t.Op != "<" && t.Op != "<=" {
			return
		}
		l, rr := x.S.norm(t.Args[0]), x.S.norm(t.Args[1])
		if l == b && rr == a {
			l, rr, v = a, b, !v
		} else if l != a || rr != b {
			return
		}
		if v {
			x.S.auto["order"] = "ab"
		} else {
			x.S.auto["order"] = "ba"
		}
	}
	c.Exit = func(x *Ctx, res []*Term) {
		s := x.S
		t := s.norm(res[0])
		mm := func(t *Term) bits {
			if t.Kind == 'l' {
				return id32(t)
			}
			return unknownBits()
		}
		bs := bitsOf(t, mm)
		lo, hi := bs.half(0), bs.half(32)
		if lo == nil || hi == nil || lo == hi {
			r.bad("encode", fnName(enc), "the code %s does not hold the lower 32 bits of both ids (%s)", t, x.Pos())
			return
		}
		min, max := smaller(s)
		o := 0
		switch {
		case lo == min && hi == max:
			o = 1
		case lo == max && hi == min:
			o = 2
		}
		if o == 0 || orient != 0 && o != orient {
			r.bad("encode", fnName(enc), "the code %s is not the same when the ids are exchanged (%s)", t, x.Pos())
			return
		}
		orient = o
		r.ok("encode", fnName(enc))
	}
	e := newEngine(p, c)
	f := e.rootFrame(enc)
	a, b = f.param(0), f.param(1)
	e.Run(f, newState())
	r.absorb(e, fnName(enc))

	// decoding
	var code *Term
	c = &Client{Inline: inline}
	c.Exit = func(x *Ctx, res []*Term) {
		leaf := func(t *Term) bits {
			var bs bits
			if t != code {
				return unknownBits()
			}
			for i := range bs {
				bs[i] = bit{src: t, n: i}
			}
			return bs
		}
		var from [2]int
		good := len(res) == 2
		for i := 0; good && i < 2; i++ {
			bs := bitsOf(x.S.norm(res[i]), leaf)
			from[i] = bs[0].n
			for j, bt := range bs {
				if j < 32 && (bt.src != code || bt.n != from[i]+j) || j >= 32 && bt != bit0 {
					good = false
				}
			}
		}
		good = good && (from == [2]int{0, 32} || from == [2]int{32, 0})
		r.must(good, "decode", fnName(dec), "decoding gives %v, which are not the two halves of the code (%s)", res, x.Pos())
	}
	e = newEngine(p, c)
	f = e.rootFrame(dec)
	code = f.param(0)
	e.Run(f, newState())
	r.absorb(e, fnName(dec))

	// counting
	c = &Client{Inline: func(k *Call) bool { return p.inRepo(k.Fn) && k.Fn != enc }}
	var l, rt *Term
	var add *ssa.Function
	c.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.Lookup:
			if isCount(in.X.Type()) {
				s.tags[mkLeaf(x.F, in, "")] = fmt.Sprintf("old %d %d", x.Val(in.X).id, s.norm(x.Val(in.Index)).id)
			}
		case *ssa.MapUpdate:
			if !isCount(in.Map.Type()) {
				return
			}
			site := fnName(x.F.Fn)
			if s.auto["counted"] != "" {
				r.bad("accumulates", site, "a pair is counted twice (%s)", x.Pos())
			}
			s.auto["counted"] = "yes"
			key := s.norm(x.Val(in.Key))
			r.must(s.tags[key] == "code", "accumulates", site, "%s is counted, which is not the code of the two words (%s)", key, x.Pos())
			v := s.norm(x.Val(in.Value))
			old := fmt.Sprintf("old %d %d", x.Val(in.Map).id, key.id)
			var inc *Term
			if v.Kind == 'o' && v.Op == "+" {
				for i := range v.Args {
					w := v.Args[i]
					if w.Kind == 'o' && w.Op == "extract" {
						w = w.Args[0]
					}
					if s.tags[w] == old {
						inc = v.Args[1-i]
					}
				}
			}
			for t, tag := range s.tags {
				if tag == old && s.boolOf(mkOpX("extract", types.Typ[types.Bool], nil, 1, t)) == 0 {
					inc = v // the first time
				}
			}
			if inc == nil {
				r.bad("accumulates", site, "the count of a pair becomes %s, which is not an addition to its count (%s)", v, x.Pos())
				return
			}
			if s.auto["type"] != "inc" {
				return
			}
			n, ok := constFloat(inc)
			r.must(ok && n == 1, "accumulates", site, "increment counting adds %s (%s)", inc, x.Pos())
		}
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if k.Fn == enc {
			if v, ok := x.I.(*ssa.Call); ok {
				leaf := func(t *Term) bits {
					var bs bits
					for i := range bs {
						bs[i] = bit{src: t, n: i}
					}
					return bs
				}
				w1, w2 := bitsOf(x.S.norm(k.Args[0]), leaf), bitsOf(x.S.norm(k.Args[1]), leaf)
				h1, h2 := w1.half(0), w2.half(0)
				if h1 == l && h2 == rt || h1 == rt && h2 == l {
					x.S.tags[mkLeaf(x.F, v, "")] = "code"
				}
			}
		}
		return false, nil
	}
	c.Exit = func(x *Ctx, res []*Term) {
		if p.errFate(add, x.S, res) == 1 {
			return
		}
		r.must(x.S.auto["counted"] == "yes", "accumulates", fnName(add), "it can succeed without counting the pair (%s)", x.Pos())
	}
	for i := 0; i < 2*len(adds); i++ {
		typ := []string{"inc", "prox"}[i%2]
		add = adds[i/2]
		e = newEngine(p, c)
		f = e.rootFrame(add)
		l, rt = f.param(1), f.param(2)
		s := newState()
		s.auto["type"] = typ
		st := f.Fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
		if cellT := fieldCell(f.param(0), st, "typ"); cellT != nil {
			v := memVal(cellT, types.Typ[types.String])
			s.mem[cellT] = v
			s.addStr(v, mkStr(typ), true)
		} else {
			r.bad("entry-points", "Cooccurrence", "Cooccurrence has no field typ")
		}
		e.Run(f, s)
		r.absorb(e, fnName(add)+" "+typ)
	}

	// users
	for _, fn := range p.Funcs {
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := cl.Common().StaticCallee()
				if callee == enc {
					for _, arg := range cl.Common().Args {
						r.must(wholeID(arg, 0), "whole-ids", fnName(fn), "%s is encoded, which may not be a whole id (%s)", arg.Name(), p.posOf(in))
					}
				} else if callee == dec {
					v, _ := in.(ssa.Value)
					for _, ref := range *v.Referrers() {
						ex, isEx := ref.(*ssa.Extract)
						if !isEx {
							continue
						}
						good := true
						for _, u := range *ex.Referrers() {
							if cv, isConv := u.(*ssa.Convert); isConv && widthOf(cv.Type()) < 32 && !isFloat(cv.Type()) {
								good = false
							}
						}
						r.must(good, "whole-ids", fnName(fn), "a decoded id is cut short (%s)", p.posOf(in))
					}
				}
			}
		}
	}
}

// wholeID follows conversions back and reports whether none of them is narrower than 32 bits.
func wholeID(v ssa.Value, d int) bool {
	if c, ok := v.(*ssa.Convert); ok {
		return widthOf(c.Type()) >= 32 && wholeID(c.X, d+1)
	}
	if b, ok := v.(*ssa.BinOp); ok && d < 8 {
		switch b.Op {
		case token.AND, token.REM, token.SHR, token.SHL, token.QUO, token.AND_NOT:
			return false
		}
	}
	return widthOf(v.Type()) >= 32
}

func isCount(t types.Type) bool { return typKey(t.Underlying()) == "map[uint64]float64" }
