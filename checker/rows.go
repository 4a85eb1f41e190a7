package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- matrices seen as rows ----
//
// Calls to Matrix.Slice become terms row(matrix, id), calls to Dictionary.Len
// and Corpus.Dictionary terms of their receiver. That Slice really gives row
// id of the matrix is checked where these models are used (matrixRules).

func isMatrix(t types.Type) bool { return namedIs(t, "modelutil/matrix", "Matrix") }

func mkRow(m, id *Term) *Term { return mkOp("row", types.NewSlice(types.Typ[types.Float64]), m, id) }

// rowOf gives the matrix and the row that a slice is.
func rowOf(s *State, t *Term) (m, id *Term, ok bool) {
	if t == nil {
		return
	}
	if t.Kind == 'l' {
		t = s.norm(t)
	}
	if t.Kind == 'o' && t.Op == "slice" {
		if c, isC := constInt(t.Args[1]); !isC || c != 0 {
			return
		}
		t = t.Args[0]
	}
	if t.Kind == 'o' && t.Op == "row" {
		return t.Args[0], t.Args[1], true
	}
	return
}

// matrixModel handles the calls of the small interfaces around matrices and the vocabulary.
func matrixModel(p *Prog, x *Ctx, k *Call) (bool, *Term) {
	if k.Fn == nil {
		return false, nil
	}
	switch {
	case k.Fn == p.method("pkg/model/modelutil/matrix", "Matrix", "Slice"):
		t := mkRow(k.Args[0], k.Args[1])
		return true, t
	case k.Fn == p.method("pkg/corpus/dictionary", "Dictionary", "Len"):
		return true, mkDicLen(k.Args[0])
	case isDictionaryGetter(k.Fn):
		return true, mkOp("dictionary", k.Fn.Signature.Results().At(0).Type(), stripAssert(x.S.norm(k.Args[0])))
	}
	return false, nil
}

// isDictionaryGetter recognises the Dictionary method of a corpus.
func isDictionaryGetter(f *ssa.Function) bool {
	return f.Name() == "Dictionary" && f.Signature.Recv() != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 &&
		namedIs(f.Signature.Results().At(0).Type(), "corpus/dictionary", "Dictionary")
}

func mkDicLen(d *Term) *Term { return mkOp("dicLen", types.Typ[types.Int], d) }

func isDicLen(t *Term) bool { return t != nil && t.Kind == 'o' && t.Op == "dicLen" }

// elemOfRow resolves the address of an element of a row.
func elemOfRow(s *State, a *Term) (m, id, j *Term, ok bool) {
	if a == nil || a.Kind != 'o' || a.Op != "indexaddr" {
		return
	}
	m, id, ok = rowOf(s, a.Args[0])
	return m, id, a.Args[1], ok
}

// cellsOf lists the addresses that the summands of a sum were loaded from.
func cellsOf(x *Ctx, t *Term) (out []*Term, ok bool) {
	t = x.S.norm(t)
	if t.Kind == 'o' && t.Op == "+" {
		a, ok1 := cellsOf(x, t.Args[0])
		b, ok2 := cellsOf(x, t.Args[1])
		return append(append(out, a...), b...), ok1 && ok2
	}
	if f, isC := constFloat(t); isC && f == 0 {
		return nil, true
	}
	if t.Kind != 'l' {
		return nil, false
	}
	if t.Op == "memval" {
		return []*Term{t.Args[0]}, true
	}
	u, isU := t.Val.(*ssa.UnOp)
	if !isU || u.Op != token.MUL {
		return nil, false
	}
	return []*Term{x.E.val(t.Frame, u.X, x.S)}, true
}

// counter is an index that takes the values 0..bound-minus-1, one per round.
type counter struct {
	F      *Frame
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
	Bound  ssa.Value
	Minus  int64
}

// counterOf recognises a term that counts the rounds of a loop, in this
// function or one of its callers, from 0 up to a bound.
func counterOf(x *Ctx, t *Term) *counter {
	t = x.S.norm(t)
	l := linOf(t)
	if len(l.at) != 1 {
		return nil
	}
	var leaf *Term
	if l.co[0] != 1 {
		return nil
	}
	leaf = l.at[0]
	off := l.c
	ph, ok := leaf.Val.(*ssa.Phi)
	if leaf.Kind != 'l' || !ok || leaf.Frame == nil {
		return nil
	}
	b := x.I.Block()
	f := x.F
	for f != nil && f != leaf.Frame {
		if f.Site == nil {
			return nil
		}
		b = f.Site.Block()
		f = f.Parent
	}
	if f == nil {
		return nil
	}
	var idx ssa.Value
	switch off {
	case 0:
		idx = ph
	case 1:
		for _, r := range *ph.Referrers() {
			if bo, ok := r.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ph && intConst(bo.Y, 1) {
				if n, m, h, ok := countLoop(bo, b, nil); ok {
					return &counter{f, h, naturalLoop(h), n, m}
				}
			}
		}
		return nil
	default:
		return nil
	}
	n, m, h, ok := countLoop(idx, b, nil)
	if !ok {
		return nil
	}
	return &counter{f, h, naturalLoop(h), n, m}
}

// limit gives the value that a counter stays below.
func (c *counter) limit(x *Ctx) *Term {
	y := &Ctx{x.E, c.F, x.I, x.S}
	return mkLin(linOf(again(y, c.Bound)).plus(linOf(mkInt(c.Minus)), -1))
}

// matrixField finds the field of Matrix that an accessor returns.
func matrixField(p *Prog, name string) (int, types.Type) {
	f := p.method("pkg/model/modelutil/matrix", "Matrix", name)
	if f == nil {
		return -1, nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				return fa.Field, fa.X.Type().Underlying().(*types.Pointer).Elem()
			}
		}
	}
	return -1, nil
}

// matrixRules checks that Slice(id) is the part id*columns..(id+1)*columns of
// the array, that New makes an array of rows*columns values and calls its
// function with each row and its number, and that Row and Col give what New
// was called with.
func matrixRules(r *Rep) {
	r.rule("matrix-slice", 1, "Slice(id) is the part of the array that starts at id times the number of columns and has one value per column")
	r.rule("matrix-new", 4, "New makes rows times columns values and hands out each row once")
	p := r.P
	sl := p.method("pkg/model/modelutil/matrix", "Matrix", "Slice")
	pk := p.Pkgs[modPath+"/pkg/model/modelutil/matrix"]
	ri, mt := matrixField(p, "Row")
	ci, _ := matrixField(p, "Col")
	if sl == nil || pk == nil || pk.Func("New") == nil || ri < 0 || ci < 0 || ri == ci {
		r.bad("entry-points", "matrix", "Matrix.Slice, Row, Col or matrix.New is not found")
		return
	}
	for _, name := range []string{"Row", "Col"} {
		fn := p.method("pkg/model/modelutil/matrix", "Matrix", name)
		i := ri
		if name == "Col" {
			i = ci
		}
		c := &Client{}
		c.Exit = func(x *Ctx, res []*Term) {
			want := x.S.content(mkFieldAddr(x.E.Root.param(0), i, mt), types.Typ[types.Int])
			r.must(len(res) == 1 && x.S.equal(res[0], want), "matrix-new", "Matrix."+name, "%s does not return its field (%s)", name, x.Pos())
		}
		p.analyse(r, fn, newState(), c, "Matrix."+name)
	}
	arr := -1
	st := structOf(mt)
	for i := 0; i < st.NumFields(); i++ {
		if isFloatSliceType(st.Field(i).Type()) {
			arr = i
		}
	}
	if arr < 0 {
		r.bad("entry-points", "matrix", "Matrix has no slice of values")
		return
	}
	{
		c := &Client{}
		c.Exit = func(x *Ctx, res []*Term) {
			s := x.S
			m := x.E.Root.param(0)
			id := x.E.Root.param(1)
			col := s.content(mkFieldAddr(m, ci, mt), types.Typ[types.Int])
			a := s.content(mkFieldAddr(m, arr, mt), st.Field(arr).Type())
			lo := mkBin(token.MUL, types.Typ[types.Int], types.Typ[types.Int], id, col)
			v := s.norm(res[0])
			good := v.Kind == 'o' && v.Op == "slice" && v.Args[0] == a && s.equal(v.Args[1], lo) && s.equal(v.Args[2], mkLin(linOf(lo).plus(linOf(col), 1)))
			r.must(good, "matrix-slice", "Matrix.Slice", "Slice returns %s, not the columns of row id (%s)", v, x.Pos())
		}
		p.analyse(r, sl, newState(), c, "Matrix.Slice")
	}
	fn := pk.Func("New")
	c := &Client{}
	isFn := func(k *Call) bool {
		return k.FnT != nil && k.FnT == mkLeaf(k.FnT.Frame, fn.Params[2], "") && k.FnT.Frame != nil
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if ok, t := matrixModel(p, x, k); ok {
			return ok, t
		}
		if isFn(k) || k.Fn == nil && k.Name == "" {
			m, id, ok := rowOf(x.S, k.Args[1])
			good := ok && x.S.equal(id, k.Args[0])
			if cnt := counterOf(x, k.Args[0]); good && cnt != nil && x.S.equal(cnt.limit(x), x.E.Root.param(0)) {
				x.S.auto["handed "+cntKey(cnt)] = termID(m)
			} else {
				good = false
			}
			r.must(good, "matrix-new", "matrix.New rows", "the function is not called with every row number and that row (%s)", x.Pos())
			return true, nil
		}
		return false, nil
	}
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		roundDone(x, from, to, "handed ", func(v string) { x.S.auto["all rows of "] = v })
	}
	c.Exit = func(x *Ctx, res []*Term) {
		s := x.S
		m := s.norm(res[0])
		row, col := x.E.Root.param(0), x.E.Root.param(1)
		g := func(i int, want *Term) bool {
			v := s.read(mkFieldAddr(m, i, mt))
			return v != nil && s.equal(v, want)
		}
		r.must(freshRoot(m) && g(ri, row) && g(ci, col), "matrix-new", "matrix.New shape", "the matrix does not have the rows and columns asked for (%s)", x.Pos())
		a := s.read(mkFieldAddr(m, arr, mt))
		good := false
		if a != nil {
			a = s.norm(a)
			_, isMake := a.Val.(*ssa.MakeSlice)
			good = isMake && s.equal(s.lenOf(a), mkBin(token.MUL, types.Typ[types.Int], types.Typ[types.Int], row, col))
		}
		r.must(good, "matrix-new", "matrix.New array", "the array of the matrix is not a new one of rows times columns values (%s)", x.Pos())
		r.must(s.auto["all rows of "] == termID(m) || s.atMost(row, 0), "matrix-new", "matrix.New rows", "the matrix is returned (%s) before its rows were handed to the function", x.Pos())
	}
	p.analyse(r, fn, newState(), c, "matrix.New")
}

func termID(t *Term) string { return fmt.Sprint(t.id) }

func cntKey(c *counter) string { return loopKeyOf(c.F, c.Header) }

func loopKeyOf(f *Frame, h *ssa.BasicBlock) string { return fmt.Sprint(f.id, ":", h.Index) }

// roundDone follows the mark prefix+loop that a client sets in each round of
// a loop. When the loop is left by its condition and every round set the same
// mark, done is called with it.
func roundDone(x *Ctx, from, to *ssa.BasicBlock, prefix string, done func(mark string)) {
	s := x.S
	if naturalLoop(to) != nil {
		n := loopKeyOf(x.F, to)
		if !to.Dominates(from) {
			delete(s.auto, prefix+"all "+n)
			delete(s.auto, prefix+n)
		} else {
			v := s.auto[prefix+n]
			if old := s.auto[prefix+"all "+n]; v == "" || old != "" && old != v {
				v = "no"
			}
			s.auto[prefix+"all "+n] = v
			delete(s.auto, prefix+n)
		}
	}
	for f := from; f != nil; f = f.Idom() {
		body := naturalLoop(f)
		if body == nil || !body[from] || body[to] {
			continue
		}
		n := loopKeyOf(x.F, f)
		v := s.auto[prefix+"all "+n]
		delete(s.auto, prefix+"all "+n)
		delete(s.auto, prefix+n)
		if f == from && v != "" && v != "no" {
			done(v)
		}
	}
}

func stripAssert(t *Term) *Term {
	for t.Kind == 'o' && (t.Op == "assert" || t.Op == "iface") {
		t = t.Args[0]
	}
	return t
}
