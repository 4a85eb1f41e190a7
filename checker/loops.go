package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// naturalLoop gives the blocks of the loops with header h.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			add(p)
		}
	}
	n := 0
	for _, p := range h.Preds {
		if h.Dominates(p) {
			add(p)
			n++
		}
	}
	if n == 0 {
		return nil
	}
	return body
}

// leaves reports whether every path from b ends the function without coming
// back into the loop (a return or a panic).
func endsFunction(b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if body[b] {
			return false
		}
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(b)
}

// countLoop recognises an index that takes each of the values 0..n-1 exactly
// once while its loop runs to completion, and gives n and the header. The
// block at must be run in every iteration. Exits other than the header's must
// satisfy okExit.
func countLoop(idx ssa.Value, at *ssa.BasicBlock, okExit func(from, to *ssa.BasicBlock) bool) (bound ssa.Value, minus int64, header *ssa.BasicBlock, ok bool) {
	return countFrom(0, idx, at, okExit)
}

// countFrom is countLoop for an index that takes the values start..n-1.
func countFrom(start int64, idx ssa.Value, at *ssa.BasicBlock, okExit func(from, to *ssa.BasicBlock) bool) (bound ssa.Value, minus int64, header *ssa.BasicBlock, ok bool) {
	ph, isPhi := idx.(*ssa.Phi)
	if !isPhi {
		if b, isB := idx.(*ssa.BinOp); isB && b.Op == token.ADD {
			if p, isP := b.X.(*ssa.Phi); isP && intConst(b.Y, 1) {
				ph = p
			}
		}
	}
	if ph == nil {
		return
	}
	h := ph.Block()
	body := naturalLoop(h)
	if body == nil || !body[at] || len(h.Preds) != len(ph.Edges) {
		return
	}
	var init ssa.Value
	step := int64(0)
	for i, p := range h.Preds {
		if !body[p] {
			if init != nil && init != ph.Edges[i] {
				return
			}
			init = ph.Edges[i]
			continue
		}
		b, isB := ph.Edges[i].(*ssa.BinOp)
		if !isB || b.X != ph {
			return
		}
		st := int64(0)
		switch {
		case b.Op == token.ADD && intConst(b.Y, 1), b.Op == token.SUB && intConst(b.Y, -1):
			st = 1
		case b.Op == token.SUB && intConst(b.Y, 1), b.Op == token.ADD && intConst(b.Y, -1):
			st = -1
		default:
			return
		}
		if step != 0 && step != st {
			return
		}
		step = st
		if !at.Dominates(p) {
			return
		}
	}
	if init == nil || step == 0 {
		return
	}
	iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf {
		return
	}
	cond, isB := iff.Cond.(*ssa.BinOp)
	if !isB {
		return
	}
	op, x, y := cond.Op, cond.X, cond.Y
	if body[h.Succs[1]] && !body[h.Succs[0]] {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	} else if !body[h.Succs[0]] || body[h.Succs[1]] {
		return
	}
	for b := range body {
		for _, s := range b.Succs {
			if !body[s] && b != h && !endsFunction(s, body) && (okExit == nil || !okExit(b, s)) {
				return
			}
		}
	}
	if x != idx && y == idx {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if x != idx {
		return
	}
	off := int64(0)
	if idx != ph {
		off = 1
	}
	if step > 0 {
		if !intConst(init, start-off) {
			return
		}
		switch op {
		case token.LSS, token.NEQ:
			return y, 0, h, true
		case token.LEQ:
			return y, -1, h, true
		}
		return
	}
	// downwards: from n-1 to 0
	if off != 0 {
		return
	}
	if !(op == token.GEQ && intConst(y, start) || op == token.GTR && intConst(y, start-1)) {
		return
	}
	return init, -1, h, true
}

func intConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	m, exact := constant.Int64Val(c.Value)
	return exact && m == n
}

// again evaluates a length or a simple expression at another point than its
// instruction, where its value may have been forgotten.
func again(x *Ctx, v ssa.Value) *Term {
	if t := x.Val(v); t.Kind != 'l' || t != mkLeaf(x.F, v, "") {
		return t
	}
	switch v := v.(type) {
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return x.S.lenOf(x.Val(v.Call.Args[0]))
		}
		if x.E.C.Pure != nil {
			if t := x.E.C.Pure(v); t != nil {
				return t
			}
		}
	case *ssa.BinOp:
		if isSignedInt(v.Type()) && (v.Op == token.ADD || v.Op == token.SUB) {
			k := int64(1)
			if v.Op == token.SUB {
				k = -1
			}
			return mkLin(linOf(again(x, v.X)).plus(linOf(again(x, v.Y)), k))
		}
	}
	t := x.Val(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && t == mkLeaf(x.F, v, "") {
		// a load whose value is no longer live
		a := again(x, u.X)
		if a.Kind == 'o' && a.Op == "fieldaddr" {
			if o := x.E.optTerm(a.Typ, a.Field); o != nil {
				return o
			}
		}
		if c := x.S.read(a); c != nil {
			return x.S.norm(c)
		}
	}
	if fa, ok := v.(*ssa.FieldAddr); ok && t == mkLeaf(x.F, v, "") {
		return mkFieldAddr(again(x, fa.X), fa.Field, fa.X.Type().Underlying().(*types.Pointer).Elem())
	}
	return t
}
