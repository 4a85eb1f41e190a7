package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is a canonical description of a value: a constant, a leaf (a value
// whose content the analysis does not look into) or an operation on terms.
// Terms are hash-consed, so equal descriptions are the same pointer.
type Term struct {
	id   int
	Kind byte // 'c' const, 'l' leaf, 'g' global address, 'f' function, 'o' operation
	Op   string
	Args []*Term
	C    constant.Value // nil for the nil constant
	Typ  types.Type

	Frame *Frame    // leaf
	Val   ssa.Value // leaf, global, function
	Extra string    // leaf

	Coef  []int64 // lin: coefficients of Args
	Add   int64   // lin: constant
	Field int     // field, fieldaddr

	leaves []*Term
}

type termTable struct {
	m    map[string]*Term
	n    int
	list []*Term
}

// byID finds the term with a number, as printed by termID.
func (tt *termTable) byID(id string) []*Term {
	n, err := strconv.Atoi(id)
	if err != nil || n < 1 || n > len(tt.list) {
		return nil
	}
	return tt.list[n-1 : n]
}

var terms = &termTable{m: map[string]*Term{}}

func (tt *termTable) get(key string, mk func() *Term) *Term {
	if t, ok := tt.m[key]; ok {
		return t
	}
	t := mk()
	tt.n++
	t.id = tt.n
	switch t.Kind {
	case 'l':
		t.leaves = []*Term{t}
	case 'o':
		set := map[*Term]bool{}
		for _, a := range t.Args {
			for _, l := range a.leaves {
				set[l] = true
			}
		}
		for l := range set {
			t.leaves = append(t.leaves, l)
		}
		sort.Slice(t.leaves, func(i, j int) bool { return t.leaves[i].id < t.leaves[j].id })
	}
	tt.m[key] = t
	tt.list = append(tt.list, t)
	return t
}

func (t *Term) has(l *Term) bool {
	for _, x := range t.leaves {
		if x == l {
			return true
		}
	}
	return false
}

var typKeys = map[types.Type]string{}

func typKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := typKeys[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), nil)
	typKeys[t] = s
	return s
}

func mkConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return terms.get("nil", func() *Term { return &Term{Kind: 'c'} })
	}
	// numeric constants are identified by kind class, so that named types do not matter
	k := "c|" + constClass(typ) + "|" + v.ExactString()
	return terms.get(k, func() *Term { return &Term{Kind: 'c', C: v, Typ: typ} })
}

func constClass(t types.Type) string {
	if t == nil {
		return "?"
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		i := b.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "b"
		case i&types.IsString != 0:
			return "s"
		case i&types.IsInteger != 0:
			return "i"
		case i&types.IsFloat != 0:
			return "f"
		case i&types.IsComplex != 0:
			return "z"
		}
	}
	return typKey(t)
}

var (
	tNil   = mkConst(nil, nil)
	tTrue  = mkConst(constant.MakeBool(true), types.Typ[types.Bool])
	tFalse = mkConst(constant.MakeBool(false), types.Typ[types.Bool])
)

func mkInt(n int64) *Term { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkStr(s string) *Term {
	return mkConst(constant.MakeString(s), types.Typ[types.String])
}
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkLeaf(f *Frame, v ssa.Value, extra string) *Term {
	k := leafKey{f, v, extra}
	if t := leafTab[k]; t != nil {
		return t
	}
	t := terms.get(fmt.Sprintf("l|%d|%p|%s", f.idOr0(), v, extra), func() *Term {
		return &Term{Kind: 'l', Frame: f, Val: v, Extra: extra, Typ: v.Type()}
	})
	leafTab[k] = t
	return t
}

type leafKey struct {
	f     *Frame
	v     ssa.Value
	extra string
}

var leafTab = map[leafKey]*Term{}

// mkSym makes a symbolic leaf that belongs to no frame.
func mkSym(name string, typ types.Type) *Term {
	return terms.get("sym|"+name+"|"+typKey(typ), func() *Term {
		return &Term{Kind: 'l', Extra: name, Typ: typ}
	})
}

func mkGlobal(v ssa.Value) *Term {
	return terms.get(fmt.Sprintf("g|%p", v), func() *Term { return &Term{Kind: 'g', Val: v, Typ: v.Type()} })
}

func mkFunc(v *ssa.Function) *Term {
	return terms.get(fmt.Sprintf("f|%p", v), func() *Term { return &Term{Kind: 'f', Val: v, Typ: v.Type()} })
}

func mkOp(op string, typ types.Type, args ...*Term) *Term {
	return mkOpX(op, typ, nil, 0, args...)
}

func mkOpX(op string, typ types.Type, val ssa.Value, field int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString("o|")
	sb.WriteString(op)
	if val != nil {
		fmt.Fprintf(&sb, "|%p", val)
	}
	fmt.Fprintf(&sb, "|%d", field)
	if strings.HasPrefix(op, "iface") || strings.HasPrefix(op, "zero") || strings.HasPrefix(op, "conv") ||
		strings.HasPrefix(op, "assert") || strings.HasPrefix(op, "istype") || op == "opt" || op == "struct" || op == "fieldaddr" || op == "field" {
		sb.WriteString("|" + typKey(typ))
	}
	for _, a := range args {
		sb.WriteString("|" + strconv.Itoa(a.id))
	}
	return terms.get(sb.String(), func() *Term {
		return &Term{Kind: 'o', Op: op, Typ: typ, Val: val, Field: field, Args: args}
	})
}

// ---- integer linear forms ----

type lin struct {
	at []*Term
	co []int64
	c  int64
}

func linOf(t *Term) lin {
	if t.Kind == 'c' && t.C != nil && t.C.Kind() == constant.Int {
		if n, ok := constant.Int64Val(t.C); ok {
			return lin{c: n}
		}
	}
	if t.Kind == 'o' && t.Op == "lin" {
		return lin{at: t.Args, co: t.Coef, c: t.Add}
	}
	return lin{at: []*Term{t}, co: []int64{1}}
}

func (a lin) plus(b lin, k int64) lin {
	m := map[*Term]int64{}
	for i, t := range a.at {
		m[t] += a.co[i]
	}
	for i, t := range b.at {
		m[t] += k * b.co[i]
	}
	var r lin
	r.c = a.c + k*b.c
	for t, c := range m {
		if c != 0 {
			r.at = append(r.at, t)
		}
	}
	sort.Slice(r.at, func(i, j int) bool { return r.at[i].id < r.at[j].id })
	for _, t := range r.at {
		r.co = append(r.co, m[t])
	}
	return r
}

func (a lin) times(k int64) lin {
	if k == 0 {
		return lin{}
	}
	r := lin{at: a.at, c: a.c * k}
	for _, c := range a.co {
		r.co = append(r.co, c*k)
	}
	return r
}

// key identifies the linear part; the first coefficient is made positive.
func (a lin) norm() (key string, flip bool) {
	if len(a.at) == 0 {
		return "", false
	}
	flip = a.co[0] < 0
	var sb strings.Builder
	for i, t := range a.at {
		c := a.co[i]
		if flip {
			c = -c
		}
		fmt.Fprintf(&sb, "%d*%d ", c, t.id)
	}
	return sb.String(), flip
}

func mkLin(a lin) *Term {
	if len(a.at) == 0 {
		return mkInt(a.c)
	}
	if len(a.at) == 1 && a.co[0] == 1 && a.c == 0 {
		return a.at[0]
	}
	var sb strings.Builder
	sb.WriteString("lin|")
	for i, t := range a.at {
		fmt.Fprintf(&sb, "%d*%d ", a.co[i], t.id)
	}
	fmt.Fprintf(&sb, "+%d", a.c)
	return terms.get(sb.String(), func() *Term {
		return &Term{Kind: 'o', Op: "lin", Typ: types.Typ[types.Int], Args: a.at, Coef: a.co, Add: a.c}
	})
}

func isSignedInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	i := b.Info()
	return i&types.IsInteger != 0 && i&types.IsUnsigned == 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned != 0
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func isConst(t *Term) bool { return t.Kind == 'c' }

func constInt(t *Term) (int64, bool) {
	if t.Kind == 'c' && t.C != nil && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}

func constFloat(t *Term) (float64, bool) {
	if t.Kind == 'c' && t.C != nil && (t.C.Kind() == constant.Int || t.C.Kind() == constant.Float) {
		f, _ := constant.Float64Val(t.C)
		return f, true
	}
	return 0, false
}

func constStr(t *Term) (string, bool) {
	if t.Kind == 'c' && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

// mkBin builds the term of a binary operation on operands of type typ.
func mkBin(op token.Token, opTyp, resTyp types.Type, x, y *Term) *Term {
	switch op {
	case token.ADD, token.SUB, token.MUL:
		if isSignedInt(opTyp) {
			a, b := linOf(x), linOf(y)
			switch op {
			case token.ADD:
				return mkLin(a.plus(b, 1))
			case token.SUB:
				return mkLin(a.plus(b, -1))
			case token.MUL:
				if len(a.at) == 0 {
					return mkLin(b.times(a.c))
				}
				if len(b.at) == 0 {
					return mkLin(a.times(b.c))
				}
				if len(a.at)*len(b.at) > 4 {
					if x.id > y.id {
						x, y = y, x
					}
					return mkOpX("*", resTyp, nil, 1, x, y)
				}
				// multiplied out
				sum := lin{c: a.c * b.c}
				for i, p := range a.at {
					sum = sum.plus(lin{at: []*Term{p}, co: []int64{1}}, a.co[i]*b.c)
					for j, q := range b.at {
						u, w := p, q
						if u.id > w.id {
							u, w = w, u
						}
						m := mkOpX("*", resTyp, nil, 1, u, w)
						sum = sum.plus(lin{at: []*Term{m}, co: []int64{1}}, a.co[i]*b.co[j])
					}
				}
				for j, q := range b.at {
					sum = sum.plus(lin{at: []*Term{q}, co: []int64{1}}, b.co[j]*a.c)
				}
				return mkLin(sum)
			}
		}
	case token.GTR:
		return mkBin(token.LSS, opTyp, resTyp, y, x)
	case token.GEQ:
		return mkBin(token.LEQ, opTyp, resTyp, y, x)
	case token.NEQ:
		return mkNot(mkBin(token.EQL, opTyp, resTyp, x, y))
	}
	if x.Kind == 'c' && y.Kind == 'c' && x.C != nil && y.C != nil {
		if r := foldConst(op, opTyp, resTyp, x.C, y.C); r != nil {
			return r
		}
	}
	if x == y && !isFloat(opTyp) {
		switch op {
		case token.EQL, token.LEQ:
			return tTrue
		case token.LSS:
			return tFalse
		case token.SUB, token.XOR:
			if isUnsigned(opTyp) {
				return mkConst(constant.MakeInt64(0), opTyp)
			}
		}
	}
	switch op {
	case token.EQL:
		if isBool(opTyp) {
			for _, p := range [][2]*Term{{x, y}, {y, x}} {
				if p[0] == tTrue {
					return p[1]
				}
				if p[0] == tFalse {
					return mkNot(p[1])
				}
			}
		}
		if isSignedInt(opTyp) {
			d := linOf(x).plus(linOf(y), -1)
			if len(d.at) == 0 {
				return mkBool(d.c == 0)
			}
		}
		if x.id > y.id {
			x, y = y, x
		}
	case token.ADD:
		if isFloat(opTyp) || isUnsigned(opTyp) {
			if x.id > y.id {
				x, y = y, x
			}
			// 0 + x is x
			for _, p := range [][2]*Term{{x, y}, {y, x}} {
				if f, ok := constFloat(p[0]); ok && f == 0 {
					return p[1]
				}
			}
		}
	case token.MUL, token.AND, token.OR, token.XOR:
		if x.id > y.id {
			x, y = y, x
		}
	case token.LSS, token.LEQ:
		if isSignedInt(opTyp) {
			d := linOf(x).plus(linOf(y), -1)
			if len(d.at) == 0 {
				if op == token.LSS {
					return mkBool(d.c < 0)
				}
				return mkBool(d.c <= 0)
			}
		}
	}
	name := op.String()
	if isString(opTyp) && op == token.ADD {
		name = "concat"
	}
	return mkOpX(name, resTyp, nil, opClass(opTyp), x, y)
}

// opClass distinguishes comparisons of different operand classes.
func opClass(t types.Type) int {
	switch {
	case isSignedInt(t):
		return 1
	case isUnsigned(t):
		return 2
	case isFloat(t):
		return 3
	case isString(t):
		return 4
	case isBool(t):
		return 5
	}
	return 0
}

func foldConst(op token.Token, opTyp, resTyp types.Type, a, b constant.Value) (r *Term) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return mkBool(constant.Compare(a, op, b))
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(b)
		if !ok || n > 64 {
			return nil
		}
		v := constant.Shift(constant.ToInt(a), op, uint(n))
		if isUnsigned(opTyp) {
			v = constant.BinaryOp(v, token.AND, constant.MakeUint64(^uint64(0)))
		}
		return mkConst(v, resTyp)
	case token.QUO, token.REM:
		if constant.Sign(b) == 0 {
			return nil
		}
		if isSignedInt(opTyp) || isUnsigned(opTyp) {
			if op == token.QUO {
				op = token.QUO_ASSIGN
			}
		}
	}
	v := constant.BinaryOp(a, op, b)
	if isUnsigned(opTyp) {
		if constant.Sign(v) < 0 {
			return nil
		}
	}
	if v.Kind() == constant.Unknown {
		return nil
	}
	return mkConst(v, resTyp)
}

func mkNot(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.Kind == 'o' && t.Op == "!":
		return t.Args[0]
	}
	return mkOp("!", types.Typ[types.Bool], t)
}

func mkLen(x *Term) *Term {
	switch {
	case x.Kind == 'c' && x.C == nil:
		return mkInt(0)
	case x.Kind == 'c' && x.C.Kind() == constant.String:
		return mkInt(int64(len(constant.StringVal(x.C))))
	case x.Kind == 'o' && x.Op == "slice":
		// slice(base, lo, hi); hi is always present
		return mkLin(linOf(x.Args[2]).plus(linOf(x.Args[1]), -1))
	case x.Kind == 'o' && strings.HasPrefix(x.Op, "conv"):
		return mkLen(x.Args[0])
	}
	return mkOp("len", types.Typ[types.Int], x)
}

func mkFieldAddr(base *Term, field int, structTyp types.Type) *Term {
	return mkOpX("fieldaddr", structTyp, nil, field, base)
}

func mkField(x *Term, field int, structTyp types.Type) *Term {
	if x.Kind == 'o' && x.Op == "struct" {
		return x.Args[field]
	}
	if x.Kind == 'o' && x.Op == "zero" {
		st := structTyp.Underlying().(*types.Struct)
		return mkZero(st.Field(field).Type())
	}
	return mkOpX("field", structTyp, nil, field, x)
}

func mkZero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return tFalse
		case i&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case i&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return tNil
	case *types.Struct, *types.Array:
		return mkOp("zero", t)
	}
	return tNil
}

// subst replaces leaf l by r in t; ok is false when the result cannot be built.
func subst(t, l, r *Term) *Term {
	if t == l {
		return r
	}
	if !t.has(l) {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, l, r)
	}
	return rebuild(t, args)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "lin":
		acc := lin{c: t.Add}
		for i, a := range args {
			acc = acc.plus(linOf(a), t.Coef[i])
		}
		return mkLin(acc)
	case "len":
		return mkLen(args[0])
	case "!":
		return mkNot(args[0])
	case "field":
		return mkField(args[0], t.Field, t.Typ)
	case "fieldaddr":
		return mkFieldAddr(args[0], t.Field, t.Typ)
	}
	if tok, ok := opTok[t.Op]; ok && len(args) == 2 {
		var ot types.Type
		switch t.Field {
		case 1:
			ot = types.Typ[types.Int]
		case 2:
			ot = types.Typ[types.Uint64]
		case 3:
			ot = types.Typ[types.Float64]
		case 4:
			ot = types.Typ[types.String]
		case 5:
			ot = types.Typ[types.Bool]
		default:
			ot = types.Universe.Lookup("error").Type()
		}
		return mkBin(tok, ot, t.Typ, args[0], args[1])
	}
	return mkOpX(t.Op, t.Typ, t.Val, t.Field, args...)
}

var opTok = map[string]token.Token{
	"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM,
	"&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT,
	"==": token.EQL, "<": token.LSS, "<=": token.LEQ,
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.Kind {
	case 'c':
		if t.C == nil {
			return "nil"
		}
		return t.C.String()
	case 'g':
		return "&" + t.Val.Name()
	case 'f':
		return t.Val.Name()
	case 'l':
		if t.Val == nil {
			return t.Extra
		}
		n := t.Val.Name()
		switch v := t.Val.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
		case *ssa.Alloc:
			if v.Comment != "" {
				n = v.Comment
			}
		case *ssa.Phi:
			if v.Comment != "" {
				n = v.Comment
			}
		case *ssa.Call:
			if c := v.Call.StaticCallee(); c != nil {
				n = c.Name() + "()"
			} else if v.Call.IsInvoke() {
				n = v.Call.Method.Name() + "()"
			}
		case *ssa.UnOp:
			if v.Op == token.MUL {
				n = "*" + v.X.Name()
				if fa, ok := v.X.(*ssa.FieldAddr); ok {
					n = "." + fieldName(fa.X.Type(), fa.Field)
				}
			}
		}
		if t.Extra != "" {
			n += "'" + t.Extra
		}
		return n
	}
	if d == 0 {
		return "…"
	}
	as := make([]string, len(t.Args))
	for i, a := range t.Args {
		as[i] = a.str(d - 1)
	}
	switch t.Op {
	case "lin":
		var sb strings.Builder
		for i := range t.Args {
			c := t.Coef[i]
			switch {
			case c == 1 && i > 0:
				sb.WriteString("+")
			case c == -1:
				sb.WriteString("-")
			case c != 1:
				fmt.Fprintf(&sb, "%+d*", c)
			}
			sb.WriteString(as[i])
		}
		if t.Add != 0 {
			fmt.Fprintf(&sb, "%+d", t.Add)
		}
		return sb.String()
	case "opt":
		return "opts." + t.Extra
	case "field":
		return as[0] + "." + fieldName(t.Typ, t.Field)
	case "fieldaddr":
		return "&" + as[0] + "." + fieldName(t.Typ, t.Field)
	}
	if _, ok := opTok[t.Op]; ok && len(as) == 2 {
		return "(" + as[0] + t.Op + as[1] + ")"
	}
	nm := t.Op
	if t.Val != nil {
		nm += " " + t.Val.Name()
	}
	return nm + "(" + strings.Join(as, ",") + ")"
}

func structOf(t types.Type) *types.Struct {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	s, _ := t.(*types.Struct)
	return s
}

func fieldName(t types.Type, i int) string {
	if s := structOf(t); s != nil && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return strconv.Itoa(i)
}

// mkOpt is the term of a hyperparameter: a field of the Options struct of a model.
func mkOpt(named *types.Named, field string, typ types.Type) *Term {
	k := "opt|" + named.Obj().Pkg().Path() + "." + named.Obj().Name() + "." + field
	return terms.get(k, func() *Term {
		return &Term{Kind: 'o', Op: "opt", Typ: typ, Extra: field, Val: nil}
	})
}
