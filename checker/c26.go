package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C26",
		Technique: "units-of-measure analysis (word id, context row) on a path-sensitive abstract interpretation over go/ssa of Train with its goroutines and of WordVector; provenance of row numbers and element-wise dependences",
		Explanation: "Train of every model is analysed in both corpus modes with the goroutines it starts. Every matrix that is stored in a field gets its number of rows as a multiple of the size of the vocabulary, and every row number that is used has to be a word id (an element of the text, a decoded half of a pair, a stored pair's word, a random number below the size of the vocabulary, or a counter below it) or a word id plus the size of the vocabulary, the latter only for matrices with two rows per word. " +
			"Where elements of two rows of a shared matrix are multiplied, one must be of each half; statistics kept per row (AdaGrad) must be those of the row that is updated. Everything else that is indexed by a word (Huffman leaves, subsampling rates) must have one entry per word. WordVector is analysed in the same way, and what the corpora deliver is shown to be ids of the dictionary.",
		Run: runC26,
	})
}

type unitCheck struct {
	r      *Rep
	p      *Prog
	rows   map[fieldID]int64 // rows per word, of matrices and of slices with an entry per word
	stored map[fieldID]string
	used   map[fieldID]string
}

// perWord gives k when t is k times the size of the vocabulary.
func perWord(s *State, t *Term) int64 {
	l := linOf(s.norm(t))
	if len(l.at) == 1 && l.c == 0 && isDicLen(l.at[0]) && l.co[0] > 0 {
		return l.co[0]
	}
	return 0
}

// addrOfLoad gives the address a term was loaded from.
func addrOfLoad(x *Ctx, t *Term) *Term {
	t = x.S.norm(t)
	if t.Kind == 'o' && t.Op == "field" {
		// a field of a struct that was loaded whole
		if a := addrOfLoad(x, t.Args[0]); a != nil {
			return mkFieldAddr(a, t.Field, t.Typ)
		}
		return nil
	}
	if t.Kind != 'l' {
		return nil
	}
	if t.Op == "memval" {
		return t.Args[0]
	}
	if u, ok := t.Val.(*ssa.UnOp); ok && u.Op == token.MUL && t.Frame != nil {
		return x.E.val(t.Frame, u.X, x.S)
	}
	return nil
}

// tableRows gives the number of entries per word of a matrix or a slice.
func (u *unitCheck) tableRows(x *Ctx, m *Term) int64 {
	m = x.S.norm(m)
	if m.Kind == 'o' && (m.Op == "matrix" || m.Op == "perword") {
		return perWord(x.S, m.Args[0])
	}
	if id, ok := u.fieldOf(x, m); ok {
		return u.rows[id]
	}
	if m.Kind == 'l' {
		return perWord(x.S, x.S.lenOf(m))
	}
	return 0
}

// unit of a row number: "word", "context" (word + size of the vocabulary) or "".
func (u *unitCheck) unit(x *Ctx, t *Term, note bool) string {
	s := x.S
	t = s.norm(t)
	for t.Kind == 'o' && strings.HasPrefix(t.Op, "conv:") {
		t = s.norm(t.Args[0])
	}
	l := linOf(t)
	switch {
	case len(l.at) == 2 && l.c == 0 && l.co[0] == 1 && l.co[1] == 1:
		for i, a := range l.at {
			if isDicLen(s.norm(a)) && u.unit(x, l.at[1-i], note) == "word" {
				return "context"
			}
		}
	case len(l.at) == 1 && l.c == 0 && l.co[0] == 1:
		t = l.at[0]
		if t.Kind == 'o' && t.Op == "wordid" {
			return "word"
		}
		if t.Kind == 'l' && t.Op == "memval" && t.Args[0].Kind == 'o' && t.Args[0].Op == "indexaddr" && u.isDoc(x, t.Args[0].Args[0]) {
			return "word"
		}
		if id, ok := u.fieldOf(x, t); ok && u.isIDField(id) {
			if note {
				u.used[id] = x.Pos()
			}
			return "word"
		}
		if t.Kind == 'l' && t.Val != nil && u.idSource(t.Val, map[ssa.Value]bool{}) == "" {
			return "word"
		}
		// a counter below the size of the vocabulary
		if c := counterOf(x, t); c != nil && perWord(s, c.limit(x)) == 1 {
			return "word"
		}
	}
	if c := counterOf(x, t); c != nil && perWord(s, c.limit(x)) == 1 {
		return "word"
	}
	return ""
}

func (u *unitCheck) isIDField(id fieldID) bool { return strings.HasPrefix(u.stored[id], "word") }

// isDoc recognises the text: what IndexedDoc returns, what arrives on a
// channel of texts, and parts of them.
func (u *unitCheck) isDoc(x *Ctx, t *Term) bool {
	t = x.S.norm(t)
	for t.Kind == 'o' && t.Op == "slice" {
		t = x.S.norm(t.Args[0])
	}
	if t.Kind == 'o' && t.Op == "document" {
		return true
	}
	if t.Kind == 'o' && t.Op == "extract" && t.Field == 0 && t.Args[0].Kind == 'l' {
		if tu, ok := t.Args[0].Val.(*ssa.UnOp); ok && tu.Op == token.ARROW {
			return u.docSource(tu) == ""
		}
	}
	return t.Kind == 'l' && t.Val != nil && u.docSource(t.Val) == ""
}

// docSource explains why a slice need not be a text; the elements of those
// that are built by the corpora are checked where they are stored.
func (u *unitCheck) docSource(v ssa.Value) string {
	return u.docSource1(v, map[ssa.Value]bool{})
}

func (u *unitCheck) docSource1(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	if !isIntSlice(v.Type()) {
		if tu, ok := v.(*ssa.UnOp); !ok || !tu.CommaOk {
			return "not a slice of int"
		}
	}
	src := u.sources(v)
	if len(src) == 0 {
		return "unknown"
	}
	for _, q := range src {
		if w := u.docSource2(q, seen); w != "" {
			return w
		}
	}
	return ""
}

func (u *unitCheck) docSource2(q ssa.Value, seen map[ssa.Value]bool) string {
	inCorpus := false
	if in, ok := q.(ssa.Instruction); ok {
		pk := pkgOf(in.Parent())
		inCorpus = pk != nil && strings.HasPrefix(pk.Path(), modPath+"/pkg/corpus/")
	}
	switch q := q.(type) {
	case *ssa.Const:
		return ""
	case *ssa.Slice:
		if _, ok := q.X.Type().Underlying().(*types.Pointer); ok {
			if inCorpus {
				return ""
			}
			break
		}
		return u.docSource1(q.X, seen)
	case *ssa.MakeSlice:
		if inCorpus {
			return ""
		}
	case *ssa.Call:
		com := q.Common()
		if com.IsInvoke() && com.Method.Name() == "IndexedDoc" {
			return ""
		}
		if f := com.StaticCallee(); f != nil && f.Name() == "IndexedDoc" {
			return ""
		}
		if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if w := u.docSource1(com.Args[0], seen); w != "" {
				return w
			}
			return u.docSource1(com.Args[1], seen)
		}
	case *ssa.Extract:
		if tu, ok := q.Tuple.(*ssa.UnOp); ok && tu.Op == token.ARROW {
			return u.sends(tu.X.Type(), seen)
		}
	case *ssa.UnOp:
		if q.Op == token.ARROW {
			return u.sends(q.X.Type(), seen)
		}
		if fa, ok := q.X.(*ssa.FieldAddr); ok && q.Op == token.MUL {
			return u.fieldDocs(fa, seen)
		}
	}
	return q.Name() + " = " + q.String()
}

func (u *unitCheck) fieldDocs(fa *ssa.FieldAddr, seen map[ssa.Value]bool) string {
	id := fieldIDOf(fa)
	for _, f := range u.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fb, ok := st.Addr.(*ssa.FieldAddr); ok && fieldIDOf(fb) == id {
						if w := u.docSource1(st.Val, seen); w != "" {
							return w
						}
					}
				}
			}
		}
	}
	return ""
}

// sends looks at everything that is sent on channels of a type.
func (u *unitCheck) sends(t types.Type, seen map[ssa.Value]bool) string {
	el := t.Underlying().(*types.Chan).Elem()
	for _, f := range u.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if sd, ok := in.(*ssa.Send); ok && types.Identical(sd.Chan.Type().Underlying().(*types.Chan).Elem(), el) {
					if w := u.docSource1(sd.X, seen); w != "" {
						return w
					}
				}
			}
		}
	}
	return ""
}

func isIntSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typKey(s.Elem().Underlying()) == "int"
}

// fieldOf gives the field that a term was read from.
func (u *unitCheck) fieldOf(x *Ctx, t *Term) (fieldID, bool) {
	t = x.S.norm(t)
	switch {
	case t.Kind == 'o' && t.Op == "field":
		return fieldID{strings.TrimPrefix(typKey(t.Typ), "*"), fieldName(t.Typ, t.Field)}, true
	case t.Kind == 'l' && t.Op == "memval":
		return fieldOfAddr(t.Args[0])
	case t.Kind == 'l' && t.Val != nil:
		return u.p.fieldOfValue(t.Val)
	}
	return fieldID{}, false
}

func runC26(r *Rep) {
	r.rule("row", 8, "a row that is used exists and is that of a word, or of its context vector")
	r.rule("halves", 2, "rows of a shared matrix that are trained together are of different halves")
	r.rule("statistics", 1, "statistics kept per row are those of the row that is updated")
	r.rule("table", 2, "what is looked up per word has an entry for every word")
	r.rule("matrices", 4, "a parameter matrix has one row per word, or two")
	r.rule("word-field", 1, "a field that is used as a word id holds one")
	r.rule("text", 2, "the text that is trained on consists of ids of the dictionary")
	p := r.P
	u := &unitCheck{r: r, p: p, rows: map[fieldID]int64{}, stored: map[fieldID]string{}, used: map[fieldID]string{}}
	matrixRules(r)
	// two rounds: what the fields hold is known after the first
	for round := 0; round < 2; round++ {
		q := newRep(r.ID, p)
		u.r = q
		if round == 1 {
			u.r = r
			q = r
		}
		for _, m := range p.models(q) {
			for _, md := range m.trainModes() {
				u.analyse(m, m.Train, md.S, md.Name+" Train", true)
			}
			u.analyse(m, m.WV, newState(), m.Name+" WordVector", false)
		}
	}
	for id, pos := range u.used {
		c := id.typ[strings.LastIndex(id.typ, "/")+1:] + "." + id.field
		r.must(u.stored[id] == "word", "word-field", c, "%s is used as a word id (%s), but what is stored into it need not be one: %s", c, pos, strings.TrimPrefix(u.stored[id], "word; "))
	}
	u.corpora()
}

func (u *unitCheck) analyse(m *modelType, fn *ssa.Function, s *State, what string, goroutines bool) {
	r, p := u.r, u.p
	c := &Client{}
	rel := relInline(p, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case ssa.CallInstruction:
			f := in.Common().StaticCallee()
			return f != nil && (f == p.method("pkg/model/modelutil/matrix", "Matrix", "Slice") || f.Name() == "HuffnamTree" || isMatrixNew(f))
		case *ssa.Store:
			return true
		case *ssa.IndexAddr:
			return true
		}
		return false
	})
	c.Inline = func(k *Call) bool {
		if k.Fn != nil && isMatrixNew(k.Fn) && !goroutines {
			return true
		}
		if k.Fn == nil || isVerboseDo(k.Name) || isMatrixNew(k.Fn) || strings.Contains(qualName(k.Fn), "/pkg/corpus/") || strings.Contains(qualName(k.Fn), "/modelutil/matrix") {
			return false
		}
		return rel(k) || choosesIndex(k.Fn)
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		site := fnName(x.F.Fn)
		if k.Fn == nil {
			switch {
			case strings.HasSuffix(k.Name, "corpus.Corpus.IndexedDoc"):
				return true, mkOp("document", types.NewSlice(types.Typ[types.Int]))
			}
		}
		if k.Fn != nil && k.Fn == p.method("pkg/model/modelutil/matrix", "Matrix", "Slice") {
			if isMatrixNew(x.F.Fn) {
				// rule matrix-new
				return true, mkRow(s.norm(k.Args[0]), s.norm(k.Args[1]))
			}
			n := u.tableRows(x, k.Args[0])
			un := u.unit(x, k.Args[1], true)
			// what it is called with may be a counter of the rows of that very matrix
			if cnt := counterOf(x, k.Args[1]); un == "" && cnt != nil {
				if lim := x.S.norm(cnt.limit(x)); perWord(s, lim) == n && n > 0 {
					un = "any"
				}
			}
			good := n > 0 && (un == "word" || un == "any" || un == "context" && n == 2)
			r.must(good, "row", site+" "+u.describe(x, k.Args[0])+" "+un, "row %s of %s, which has %d rows per word, is used, and is not known to be the row of a word or a context (%s)", s.norm(k.Args[1]), k.Args[0], n, x.Pos())
			return true, mkRow(s.norm(k.Args[0]), s.norm(k.Args[1]))
		}
		if k.Fn != nil {
			switch {
			case k.Fn == p.method("pkg/model/modelutil/matrix", "Matrix", "Row"):
				if n := u.tableRows(x, k.Args[0]); n > 0 {
					return true, mkLin(linOf(mkDicLen(mkSym("vocabulary", types.Typ[types.Int]))).times(n))
				}
				return false, nil
			case k.Fn.Name() == "Len" && k.Fn.Signature.Recv() != nil && namedIs(k.Fn.Signature.Recv().Type(), "corpus/dictionary", "Dictionary"):
				// there is one dictionary
				return true, mkDicLen(mkSym("vocabulary", types.Typ[types.Int]))
			case isMatrixNew(k.Fn) && !goroutines:
				return false, nil
			case isMatrixNew(k.Fn):
				return true, mkOp("matrix", k.Fn.Signature.Results().At(0).Type(), s.norm(k.Args[0]), s.norm(k.Args[1]), mkSym("at "+x.Pos(), types.Typ[types.Int]))
			case k.Fn.Name() == "HuffnamTree" && k.Fn.Signature.Recv() != nil:
				return true, mkOp("perword", k.Fn.Signature.Results().At(0).Type(), mkDicLen(mkSym("vocabulary", types.Typ[types.Int])))
			case strings.HasSuffix(qualName(k.Fn), "/modelutil.NextRandom"):
				if perWord(s, k.Args[0]) == 1 {
					return true, mkOp("wordid", types.Typ[types.Int], mkLeaf(x.F, x.I.(ssa.Value), ""))
				}
				return false, nil
			case strings.HasSuffix(qualName(k.Fn), "/encode.DecodeBigram"):
				l := mkLeaf(x.F, x.I.(ssa.Value), "")
				t := types.Typ[types.Uint64]
				return true, mkOp("tuple", l.Typ, mkOp("wordid", t, mkOpX("extract", t, nil, 0, l)), mkOp("wordid", t, mkOpX("extract", t, nil, 1, l)))
			case isDictionaryGetter(k.Fn):
				return true, mkOp("dictionary", k.Fn.Signature.Results().At(0).Type(), stripAssert(s.norm(k.Args[0])))
			case k.Fn.Name() == "IndexedDoc" && k.Fn.Signature.Recv() != nil:
				return true, mkOp("document", types.NewSlice(types.Typ[types.Int]))
			}
		}
		return false, nil
	}
	vocab := mkDicLen(mkSym("vocabulary", types.Typ[types.Int]))
	c.Pure = func(k *ssa.Call) *Term {
		if n := u.sizeCall(k); n > 0 {
			return mkLin(linOf(vocab).times(n))
		}
		return nil
	}
	c.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.Store:
			a := s.norm(x.Val(in.Addr))
			if id, ok := fieldOfAddr(a); ok {
				v := s.norm(x.Val(in.Val))
				n := int64(0)
				isTable := false
				switch {
				case isMatrix(in.Val.Type()):
					n = u.tableRows(x, v)
					isTable = true
					r.must(n == 1 || n == 2, "matrices", short(id.typ)+"."+id.field, "the matrix stored into %s has %s rows, which is neither one nor two per word (%s)", id.field, v, x.Pos())
				case v.Kind == 'o' && v.Op == "perword":
					n = perWord(s, v.Args[0])
					isTable = true
				case isSlice(in.Val.Type()):
					n = perWord(s, s.lenOf(v))
					isTable = n > 0
				}
				if isTable {
					if old, ok := u.rows[id]; ok && old != n {
						n = -1
					}
					u.rows[id] = n
				}
				if isIntType(in.Val.Type()) {
					un := u.unit(x, v, false)
					old, seen := u.stored[id]
					switch {
					case un == "word" && !seen:
						u.stored[id] = "word"
					case un != "word" && !seen:
						u.stored[id] = "other"
					case un != "word" && old == "word":
						u.stored[id] = "word; " + v.String() + " (" + x.Pos() + ")"
					}
				}
			}
			// a value that is stored into an element of a row
			m, row, _, ok := elemOfRow(s, a)
			if !ok || !isFloat(in.Val.Type()) {
				return
			}
			u.rowStore(x, m, row, x.Val(in.Val))
		case *ssa.BinOp:
			if in.Op != token.MUL || !isFloat(in.Type()) {
				return
			}
			a1, a2 := addrOfLoad(x, x.Val(in.X)), addrOfLoad(x, x.Val(in.Y))
			m1, r1, _, ok1 := elemOfRow(s, a1)
			m2, r2, _, ok2 := elemOfRow(s, a2)
			if !ok1 || !ok2 || s.norm(m1) != s.norm(m2) {
				return
			}
			if u.tableRows(x, m1) != 2 {
				return
			}
			u1, u2 := u.unit(x, r1, false), u.unit(x, r2, false)
			r.must(u1 == "word" && u2 == "context" || u1 == "context" && u2 == "word", "halves", fnName(x.F.Fn), "rows %s and %s of %s are multiplied, which are not a word vector and a context vector (%s)", r1, r2, m1, x.Pos())
		case *ssa.IndexAddr:
			// other tables with an entry per word
			b := s.norm(x.Val(in.X))
			if u.isDoc(x, b) {
				return
			}
			un := u.unit(x, x.Val(in.Index), false)
			n := u.tableRows(x, b)
			if n != 0 || un == "word" && !isCounter(x, x.Val(in.Index)) {
				r.must(n == 1 && un == "word", "table", fnName(x.F.Fn)+" "+u.describe(x, b), "entry %s of %s is used, which is not known to exist (%s)", s.norm(x.Val(in.Index)), b, x.Pos())
			}
		}
	}
	e := newEngine(p, c)
	f := e.rootFrame(fn)
	e.Run(f, s.clone())
	if goroutines {
		e.RunSpawned()
	}
	r.absorb(e, what)
}

func isCounter(x *Ctx, t *Term) bool { return counterOf(x, t) != nil }

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func isMatrixNew(f *ssa.Function) bool {
	return f != nil && strings.HasSuffix(qualName(f), "/modelutil/matrix.New")
}

// describe names a table by the field it was loaded from.
func (u *unitCheck) describe(x *Ctx, t *Term) string {
	if id, ok := u.fieldOf(x, t); ok {
		return id.field
	}
	return "table"
}

// rowStore checks what the value stored into a row depends on element by element.
func (u *unitCheck) rowStore(x *Ctx, m, row, v *Term) {
	s := x.S
	type ref struct{ m, row *Term }
	var refs []ref
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		t = s.norm(t)
		if seen[t] {
			return
		}
		seen[t] = true
		if a := addrOfLoad(x, t); a != nil {
			if m2, r2, _, ok := elemOfRow(s, a); ok {
				refs = append(refs, ref{s.norm(m2), s.norm(r2)})
			}
			return
		}
		for _, q := range t.Args {
			walk(q)
		}
	}
	walk(v)
	stat := func(m *Term) bool { return u.describe(x, m) != "" && u.isStat(x, m) }
	sort.Slice(refs, func(i, j int) bool { return refs[i].row.id < refs[j].row.id })
	site := fnName(x.F.Fn)
	if stat(m) {
		for _, f := range refs {
			if !stat(f.m) {
				u.r.must(!s.equal(f.row, row), "statistics", site+" gather", "the statistics of row %s gather the vector of that row, not of the other (%s)", row, x.Pos())
			} else {
				u.r.must(s.equal(f.row, row), "statistics", site+" gather", "the statistics of row %s are mixed with those of row %s (%s)", row, f.row, x.Pos())
			}
		}
		return
	}
	for _, f := range refs {
		if stat(f.m) {
			u.r.must(s.equal(f.row, row), "statistics", site+" apply", "row %s is updated with the statistics of row %s (%s)", row, f.row, x.Pos())
		}
	}
}

// isStat recognises a matrix of statistics: one that a solver keeps next to
// the parameters that it is given.
func (u *unitCheck) isStat(x *Ctx, m *Term) bool {
	id, ok := u.fieldOf(x, m)
	return ok && strings.Contains(id.typ, "glove.") && !strings.HasSuffix(id.typ, ".glove")
}

// corpora checks that the documents consist of ids that the dictionary gave.
func (u *unitCheck) corpora() {
	r, p := u.r, u.p
	for _, path := range []string{"pkg/corpus/memory", "pkg/corpus/fs"} {
		for _, f := range p.Funcs {
			pk := pkgOf(f)
			if pk == nil || pk.Path() != modPath+"/"+path {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || typKey(st.Val.Type()) != "int" {
						continue
					}
					ia, ok := st.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					if why := u.idSource(st.Val, map[ssa.Value]bool{}); why != "" {
						r.bad("text", fnName(f), "a value is put into the text that need not be a word id: %s (%s)", why, p.posOf(st))
					} else {
						r.ok("text", fnName(f))
					}
					_ = ia
				}
			}
		}
	}
}

// sources follows a value through helpers, up to the functions that have a
// meaning of their own here.
func (u *unitCheck) sources(v ssa.Value) []ssa.Value {
	return u.p.sourcesThrough(v, func(f *ssa.Function) bool {
		n := qualName(f)
		return !(strings.HasSuffix(n, "/modelutil.NextRandom") || strings.HasSuffix(n, "/encode.DecodeBigram") || f.Name() == "IndexedDoc" ||
			strings.Contains(n, "/dictionary.") || strings.Contains(n, "/matrix."))
	})
}

// sizeCall gives k for a call that returns k times the size of the vocabulary.
func (u *unitCheck) sizeCall(k *ssa.Call) int64 {
	f := k.Call.StaticCallee()
	if f == nil || f.Signature.Recv() == nil {
		return 0
	}
	if f == u.p.method("pkg/corpus/dictionary", "Dictionary", "Len") {
		return 1
	}
	if f == u.p.method("pkg/model/modelutil/matrix", "Matrix", "Row") {
		if id, ok := u.p.fieldOfValue(k.Call.Args[0]); ok && u.rows[id] > 0 {
			return u.rows[id]
		}
	}
	return 0
}

// idSource explains why a value need not be a word id.
func (u *unitCheck) idSource(v ssa.Value, seen map[ssa.Value]bool) string {
	src := u.sources(v)
	if len(src) == 0 {
		return "unknown"
	}
	for _, q := range src {
		switch q := q.(type) {
		case *ssa.Call:
			if f := q.Call.StaticCallee(); f != nil && strings.HasSuffix(qualName(f), "/modelutil.NextRandom") {
				small := true
				for _, a := range u.sources(q.Call.Args[0]) {
					if k, ok := a.(*ssa.Call); !ok || u.sizeCall(k) != 1 {
						small = false
					}
				}
				if small {
					continue
				}
			}
		case *ssa.Extract:
			if c, ok := q.Tuple.(*ssa.Call); ok {
				f := c.Call.StaticCallee()
				if f != nil && f == u.p.method("pkg/corpus/dictionary", "Dictionary", "ID") && q.Index == 0 {
					continue
				}
				if f != nil && strings.HasSuffix(qualName(f), "/encode.DecodeBigram") {
					continue
				}
			}
		case *ssa.UnOp:
			if ia, ok := q.X.(*ssa.IndexAddr); ok && q.Op == token.MUL && u.docSource(ia.X) == "" {
				continue
			}
		}
		return q.Name() + " = " + q.String()
	}
	return ""
}

// choosesIndex: a small function without loops and calls that gives an integer.
func choosesIndex(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 8 {
		return false
	}
	gives := false
	for i := 0; i < f.Signature.Results().Len(); i++ {
		gives = gives || isSignedInt(f.Signature.Results().At(i).Type())
	}
	if !gives {
		return false
	}
	for _, b := range f.Blocks {
		for _, q := range b.Preds {
			if backEdge(q, b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, builtin := c.Common().Value.(*ssa.Builtin); !builtin {
					return false
				}
			}
		}
	}
	return true
}
