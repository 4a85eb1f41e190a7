package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C24",
		Technique: "typestate of the text that is written (formats and arguments become tokens) over one arbitrary iteration per loop, exact loop domains, and term-level matching of the parser over go/ssa",
		Explanation: "Every write of Save is split into literal text, words and values; along every path they must form lines of one word and its own values, separated by blanks and ended by a newline, in a format of at least six decimals; the loops must cover exactly all words and all columns, and what is collected in memory must be copied once. " +
			"Load must accept lines of any length, skip only lines that Save cannot write, take the first field as the word and parse each of the others, in order, as a 64-bit number into the element it belongs to, append each entry once, and fail only for lines that Save cannot write or errors of the reader and of the number parser.",
		Run: runC24,
	})
}

func runC24(r *Rep) {
	r.rule("lines", 1, "a line is a word and its values, separated by blanks")
	r.rule("all-words", 1, "there is one line for each word, in order")
	r.rule("all-values", 1, "there is one value for each column of the row")
	r.rule("precision", 1, "values have at least six decimals")
	r.rule("copied", 1, "what is written is handed over once")
	r.rule("any-length", 1, "a line may have any length")
	r.rule("kept", 1, "every line of Save becomes one entry, in order")
	r.rule("fields", 1, "the word is the first field, the vector the others")
	r.rule("parsed", 1, "every value is parsed into its own element")
	r.rule("accepted", 1, "no line of Save is refused")
	saveRules(r)
	loadRules(r)
}

// textTok is a piece of output: a literal, a word or a value.
type textTok struct {
	lit  string
	arg  *Term
	verb string // the verb of fmt with its flags, "s" for strings
}

// formatToks splits a format.
func formatToks(f string, args []*Term) ([]textTok, bool) {
	var out []textTok
	n := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = append(out, textTok{lit: f[i : i+j]})
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j == len(f) {
			return nil, false
		}
		verb := f[i+1 : j+1]
		i = j + 1
		if verb == "%" {
			out = append(out, textTok{lit: "%"})
			continue
		}
		if strings.ContainsAny(verb, "*[]") || n >= len(args) || args[n] == nil {
			return nil, false
		}
		out = append(out, textTok{arg: args[n], verb: verb})
		n++
	}
	return out, n == len(args)
}

func stripIface(s *State, t *Term) *Term {
	if t == nil {
		return nil
	}
	t = s.norm(t)
	for t.Kind == 'o' && t.Op == "iface" {
		t = s.norm(t.Args[0])
	}
	return t
}

// fmtToks gives the output of a function of fmt, from the n-th argument on.
func fmtToks(s *State, name string, args []*Term) ([]textTok, bool) {
	var el []*Term
	if len(args) > 0 {
		last := args[len(args)-1]
		if c, ok := constInt(s.norm(s.lenOf(last))); !ok {
			return nil, false
		} else if c > 0 {
			el = elements(s, last)
			if int64(len(el)) != c {
				return nil, false
			}
		}
	}
	for i := range el {
		el[i] = stripIface(s, el[i])
	}
	switch {
	case strings.HasSuffix(name, "f"):
		f, ok := constStr(s.norm(args[0]))
		if !ok {
			return nil, false
		}
		return formatToks(f, el)
	case strings.HasSuffix(name, "ln"):
		var out []textTok
		for i, a := range el {
			if i > 0 {
				out = append(out, textTok{lit: " "})
			}
			out = append(out, textTok{arg: a, verb: "v"})
		}
		return append(out, textTok{lit: "\n"}), true
	}
	var out []textTok
	for i, a := range el {
		if a == nil {
			return nil, false
		}
		if i > 0 && !isString(a.Typ) && !isString(el[i-1].Typ) {
			out = append(out, textTok{lit: " "})
		}
		out = append(out, textTok{arg: a, verb: "v"})
	}
	return out, true
}

func saveRules(r *Rep) {
	p := r.P
	fn := p.fn("pkg/model/modelutil/vector", "Save")
	if fn == nil {
		r.bad("lines", "pkg/model/modelutil/vector", "Save is not found")
		return
	}
	site := fnName(fn)
	bad := map[string]string{}
	note := func(rule, f string, args ...interface{}) {
		if bad[rule] == "" {
			bad[rule] = fmt.Sprintf(f, args...)
		}
	}
	words, values := newVisits("word"), newVisits("column")
	ci, mt := matrixField(p, "Col")
	ri, _ := matrixField(p, "Row")
	wordFn := p.method("pkg/corpus/dictionary", "Dictionary", "Word")
	dests := map[*Term]*Term{} // buffered writer -> what it writes to
	var sink *Term
	needCopy := false
	type exitS struct{ copied, pend, failed bool }
	var exits []exitS
	elem := map[*Term][3]*Term{}
	precise := 0
	c := &Client{
		Inline: func(k *Call) bool { return k.Fn != nil && p.inRepo(k.Fn) },
		Pin: func(v ssa.Value) bool {
			q, ok := v.(*ssa.Parameter)
			return ok && q.Parent() == fn
		},
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
	}
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		words.next(x, from, to)
		values.next(x, from, to)
		s := x.S
		if body := naturalLoop(to); body != nil {
			k := "at " + loopKeyOf(x.F, to)
			if !body[from] {
				s.auto[k] = "=" + s.auto["line"]
				return
			}
			if was := s.auto[k]; was != "" && was != "="+s.auto["line"] && backEdge(from, to) {
				note("lines", "a round of the loop leaves the line in another state than it found it (%s)", p.posOf(from.Instrs[len(from.Instrs)-1]))
			}
			if backEdge(from, to) && s.auto["pend"] != "" {
				needCopy = true
			}
		}
	}
	var emit func(x *Ctx, w *Term, toks []textTok, ok bool)
	// strings that were put together
	var strToks func(s *State, t *Term) ([]textTok, bool)
	strToks = func(s *State, t *Term) ([]textTok, bool) {
		t = s.norm(t)
		if c, ok := constStr(t); ok {
			return []textTok{{lit: c}}, true
		}
		if t.Kind == 'o' {
			switch {
			case t.Op == "sprintf":
				return fmtToks(s, "Sprintf", t.Args)
			case t.Op == "sprint":
				return fmtToks(s, "Sprint", t.Args)
			case t.Op == "sprintln":
				return fmtToks(s, "Sprintln", t.Args)
			case t.Op == "concat":
				a, ok1 := strToks(s, t.Args[0])
				b, ok2 := strToks(s, t.Args[1])
				return append(append([]textTok{}, a...), b...), ok1 && ok2
			case strings.HasPrefix(t.Op, "conv:"):
				return strToks(s, t.Args[0])
			}
		}
		return []textTok{{arg: t, verb: "s"}}, true
	}
	var one func(x *Ctx, w *Term, k textTok)
	one = func(x *Ctx, w *Term, k textTok) {
		s := x.S
		st := s.auto["line"]
		if k.arg == nil {
			for _, ch := range k.lit {
				switch {
				case ch == ' ' || ch == '\t':
					if st == "" {
						note("lines", "a line starts with a blank, such lines are not loaded (%s)", x.Pos())
					}
					st = "sep"
				case ch == '\n':
					if st == "" {
						note("lines", "there is an empty line (%s)", x.Pos())
					}
					st = ""
					delete(s.auto, "row")
				default:
					note("lines", "%q is written, which is neither a word nor a value (%s)", ch, x.Pos())
				}
			}
			s.auto["line"] = st
			return
		}
		a := s.norm(k.arg)
		if a.Kind == 'o' && a.Op == "contents" {
			// the text of a buffer
			if k.verb != "v" && k.verb != "s" {
				note("copied", "the text is copied with %%%s (%s)", k.verb, x.Pos())
			}
			if s.auto["copied"] != "" {
				note("copied", "the text can be copied twice (%s)", x.Pos())
			}
			if a.Args[0] == w || sink != nil && a.Args[0] != sink {
				note("copied", "the text of another buffer is copied (%s)", x.Pos())
			}
			if !reachesDest(w, dests, mkLeaf(x.E.Root, fn.Params[0], "")) {
				note("copied", "the text is copied to %s, which is not the destination (%s)", w, x.Pos())
			}
			s.auto["copied"] = "y"
			delete(s.auto, "pend")
			return
		}
		if sink == nil {
			sink = w
		}
		if w != sink {
			note("copied", "the text is written to two places (%s)", x.Pos())
		}
		if s.auto["copied"] != "" {
			note("copied", "text can be added to a buffer that is copied again (%s)", x.Pos())
		}
		s.auto["pend"] = "y"
		switch {
		case isString(a.Typ):
			if !(a.Kind == 'o' && a.Op == "dicWord") {
				if q, ok := strToks(s, a); ok && !(len(q) == 1 && q[0].arg == a) && (k.verb == "v" || k.verb == "s") {
					for _, k := range q {
						one(x, w, k)
					}
					return
				}
				note("lines", "%s is written, which is not known to be a word (%s)", a, x.Pos())
				return
			}
			if k.verb != "v" && k.verb != "s" && k.verb[0] != '-' || strings.HasSuffix(k.verb, "q") || strings.HasSuffix(k.verb, "x") {
				note("lines", "a word is written with %%%s (%s)", k.verb, x.Pos())
			}
			if st != "" {
				note("lines", "a word is written within a line (%s)", x.Pos())
			}
			if a.Args[0] != mkLeaf(x.E.Root, fn.Params[1], "") {
				note("lines", "a word of another dictionary is written (%s)", x.Pos())
			}
			words.record(x, a.Args[1])
			s.auto["row"] = fmt.Sprint(a.Args[1].id)
			s.auto["line"] = "tok"
		default:
			v := a
			prec := -1
			switch {
			case v.Kind == 'o' && v.Op == "formatted":
				prec = v.Field
				v = s.norm(v.Args[0])
			default:
				prec = verbDecimals(k.verb)
			}
			precise++
			if prec < 6 {
				note("precision", "a value is written with %%%s (%s)", k.verb, x.Pos())
			}
			at, ok := elem[v]
			if !ok {
				note("lines", "%s is written, which is not an element of the matrix (%s)", v, x.Pos())
				return
			}
			if st != "sep" {
				note("lines", "nothing separates a value from what is before it (%s)", x.Pos())
			}
			if s.auto["row"] != fmt.Sprint(at[1].id) {
				note("lines", "the value is not of the row of the word (%s)", x.Pos())
			}
			if at[0] != mkLeaf(x.E.Root, fn.Params[2], "") {
				note("lines", "the value is of another matrix (%s)", x.Pos())
			}
			values.record(x, at[2])
			s.auto["line"] = "tok"
		}
	}
	emit = func(x *Ctx, w *Term, toks []textTok, ok bool) {
		w = stripIface(x.S, w)
		if !ok {
			note("lines", "what is written is not understood (%s)", x.Pos())
			return
		}
		for _, k := range toks {
			if k.arg == nil && k.lit != "" {
				if sink == nil {
					sink = w
				}
				if w != sink {
					note("copied", "the text is written to two places (%s)", x.Pos())
				}
				if x.S.auto["copied"] != "" {
					note("copied", "text can be added after the text was copied (%s)", x.Pos())
				}
				x.S.auto["pend"] = "y"
			}
			one(x, w, k)
		}
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		if isVerboseDo(k.Name) {
			return true, nil
		}
		if k.Fn != nil && k.Fn == wordFn {
			w := mkOp("dicWord", types.Typ[types.String], s.norm(k.Args[0]), s.norm(k.Args[1]))
			var t types.Type = types.NewTuple()
			if v, ok := x.I.(*ssa.Call); ok {
				t = v.Type()
			}
			return true, mkOp("tuple", t, w, mkOp("hasWord", types.Typ[types.Bool], s.norm(k.Args[0]), s.norm(k.Args[1])))
		}
		if k.Fn != nil && k.Fn == p.method("pkg/model/modelutil/matrix", "Matrix", "Col") {
			return true, s.content(mkFieldAddr(s.norm(k.Args[0]), ci, mt), types.Typ[types.Int])
		}
		if k.Fn != nil && k.Fn == p.method("pkg/model/modelutil/matrix", "Matrix", "Row") {
			return true, s.content(mkFieldAddr(s.norm(k.Args[0]), ri, mt), types.Typ[types.Int])
		}
		if ok, t := matrixModel(p, x, k); ok {
			if mm, _, isRow := rowOf(s, t); isRow {
				s.env[mkLen(t)] = s.content(mkFieldAddr(mm, ci, mt), types.Typ[types.Int])
			}
			return ok, t
		}
		n := k.Name
		var l *Term
		if v, ok := x.I.(*ssa.Call); ok {
			l = mkLeaf(x.F, v, "")
		}
		switch {
		case n == "bufio.NewWriter" || n == "bufio.NewWriterSize":
			if l != nil {
				dests[l] = stripIface(s, k.Args[0])
			}
		case n == "fmt.Fprintf" || n == "fmt.Fprint" || n == "fmt.Fprintln":
			toks, ok := fmtToks(s, n, k.Args[1:])
			emit(x, k.Args[0], toks, ok)
		case n == "fmt.Sprintf" || n == "fmt.Sprint" || n == "fmt.Sprintln":
			return true, mkOp(strings.ToLower(strings.TrimPrefix(n, "fmt.")), types.Typ[types.String], k.Args...)
		case n == "strconv.FormatFloat" && len(k.Args) == 4:
			f, ok1 := constInt(s.norm(k.Args[1]))
			d, ok2 := constInt(s.norm(k.Args[2]))
			b, ok3 := constInt(s.norm(k.Args[3]))
			prec := 0
			if ok1 && ok2 && ok3 && b == 64 {
				switch {
				case d < 0:
					prec = 99
				case f == 'f' || f == 'F':
					prec = int(d)
				}
			}
			return true, mkOpX("formatted", types.Typ[types.Float64], nil, prec, k.Args[0])
		case n == "io.WriteString", n == "bufio.Writer.WriteString", n == "bytes.Buffer.WriteString", n == "strings.Builder.WriteString", n == "io.StringWriter.WriteString",
			n == "bufio.Writer.Write", n == "bytes.Buffer.Write", n == "io.Writer.Write", n == "strings.Builder.Write":
			a := s.norm(k.Args[1])
			if a.Kind == 'o' && a.Op == "formatted" {
				emit(x, k.Args[0], []textTok{{arg: a, verb: "v"}}, true)
				break
			}
			toks, ok := strToks(s, a)
			emit(x, k.Args[0], toks, ok)
		case strings.HasSuffix(n, ".WriteByte") || strings.HasSuffix(n, ".WriteRune"):
			ch, ok := constInt(s.norm(k.Args[1]))
			emit(x, k.Args[0], []textTok{{lit: string(rune(ch))}}, ok)
		case n == "bytes.Buffer.String" || n == "bytes.Buffer.Bytes" || n == "strings.Builder.String":
			return true, mkOp("contents", types.Typ[types.String], stripIface(s, k.Args[0]))
		case n == "bytes.Buffer.WriteTo":
			one(x, stripIface(s, k.Args[1]), textTok{arg: mkOp("contents", types.Typ[types.String], stripIface(s, k.Args[0])), verb: "s"})
			delete(s.auto, "copied") // the buffer is empty now
			s.auto["drained"] = "y"
		case n == "bytes.Buffer.Reset" || n == "strings.Builder.Reset":
			if s.auto["pend"] != "" {
				note("copied", "text is discarded (%s)", x.Pos())
			}
			delete(s.auto, "copied")
			s.auto["drained"] = "y"
		case strings.HasPrefix(n, "bytes.Buffer.") && n != "bytes.Buffer.Len" && n != "bytes.Buffer.Grow", n == "io.Copy", n == "strings.NewReader", n == "bytes.NewReader", n == "bytes.NewBufferString":
			note("copied", "what %s does to the text is not understood (%s)", n, x.Pos())
		}
		return false, nil
	}
	c.Instr = func(x *Ctx) {
		s := x.S
		u, ok := x.I.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || !isFloat(u.Type()) {
			return
		}
		if m, id, j, ok := elemOfRow(s, s.norm(x.Val(u.X))); ok {
			elem[mkLeaf(x.F, u, "")] = [3]*Term{m, id, j}
		}
	}
	type bound struct{ words, cols []lin }
	var bs bound
	c.Exit = func(x *Ctx, res []*Term) {
		s := x.S
		failed := len(res) == 1 && s.nilOf(res[0]) == 0
		exits = append(exits, exitS{s.auto["copied"] != "" || s.auto["drained"] != "", s.auto["pend"] != "", failed})
		if !failed && s.auto["line"] != "" {
			note("lines", "the last line is not ended (%s)", x.Pos())
		}
	}
	e := e0(newEngine(p, c), fn)
	dic, mat := mkLeaf(e.Root, fn.Params[1], ""), mkLeaf(e.Root, fn.Params[2], "")
	s := newState()
	s.nils[dic], s.nils[mat] = false, false
	e.Run(e.Root, s)
	r.absorb(e, site)
	words.settle(e)
	values.settle(e)
	rows := memVal(mkFieldAddr(mat, ri, mt), types.Typ[types.Int])
	cols := memVal(mkFieldAddr(mat, ci, mt), types.Typ[types.Int])
	bs.words = []lin{linOf(mkDicLen(dic)), linOf(rows)}
	bs.cols = []lin{linOf(cols)}
	verify := func(rule string, vs *visits, his []lin, what string) {
		n := 0
		for _, k := range vs.order {
			v := vs.m[k]
			n++
			if v.undec != "" {
				note(rule, "%s", v.undec)
				continue
			}
			good := false
			for _, hi := range his {
				good = good || v.is(vs.interval(0, hi))
			}
			if !good {
				note(rule, "%s {%s} are written (%s)", what, v.dom, v.where)
			}
			if v.step*sign(v.expr.coeff(v.leaf)) < 0 {
				note(rule, "%s are written in reverse order (%s)", what, v.where)
			}
		}
		if n != 1 {
			note(rule, "%d loops write %s", n, what)
		}
	}
	verify("all-words", words, bs.words, "the words")
	verify("all-values", values, bs.cols, "the columns")
	okExits := 0
	for _, x := range exits {
		if x.failed {
			continue
		}
		okExits++
		inMemory := sink != nil && memWriter(sink)
		if sink == nil {
			note("copied", "nothing is written")
		} else if inMemory && (needCopy || x.pend) && !x.copied {
			note("copied", "Save can succeed without the text being copied to the destination")
		} else if !inMemory && !reachesDest(sink, dests, mkLeaf(e.Root, fn.Params[0], "")) {
			note("copied", "the text is written to %s, which is not the destination", sink)
		}
	}
	if okExits == 0 {
		note("copied", "Save never succeeds")
	}
	if precise == 0 {
		note("precision", "no value is written")
	}
	for _, rule := range []string{"lines", "all-words", "all-values", "precision", "copied"} {
		r.must(bad[rule] == "", rule, site, "%s", bad[rule])
	}
}

func sign(n int64) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func (a lin) coeff(t *Term) int64 {
	for i, x := range a.at {
		if x == t {
			return a.co[i]
		}
	}
	return 0
}

// reachesDest reports a writer whose output goes to the destination.
func reachesDest(w *Term, dests map[*Term]*Term, dest *Term) bool {
	for i := 0; i < 5 && w != nil; i++ {
		if w == dest {
			return true
		}
		w = dests[w]
	}
	return false
}

// verbDecimals gives the number of decimals that a verb writes, at least.
func verbDecimals(verb string) int {
	v := verb[len(verb)-1]
	flags := strings.TrimLeft(verb[:len(verb)-1], "+-0123456789")
	if strings.ContainsAny(verb[:len(verb)-1], " #") {
		return -1
	}
	switch v {
	case 'f', 'F':
		if flags == "" {
			return 6
		}
		if n, err := strconv.Atoi(strings.TrimPrefix(flags, ".")); err == nil {
			return n
		}
		return 0
	case 'v', 'g', 'G':
		if flags == "" {
			return 99 // as many as are needed
		}
	}
	return -1
}

func loadRules(r *Rep) {
	p := r.P
	fn := p.fn("pkg/embedding", "Load")
	if fn == nil {
		r.bad("kept", "pkg/embedding", "Load is not found")
		return
	}
	site := fnName(fn)
	bad := map[string]string{}
	note := func(rule, f string, args ...interface{}) {
		if bad[rule] == "" {
			bad[rule] = fmt.Sprintf(f, args...)
		}
	}
	isEmb := func(t types.Type) bool { return namedIs(t, "pkg/embedding", "Embedding") }
	parsed := newVisits("value")
	c := &Client{
		Inline: func(k *Call) bool {
			return k.Fn != nil && p.inRepo(k.Fn) && !strings.Contains(qualName(k.Fn), "/embutil.")
		},
		Once: func(*Frame, *ssa.BasicBlock) bool { return true },
	}
	var scanF *Frame
	var scanB *ssa.BasicBlock
	vecLen := map[*Term]*Term{}
	vecOf := map[*Term]map[string]bool{}
	lineTerm := func(t *Term) bool { return t != nil && t.Kind == 'o' && t.Op == "line" }
	scans, appends, splits := 0, 0, 0
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		var l *Term
		v, _ := x.I.(*ssa.Call)
		if v != nil {
			l = mkLeaf(x.F, v, "")
		}
		switch k.Name {
		case "bufio.NewScanner":
			s.auto["limit"] = "64K"
			if stripIface(s, k.Args[0]) != stripIface(s, mkLeaf(x.E.Root, fn.Params[0], "")) {
				note("kept", "something else than the argument is read (%s)", x.Pos())
			}
		case "bufio.Scanner.Buffer":
			delete(s.auto, "limit")
			if n, ok := constInt(s.norm(k.Args[2])); !ok || n < math.MaxInt32 {
				s.auto["limit"] = k.Args[2].String()
			}
		case "bufio.Scanner.Split":
			f := s.norm(k.Args[1])
			if !(f.Kind == 'f' && strings.HasSuffix(f.String(), "ScanLines")) {
				note("kept", "the input is not split into lines (%s)", x.Pos())
			}
		case "bufio.Scanner.Scan":
			scans++
			if s.auto["limit"] != "" {
				note("any-length", "a line may have at most %s bytes (%s)", s.auto["limit"], x.Pos())
			}
			f, h := innermost(x.F, x.I.Block())
			if h == nil || scanB != nil && (scanF != f || scanB != h) {
				note("kept", "lines are read in more than one place (%s)", x.Pos())
			}
			scanF, scanB = f, h
			if s.auto["line"] != "" {
				note("kept", "two lines are read in one round (%s)", x.Pos())
			}
			s.auto["line"] = "read"
			delete(s.auto, "kept")
		case "bufio.Scanner.Text":
			return true, mkOp("line", types.Typ[types.String], s.norm(k.Args[0]))
		case "bufio.Scanner.Bytes":
			note("kept", "the line is not copied (%s)", x.Pos())
		case "strings.HasPrefix":
			if lineTerm(s.norm(k.Args[0])) {
				if c, ok := constStr(s.norm(k.Args[1])); ok && c != "" && (c[0] == ' ' || c[0] == '\t') {
					return true, mkOp("blankLine", types.Typ[types.Bool], s.norm(k.Args[0]))
				}
			}
		case "strings.TrimSpace", "strings.TrimRight", "strings.TrimSuffix", "strings.Trim":
			// blanks at the ends do not change the fields
			if lineTerm(s.norm(k.Args[0])) {
				if len(k.Args) == 1 {
					return true, k.Args[0]
				}
				if c, ok := constStr(s.norm(k.Args[1])); ok && strings.Trim(c, " \t\r\n") == "" {
					return true, k.Args[0]
				}
			}
		case "strings.Fields":
			if !lineTerm(s.norm(k.Args[0])) {
				note("fields", "the fields are not those of the line (%s)", x.Pos())
			}
			splits++
			if s.auto["line"] == "split" {
				note("fields", "the line is split twice (%s)", x.Pos())
			}
			s.auto["line"] = "split"
			return true, mkOp("fields", types.NewSlice(types.Typ[types.String]), s.norm(k.Args[0]))
		case "strings.Split", "strings.SplitN", "strings.FieldsFunc", "strings.Cut":
			note("fields", "how %s splits a line is not known to agree with what Save writes (%s)", k.Name, x.Pos())
		case "strconv.ParseFloat":
			if n, ok := constInt(s.norm(k.Args[1])); !ok || n != 64 {
				note("parsed", "numbers are parsed with %s bits (%s)", k.Args[1], x.Pos())
			}
			f := s.norm(k.Args[0])
			return true, mkOp("tuple", v.Type(), mkOp("number", types.Typ[types.Float64], f), mkOp("numErr", v.Type().(*types.Tuple).At(1).Type(), f))
		case "bufio.Scanner.Err":
			return true, mkOp("scanErr", l.Typ, s.norm(k.Args[0]))
		case "builtin.append":
			if sl, ok := k.Com.Args[0].Type().Underlying().(*types.Slice); ok && isEmb(sl.Elem()) {
				appends++
				appendRule(x, k, note, vecOf, scanF, scanB)
				if l != nil {
					s.tags[l] = "list"
				}
			} else if ok && isFloat(sl.Elem()) {
				el := elements(s, k.Args[1])
				if len(el) != 1 {
					note("parsed", "values are added in a way that is not understood (%s)", x.Pos())
				} else {
					note("parsed", "values are appended, not stored (%s)", x.Pos())
				}
			}
		}
		return false, nil
	}
	// the field that a term is: line[i]
	parsed.okExit = func(x *Ctx, from, to *ssa.BasicBlock) bool {
		for t, isNil := range x.S.nils {
			if !isNil && t.Kind == 'o' && t.Op == "numErr" {
				return true
			}
		}
		return false
	}
	fieldAt := func(s *State, t *Term) (*Term, bool) {
		t = s.norm(t)
		if t.Kind == 'o' && t.Op == "fieldAt" {
			return t.Args[1], true
		}
		return nil, false
	}
	c.Instr = func(x *Ctx) {
		s := x.S
		switch in := x.I.(type) {
		case *ssa.UnOp:
			a := s.norm(x.Val(in.X))
			if in.Op == token.MUL && a.Kind == 'o' && a.Op == "indexaddr" && isString(in.Type()) {
				b, i := s.norm(a.Args[0]), s.norm(a.Args[1])
				if b.Kind == 'o' && b.Op == "slice" {
					i = mkLin(linOf(b.Args[1]).plus(linOf(i), 1))
					b = s.norm(b.Args[0])
				}
				if b.Kind == 'o' && b.Op == "fields" {
					t := mkOp("fieldAt", types.Typ[types.String], b, i)
					s.addStr(t, mkStr(""), false)
					s.write(a, t)
				}
			}
		case *ssa.Store:
			if !isFloat(in.Val.Type()) {
				return
			}
			a := s.norm(x.Val(in.Addr))
			if a.Kind != 'o' || a.Op != "indexaddr" {
				return
			}
			v := s.norm(x.Val(in.Val))
			if !(v.Kind == 'o' && v.Op == "number") {
				note("parsed", "%s is stored in the vector (%s)", v, x.Pos())
				return
			}
			i, ok := fieldAt(s, v.Args[0])
			if !ok {
				note("parsed", "%s is parsed, which is not a field of the line (%s)", v.Args[0], x.Pos())
				return
			}
			j := s.norm(a.Args[1])
			if !s.equal(i, mkLin(linOf(j).plus(lin{c: 1}, 1))) {
				note("parsed", "element %s of the vector is field %s (%s)", j, i, x.Pos())
			}
			key := strings.TrimPrefix(parsed.record(x, j), "visit ")
			s.auto["used "+key] = "y"
			if vecOf[a.Args[0]] == nil {
				vecOf[a.Args[0]] = map[string]bool{}
			}
			vecOf[a.Args[0]][key] = true
			vecLen[a.Args[0]] = s.norm(s.lenOf(a.Args[0]))
		}
	}
	blank := func(s *State) bool {
		for t, b := range s.bools {
			if b && t.Kind == 'o' && t.Op == "blankLine" {
				return true
			}
		}
		for t, m := range s.strs {
			_ = m
			if lineTerm(t) && s.strEq(t, mkStr("")) == 1 {
				return true
			}
		}
		return false
	}
	c.Next = func(x *Ctx, from, to *ssa.BasicBlock) {
		parsed.next(x, from, to)
		s := x.S
		for _, t := range fieldTerms(s) {
			if s.atMost(mkLen(t), 1) {
				s.auto["short"] = "y"
			}
		}
		if scanB == nil || x.F != scanF {
			return
		}
		body := naturalLoop(scanB)
		if body[from] && to == scanB {
			if s.auto["kept"] == "" && !blank(s) && s.auto["line"] != "" {
				note("kept", "a line can be left out (%s)", p.posOf(from.Instrs[len(from.Instrs)-1]))
			}
			if s.auto["kept"] == "y" {
				// the longer list is kept
				kept := false
				for l, tag := range s.tags {
					if tag == "list" {
						for _, a := range sortedMem(s) {
							kept = kept || s.norm(s.mem[a]) == s.norm(l)
						}
						for _, in := range to.Instrs {
							if q, ok := in.(*ssa.Phi); ok && s.norm(x.Val(q.Edges[predIndex(to, from)])) == s.norm(l) {
								kept = true
							}
						}
					}
				}
				if !kept {
					note("kept", "the extended list is not kept (%s)", p.posOf(from.Instrs[len(from.Instrs)-1]))
				}
			}
			delete(s.auto, "line")
			delete(s.auto, "kept")
			delete(s.auto, "short")
		}
	}
	nOK := 0
	c.Exit = func(x *Ctx, res []*Term) {
		s := x.S
		if len(res) != 2 {
			return
		}
		er := s.norm(res[1])
		if s.nilOf(er) == 1 {
			nOK++
			return
		}
		cause := er
		for cause.Kind == 'o' && cause.Op == "errwrap" {
			cause = s.norm(cause.Args[0])
		}
		if cause.Kind == 'o' && (cause.Op == "numErr" || cause.Op == "scanErr") {
			return
		}
		if s.nilOf(er) == -1 && er.Kind == 'l' {
			// an error that may be nil
			note("accepted", "%s may be returned (%s)", er, x.Pos())
			return
		}
		// a line with fewer than two fields
		if s.auto["short"] != "" {
			return
		}
		note("accepted", "a line that Save wrote can be refused (%s)", errPlace(p, er, x))
	}
	e := e0(newEngine(p, c), fn)
	e.Run(e.Root, newState())
	e.reset()
	bad = map[string]string{}
	okExit := parsed.okExit
	parsed = newVisits("value")
	parsed.okExit = okExit
	scans, appends, splits, nOK = 0, 0, 0, 0
	e.Run(e.Root, newState())
	r.absorb(e, site)
	parsed.settle(e)
	if scans == 0 {
		note("any-length", "no scanner reads the lines")
		note("kept", "no scanner reads the lines")
	}
	if appends == 0 {
		note("kept", "no entry is added")
	}
	if splits == 0 {
		note("fields", "the lines are not split")
	}
	if nOK == 0 {
		note("accepted", "Load never succeeds")
	}
	if len(parsed.order) != 1 {
		note("parsed", "%d loops parse the values", len(parsed.order))
	}
	for _, k := range parsed.order {
		v := parsed.m[k]
		if v.undec != "" {
			note("parsed", "%s", v.undec)
			continue
		}
		for vec, ks := range vecOf {
			if !ks[k] {
				continue
			}
			good := false
			for _, c := range v.dom {
				for _, a := range c.f.at {
					if a.Kind == 'o' && a.Op == "len" && a.Args[0].Kind == 'o' && a.Args[0].Op == "fields" {
						hi := linOf(a).plus(lin{c: 1}, -1)
						good = good || v.is(parsed.interval(0, hi)) && mkLin(hi) == mkLin(linOf(vecLen[vec]))
					}
				}
			}
			if !good {
				note("parsed", "the elements {%s} are parsed, the vector has %s", v.dom, vecLen[vec])
			}
		}
	}
	for _, rule := range []string{"any-length", "kept", "fields", "parsed", "accepted"} {
		r.must(bad[rule] == "", rule, site, "%s", bad[rule])
	}
}

// appendRule: an entry is added to the list.
func appendRule(x *Ctx, k *Call, note func(rule, f string, args ...interface{}), vecOf map[*Term]map[string]bool, scanF *Frame, scanB *ssa.BasicBlock) {
	s := x.S
	el := elements(s, k.Args[1])
	if len(el) != 1 || el[0] == nil {
		note("kept", "what is added to the list is not understood (%s)", x.Pos())
		return
	}
	if s.auto["kept"] != "" {
		note("kept", "a line can be added twice (%s)", x.Pos())
	}
	s.auto["kept"] = "y"
	base := s.norm(k.Args[0])
	if v := varOfAny(s, base); v == "" {
		note("kept", "the list that is extended is %s (%s)", base, x.Pos())
	}
	v := el[0]
	t := k.Com.Args[0].Type().Underlying().(*types.Slice).Elem()
	get := func(f string) *Term {
		if q := fieldValue(v, t, f); q != nil {
			return s.norm(q)
		}
		return nil
	}
	w, vec, dim := get("Word"), get("Vector"), get("Dim")
	if w == nil || !(w.Kind == 'o' && w.Op == "fieldAt") || !s.equal(w.Args[1], mkInt(0)) {
		note("fields", "the word is %s (%s)", w, x.Pos())
	}
	if vec == nil || vecOf[vec] == nil {
		note("fields", "the vector is %s, which the values are not parsed into (%s)", vec, x.Pos())
	} else if dim == nil || !s.equal(dim, s.lenOf(vec)) {
		note("fields", "the dimension is %s (%s)", dim, x.Pos())
	}
}

// varOfAny names the variable that a list is the content of.
func varOfAny(s *State, v *Term) string {
	if v.Kind == 'l' {
		if _, ok := v.Val.(*ssa.Phi); ok || v.Op == "memval" {
			return fmt.Sprint("v", v.id)
		}
	}
	for _, a := range sortedMem(s) {
		if s.norm(s.mem[a]) == v {
			return fmt.Sprint("c", a.id)
		}
	}
	return ""
}

// fieldTerms lists the split lines that something is known about.
func fieldTerms(s *State) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, f := range s.lins {
		for _, a := range f.f.at {
			if a.Kind == 'o' && a.Op == "len" && a.Args[0].Kind == 'o' && a.Args[0].Op == "fields" && !seen[a.Args[0]] {
				seen[a.Args[0]] = true
				out = append(out, a.Args[0])
			}
		}
	}
	return out
}

func errPlace(p *Prog, er *Term, x *Ctx) string {
	if in, ok := er.Val.(ssa.Instruction); ok {
		return p.posOf(in)
	}
	return x.Pos()
}
