package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C07",
		Technique: "abstract interpretation of both corpora from their constructors, with lower-casing on and off: the provenance of every word that reaches the dictionary, over go/ssa",
		Explanation: "Load and BatchWords of each corpus are analysed twice, from the state that New leaves when its lower-casing argument is true and when it is false. Every word that is handed to the dictionary must then be a lower-cased word of the text, or the word of the text itself; " +
			"words that are kept in between are traced too. No other function hands words to the dictionary, and the argument of New is the lower-casing hyperparameter of the model.",
		Run: runC07,
	})
}

func runC07(r *Rep) {
	r.rule("lower-cased", 3, "with lower-casing every word is lower-cased before it reaches the dictionary")
	r.rule("unaltered", 3, "without it no word is altered")
	r.rule("wired", 4, "New gets the hyperparameter of the model")
	r.rule("everywhere", 4, "no other code hands words to the dictionary")
	p := r.P
	dic := p.namedType("pkg/corpus/dictionary", "Dictionary")
	if dic == nil {
		r.bad("entry-points", "dictionary", "Dictionary is not found")
		return
	}
	wordMethod := func(f *ssa.Function) bool {
		if f == nil || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != dic {
			return false
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if hasString(f.Signature.Params().At(i).Type()) {
				return true
			}
		}
		return false
	}
	done := map[*ssa.Function]bool{}
	for _, c := range p.corpora(r) {
		var flag *ssa.Parameter
		pos := -1
		for i, q := range c.New.Params {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				if flag != nil {
					r.bad("wired", c.Pkg, "New has two switches")
				}
				flag, pos = q, i
			}
		}
		if flag == nil {
			r.bad("wired", c.Pkg, "New has no switch for lower-casing")
			continue
		}
		fields, others := p.argFields(flag)
		r.must(fields["ToLower"] > 0 && len(fields) == 1, "wired", c.Pkg+" New", "lower-casing is set to %v", fields)
		r.must(len(others) == 0, "wired", c.Pkg+" New other", "lower-casing is not set from the hyperparameter in some call")
		for _, on := range []bool{true, false} {
			rule := "unaltered"
			if on {
				rule = "lower-cased"
			}
			args := make([]*Term, len(c.New.Params))
			args[pos] = mkBool(on)
			for _, k := range c.make(r, args) {
				for _, m := range []*ssa.Function{c.load, c.bw, c.idoc} {
					n := 0
					site := fmt.Sprintf("%s.%s", c.Pkg, m.Name())
					bad := ""
					words := func(x *Ctx, t *Term) {
						t = x.S.norm(t)
						lowered := false
						for t.Kind == 'o' && t.Op == "call:strings.ToLower" {
							lowered = true
							t = x.S.norm(t.Args[0])
						}
						n++
						switch {
						case bad != "":
						case !rawWord(t):
							bad = fmt.Sprintf("%s is not a word as it was read (%s)", t, x.Pos())
						case on && !lowered:
							bad = fmt.Sprintf("a word is used as it was read (%s)", x.Pos())
						case !on && lowered:
							bad = fmt.Sprintf("a word is lower-cased (%s)", x.Pos())
						}
					}
					cl := &Client{
						Inline: func(k *Call) bool {
							if k.Fn != nil && k.Fn.Pkg != nil {
								done[k.Fn] = true
							}
							return k.Fn != nil && p.inRepo(k.Fn) && (k.Fn.Signature.Recv() == nil || namedOf(k.Fn.Signature.Recv().Type()) != dic)
						},
						Once: func(*Frame, *ssa.BasicBlock) bool { return true },
						Call: func(x *Ctx, k *Call) (bool, *Term) {
							if isVerboseDo(k.Name) {
								return true, nil
							}
							if wordMethod(k.Fn) {
								for i, a := range k.Args[1:] {
									t := k.Fn.Signature.Params().At(i).Type()
									if isString(t) {
										words(x, a)
									} else if hasString(t) {
										el := elements(x.S, a)
										if len(el) == 0 && bad == "" {
											bad = fmt.Sprintf("the words that are added are not known (%s)", x.Pos())
										}
										for _, w := range el {
											if w == nil {
												bad = fmt.Sprintf("the words that are added are not known (%s)", x.Pos())
												continue
											}
											words(x, w)
										}
									}
								}
							}
							if k.Name == "builtin.append" {
								if sl, ok := k.Com.Args[0].Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
									el := elements(x.S, k.Args[1])
									if el == nil && bad == "" {
										bad = fmt.Sprintf("the words that are kept are not known (%s)", x.Pos())
									}
									for _, w := range el {
										if w != nil && !rawWord(x.S.norm(w)) && bad == "" {
											bad = fmt.Sprintf("%s is kept, which is not a word as it was read (%s)", w, x.Pos())
										}
									}
								}
							}
							return false, nil
						},
						Instr: func(x *Ctx) {
							st, ok := x.I.(*ssa.Store)
							if !ok || !isString(st.Val.Type()) || bad != "" {
								return
							}
							a := x.S.norm(x.Val(st.Addr))
							if a.Kind == 'o' && a.Op == "indexaddr" {
								if r := addrRoot(a); r.Kind == 'l' {
									if _, isAlloc := r.Val.(*ssa.Alloc); isAlloc {
										return // the arguments of a call
									}
								}
								if !rawWord(x.S.norm(x.Val(st.Val))) {
									bad = fmt.Sprintf("%s is kept, which is not a word as it was read (%s)", x.Val(st.Val), x.Pos())
								}
							}
						},
					}
					p.follow(r, m, []*Term{k.Recv}, nil, k.S, cl, false, site)
					done[m] = true
					for f := range r.fns {
						done[f] = true
					}
					if n > 0 || bad != "" {
						r.must(bad == "", rule, site, "%s", bad)
					} else if m == c.load {
						r.bad(rule, site, "no word reaches the dictionary")
					}
				}
			}
		}
	}
	// no other code
	for _, f := range p.Funcs {
		if !p.inRepo(f) || namedOfRecv(f) == dic {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !wordMethod(c.Common().StaticCallee()) {
					continue
				}
				pk := short(pkgOf(f).Path())
				if !strings.HasPrefix(pk, "pkg/") {
					continue
				}
				r.must(r.fns[f], "everywhere", fnName(f)+" "+c.Common().StaticCallee().Name(), "words are handed to the dictionary here too (%s)", p.posOf(in))
			}
		}
	}
}

func namedOfRecv(f *ssa.Function) *types.Named {
	if f.Signature.Recv() == nil {
		return nil
	}
	return namedOf(f.Signature.Recv().Type())
}

func hasString(t types.Type) bool {
	if isString(t) {
		return true
	}
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isString(sl.Elem())
}

// rawWord: what a scanner gave, or an element of a list of words.
func rawWord(t *Term) bool {
	if t.Kind != 'l' {
		return false
	}
	switch v := t.Val.(type) {
	case *ssa.Call:
		f := v.Call.StaticCallee()
		return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "bufio" && f.Name() == "Text"
	case *ssa.UnOp:
		_, ok := v.X.(*ssa.IndexAddr)
		return ok && v.Op == token.MUL
	}
	return t.Op == "memval" && t.Args[0].Kind == 'o' && t.Args[0].Op == "indexaddr"
}
