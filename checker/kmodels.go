package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	// a development aid: KDUMP=function wegocheck KDUMP prints what the function does
	if os.Getenv("KDUMP") == "" {
		return
	}
	register(&Check{ID: "KDUMP", Run: func(r *Rep) {
		want := os.Getenv("KDUMP")
		for _, f := range r.P.Funcs {
			if fnName(f) != want {
				continue
			}
			k := newKern(r.P)
			k.impl = func(c *ssa.CallCommon) []*ssa.Function { return nil }
			k.call = kModels(r.P)
			var args []*kx
			for _, p := range f.Params {
				args = append(args, mkx("p:"+p.Name()))
			}
			outs, ab := k.Run(f, args, nil)
			var b strings.Builder
			for _, o := range outs {
				o.dump(&b, "")
			}
			fmt.Println(ab, b.String())
		}
	}})
}

// kModels gives meaning to the calls that numeric code makes.
func kModels(p *Prog) func(k *kern, fr *kframe, s *kstate, in ssa.CallInstruction, fn *ssa.Function, name string, args []*kx) (*kx, bool) {
	return func(k *kern, fr *kframe, s *kstate, in ssa.CallInstruction, fn *ssa.Function, name string, args []*kx) (*kx, bool) {
		switch {
		case fn != nil && fn == p.method("pkg/model/modelutil/matrix", "Matrix", "Slice"):
			return mkx("row", args[0], args[1]), true
		case fn != nil && fn == p.method("pkg/model/modelutil/matrix", "Matrix", "Row"):
			return k.fix(mkx("rows", args[0])), true
		case fn != nil && fn == p.method("pkg/model/modelutil/matrix", "Matrix", "Col"):
			return k.fix(mkx("cols", args[0])), true
		case fn != nil && fn == p.method("pkg/corpus/dictionary", "Dictionary", "Len"):
			return mkx("V"), true
		case fn != nil && fn == p.method("pkg/corpus/dictionary", "Dictionary", "IDFreq"):
			return mkx("freq", args[1]), true
		case fn != nil && isDictionaryGetter(fn):
			return mkx("dictionary"), true
		case strings.HasSuffix(name, "corpus.Corpus).Dictionary"):
			return mkx("dictionary"), true
		case strings.HasSuffix(name, "corpus.Corpus).Len"):
			return mkx("words"), true
		case name == modPath+"/pkg/model/modelutil.NextRandom":
			r := k.freshAt(fr, in.(ssa.Value), "rnd")
			return mkx("random", r, args[0]), true
		case name == modPath+"/pkg/corpus/cooccurrence/encode.EncodeBigram":
			a, b := args[0], args[1]
			if a.key > b.key {
				a, b = b, a
			}
			return mkx("pair", a, b), true
		case name == modPath+"/pkg/corpus/cooccurrence/encode.DecodeBigram":
			return mkx("tuple", mkx("first", args[0]), mkx("second", args[0])), true
		}
		return nil, false
	}
}
