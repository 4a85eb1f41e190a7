MO=pkg/model/word2vec/model.go; LX=pkg/model/lexvec/lexvec.go

UP='mod.dowith(doc, pos, del, param, agg, tmp, mod.update)'
AG='mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)'
echo MUT
$MUT C23 $MO "$UP" 'mod.dowith(doc, pos, modelutil.NextRandom(mod.window), param, agg, tmp, mod.update)'
$MUT C23 $MO "$UP" 'mod.dowith(doc, pos, 0, param, agg, tmp, mod.update)'
$MUT C23 $MO "$UP" "if del > 0 {\n\t\tmod.dowith(doc, pos, del-1, param, agg, tmp, mod.update)\n\t} else {\n\t\t$UP\n\t}"
$MUT C23 $MO "if a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn" "c := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn"
$MUT C23 $MO "if a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor" "c := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor"
$MUT C23 $MO "if c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn" "if c < 0 || c >= len(doc) {\n\t\t\tbreak\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn"
$MUT C23 $MO "ctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn" "if doc[c] == doc[pos] {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn"
$MUT C23 $MO "func (mod *cbow) dowith" "func (mod *cbow) upd(doc []int, pos, del int, param *matrix.Matrix, agg, tmp []float64) {\n\tfor a := del; a < mod.window*2-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tmod.update(param.Slice(doc[c]), agg, tmp)\n\t}\n}\n\nfunc (mod *cbow) dowith" $MO "$UP" 'mod.upd(doc, pos, del, param, agg, tmp)'
$MUT C23 $MO "func (mod *cbow) dowith" "func (mod *cbow) upd(doc []int, pos, del int, param *matrix.Matrix, agg, tmp []float64) {\n\tfor c := pos - mod.window + del; c <= pos+mod.window-del; c++ {\n\t\tif c <= 0 || c >= len(doc) || c == pos {\n\t\t\tcontinue\n\t\t}\n\t\tmod.update(param.Slice(doc[c]), agg, tmp)\n\t}\n}\n\nfunc (mod *cbow) dowith" $MO "$UP" 'mod.upd(doc, pos, del, param, agg, tmp)'
$MUT C23 $LX "if a == l.opts.Window {\n\t\t\tcontinue\n\t\t}\n" ""
$MUT C23 $LX "	del := modelutil.NextRandom(l.opts.Window)\n	for a := del; a < l.opts.Window*2+1-del; a++ {\n" "	for a := modelutil.NextRandom(l.opts.Window); a < l.opts.Window*2+1-modelutil.NextRandom(l.opts.Window); a++ {\n"
$MUT C23 $MO "$UP" "if len(doc) > mod.window {\n\t\t$UP\n\t}"
$MUT C23 $MO "mod.dowith(doc, pos, del, param, agg, tmp, mod.update)" "mod.dowith(doc[:pos+1], pos, del, param, agg, tmp, mod.update)"
echo REF
$MUT C23 $MO "func (mod *cbow) dowith" "func (mod *cbow) upd(doc []int, pos, del int, param *matrix.Matrix, agg, tmp []float64) {\n\tfor c := pos - mod.window + del; c <= pos+mod.window-del; c++ {\n\t\tif c < 0 || c >= len(doc) || c == pos {\n\t\t\tcontinue\n\t\t}\n\t\tmod.update(param.Slice(doc[c]), agg, tmp)\n\t}\n}\n\nfunc (mod *cbow) dowith" $MO "$UP" 'mod.upd(doc, pos, del, param, agg, tmp)'
$MUT C23 $MO "for a := del; a < mod.window*2+1-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn(ctx, agg, tmp)" "r := mod.window - del\n\tfor c := pos + r; c >= pos-r; c-- {\n\t\tif c >= 0 && c < len(doc) && pos != c {\n\t\t\tfn(param.Slice(doc[c]), agg, tmp)\n\t\t}"
$MUT C23 $MO "if c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn" "if !within(c, doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn" $MO "type cbowToken" "func within(c int, doc []int) bool {\n\treturn c >= 0 && c < len(doc)\n}\n\ntype cbowToken"
$MUT C23 $MO "for a := del; a < mod.window*2+1-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn(ctx, agg, tmp)" "r := mod.window - del\n\tlo, hi := pos-r, pos+r\n\tif lo < 0 {\n\t\tlo = 0\n\t}\n\tif hi >= len(doc) {\n\t\thi = len(doc) - 1\n\t}\n\tfor c := lo; c <= hi; c++ {\n\t\tif c == pos {\n\t\t\tcontinue\n\t\t}\n\t\tfn(param.Slice(doc[c]), agg, tmp)"
$MUT C23 $LX "c := pos - l.opts.Window + a\n		if c < 0 || c >= len(doc) {\n			continue\n		}\n		enc" "c := pos - l.opts.Window + a\n		if !l.inside(doc, c) {\n			continue\n		}\n		enc" $LX "func (l *lexvec) update(" "func (l *lexvec) inside(doc []int, c int) bool {\n\treturn c >= 0 && c < len(doc)\n}\n\nfunc (l *lexvec) update("
$MUT C23 $MO "$AG" 'mod.dowith(doc, pos, del, param, agg, tmp, func(ctx, agg, _ []float64) {\n\t\tfor i := range ctx {\n\t\t\tagg[i] += ctx[i]\n\t\t}\n\t})'
$MUT C23 $MO "for a := del; a < mod.window*2+1-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn(ctx, agg, tmp)" "r := mod.window - del\n\tfor c := pos - r; c < pos; c++ {\n\t\tif c >= 0 {\n\t\t\tfn(param.Slice(doc[c]), agg, tmp)\n\t\t}\n\t}\n\tfor c := pos + 1; c <= pos+r && c < len(doc); c++ {\n\t\tfn(param.Slice(doc[c]), agg, tmp)"
