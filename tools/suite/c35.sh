m() { echo "MUT $1 $2 $3"; $MUT C35 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C35 "$@"; }
L=pkg/model/lexvec/lexvec.go; I=pkg/model/lexvec/item.go
m $I 'if ppmi < 0 {' 'if ppmi < 1 {'
m $I 'if ppmi < 0 {\n\t\t\tppmi = 0\n\t\t}\n' ''
m $I 'pmi := math.Log(co) - math.Log(float64(dic.IDFreq(l1))) - math.Log(math.Pow(float64(dic.IDFreq(l2)), l.opts.Smooth)) + logTotalFreq\n\t\treturn' 'pmi := math.Log(co) - math.Log(float64(dic.IDFreq(l1))) - math.Log(math.Pow(float64(dic.IDFreq(l1)), l.opts.Smooth)) + logTotalFreq\n\t\treturn'
m $I 'pmi := math.Log(co) - math.Log(float64(dic.IDFreq(l1))) - math.Log(math.Pow(float64(dic.IDFreq(l2)), l.opts.Smooth)) + logTotalFreq\n\t\treturn' 'pmi := math.Log(co) - math.Log(float64(dic.IDFreq(l1))) - math.Log(float64(dic.IDFreq(l2))) + logTotalFreq\n\t\treturn'
m $I 'pmi := math.Log(co) - math.Log(float64(dic.IDFreq(l1))) - math.Log(math.Pow(float64(dic.IDFreq(l2)), l.opts.Smooth)) + logTotalFreq\n\t\treturn' 'pmi := math.Log(co) - math.Log(float64(dic.IDFreq(l1))) - math.Log(math.Pow(float64(dic.IDFreq(l2)), l.opts.Smooth)) - logTotalFreq\n\t\treturn'
m $I 'logTotalFreq := math.Log(math.Pow(float64(l.corpus.Len()), l.opts.Smooth))' 'logTotalFreq := math.Log(math.Pow(float64(l.corpus.Dictionary().Len()), l.opts.Smooth))'
m $I 'logTotalFreq := math.Log(math.Pow(float64(l.corpus.Len()), l.opts.Smooth))' 'logTotalFreq := math.Log(float64(l.corpus.Len()))'
m $I 'case LogCollocation:\n\t\treturn math.Log(co), nil' 'case LogCollocation:\n\t\treturn math.Log1p(co), nil'
m $I 'case LogCollocation:\n\t\treturn math.Log(co), nil' 'case LogCollocation:\n\t\treturn math.Log2(co), nil'
m $I 'case Collocation:\n\t\treturn co, nil' 'case Collocation:\n\t\treturn co / float64(l.corpus.Len()), nil'
r $I 'res[enc] = v\n' 'if v != 0 {\n\t\t\tres[enc] = v\n\t\t}\n'
m $I 'res[enc] = v\n' 'res[enc+0*uint64(l1)+1] = v\n'
m $I 'if co == 0 {\n\t\t\treturn 0, nil' 'if co <= 1 {\n\t\t\treturn 0, nil'
m $I 'if co == 0 {\n\t\t\treturn 1, nil' 'if co <= 1 {\n\t\t\treturn 1, nil'
m $L 't2 := diff * l.param.Slice(l1)[i]\n\t\tl.param.Slice(l1)[i] -= t1\n' 'l.param.Slice(l1)[i] -= t1\n\t\tt2 := diff * l.param.Slice(l1)[i]\n'
m $L 'diff = (diff - f) * l' 'diff = (diff + f) * l'
m $L 'diff = (diff - f) * l' 'diff = diff - f*l'
m $L 'diff = (diff - f) * l.currentlr.Load().(float64)' 'diff = (diff - f) * l.opts.Initlr'
m $L 'l.param.Slice(l2)[i] -= t2' 'l.param.Slice(l2)[i] += t2'
m $L '\t\tl.param.Slice(l2)[i] -= t2\n' '\t\tl.param.Slice(l2)[i] -= 0 * t2\n'
m $L 'for i := 0; i < l.opts.Dim; i++ {\n\t\tt1' 'for i := 1; i < l.opts.Dim; i++ {\n\t\tt1'
m $L 'for i := 0; i < l.opts.Dim; i++ {\n\t\tdiff' 'for i := 0; i < l.opts.Dim-1; i++ {\n\t\tdiff'
m $L 'sample := modelutil.NextRandom(dic.Len())\n\t\t\tenc := encode.EncodeBigram(uint64(doc[pos]), uint64(sample))' 'sample := modelutil.NextRandom(dic.Len())\n\t\t\tenc := encode.EncodeBigram(uint64(doc[c]), uint64(sample))'
m $L 'enc := encode.EncodeBigram(uint64(doc[pos]), uint64(sample))\n\t\t\tl.update(doc[pos]' '_ = sample\n\t\t\tl.update(doc[pos]'
m $L 'sample := modelutil.NextRandom(dic.Len())' 'sample := modelutil.NextRandom(dic.Len() / 2)'
m $L 'for n := 0; n < l.opts.NegativeSampleSize; n++ {' 'for n := 1; n < l.opts.NegativeSampleSize; n++ {'
m $L 'for n := 0; n < l.opts.NegativeSampleSize; n++ {\n\t\t\tsample := modelutil.NextRandom(dic.Len())' 'sample := modelutil.NextRandom(dic.Len())\n\t\tfor n := 0; n < l.opts.NegativeSampleSize; n++ {'
m $L 'l.update(doc[pos], sample+dic.Len(), items[enc])' 'l.update(doc[pos], sample, items[enc])'
m $L 'l.update(doc[pos], sample+dic.Len(), items[enc])' 'l.update(sample, doc[pos]+dic.Len(), items[enc])'
m $L 'l.update(doc[pos], sample+dic.Len(), items[enc])' 'if v, ok := items[enc]; ok {\n\t\t\t\tl.update(doc[pos], sample+dic.Len(), v)\n\t\t\t}'
m $L 'l.update(doc[pos], sample+dic.Len(), items[enc])' 'l.update(doc[pos], sample+dic.Len(), 0*items[enc])'
m $L 'l.update(doc[pos], doc[c]+dic.Len(), items[enc])' 'l.update(doc[pos], doc[c]+dic.Len(), 0*items[enc]+1)'
r $L 'var diff float64\n\tfor i := 0; i < l.opts.Dim; i++ {\n\t\tdiff += l.param.Slice(l1)[i] * l.param.Slice(l2)[i]\n\t}\n\tdiff = (diff - f) * l.currentlr.Load().(float64)\n\tfor i := 0; i < l.opts.Dim; i++ {\n\t\tt1 := diff * l.param.Slice(l2)[i]\n\t\tt2 := diff * l.param.Slice(l1)[i]\n\t\tl.param.Slice(l1)[i] -= t1\n\t\tl.param.Slice(l2)[i] -= t2' 'v1, v2 := l.param.Slice(l1), l.param.Slice(l2)\n\tdiff := -f\n\tfor i := range v1 {\n\t\tdiff += v1[i] * v2[i]\n\t}\n\tlr := l.currentlr.Load().(float64)\n\tfor i := range v1 {\n\t\ta, b := v1[i], v2[i]\n\t\tv1[i] = a - lr*diff*b\n\t\tv2[i] = b - lr*diff*a'
r $L 'var diff float64\n\tfor i := 0; i < l.opts.Dim; i++ {\n\t\tdiff += l.param.Slice(l1)[i] * l.param.Slice(l2)[i]\n\t}\n\tdiff = (diff - f)' 'diff := l.inner(l1, l2)\n\tdiff = (diff - f)' $L 'func (l *lexvec) observe' 'func (l *lexvec) inner(l1, l2 int) (s float64) {\n\tfor i := 0; i < l.opts.Dim; i++ {\n\t\ts += l.param.Slice(l1)[i] * l.param.Slice(l2)[i]\n\t}\n\treturn\n}\n\nfunc (l *lexvec) observe'
r $L 'l.update(doc[pos], doc[c]+dic.Len(), items[enc])\n\t\tfor n := 0; n < l.opts.NegativeSampleSize; n++ {\n\t\t\tsample := modelutil.NextRandom(dic.Len())\n\t\t\tenc := encode.EncodeBigram(uint64(doc[pos]), uint64(sample))\n\t\t\tl.update(doc[pos], sample+dic.Len(), items[enc])\n\t\t}\n' 'l.update(doc[pos], doc[c]+dic.Len(), items[enc])\n\t\tl.negatives(doc[pos], items)\n' $L 'func (l *lexvec) update' 'func (l *lexvec) negatives(id int, items map[uint64]float64) {\n\tv := l.corpus.Dictionary().Len()\n\tfor n := l.opts.NegativeSampleSize; n > 0; n-- {\n\t\tsample := modelutil.NextRandom(v)\n\t\tl.update(id, v+sample, items[encode.EncodeBigram(uint64(sample), uint64(id))])\n\t}\n}\n\nfunc (l *lexvec) update'
r $L 'l.update(doc[pos], doc[c]+dic.Len(), items[enc])\n' 'measure := items[enc]\n\t\tl.update(doc[pos], doc[c]+dic.Len(), measure)\n'
r $L 'for a := del; a < l.opts.Window*2+1-del; a++ {\n\t\tif a == l.opts.Window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - l.opts.Window + a\n\t\tif c < 0 || c >= len(doc) {' 'for c := pos - l.opts.Window + del; c <= pos+l.opts.Window-del; c++ {\n\t\tif c == pos || c < 0 || c >= len(doc) {'
r $I 'ppmi := math.Log(co) - math.Log(float64(dic.IDFreq(l1))) - math.Log(math.Pow(float64(dic.IDFreq(l2)), l.opts.Smooth)) + logTotalFreq\n\t\tif ppmi < 0 {\n\t\t\tppmi = 0\n\t\t}\n\t\treturn ppmi, nil' 'return math.Max(l.pmi(l1, l2, co, logTotalFreq), 0), nil' $I 'func (l *lexvec) calc' 'func (l *lexvec) pmi(l1, l2 int, co, total float64) float64 {\n\tdic := l.corpus.Dictionary()\n\tf1, f2 := float64(dic.IDFreq(l1)), float64(dic.IDFreq(l2))\n\treturn math.Log(co/f1) + total - l.opts.Smooth*math.Log(f2)\n}\n\nfunc (l *lexvec) calc'
r $I 'ppmi := math.Log(co)' 'ppmi := math.Log(1*co)'
r $I 'math.Log(math.Pow(float64(l.corpus.Len()), l.opts.Smooth))' 'l.opts.Smooth * math.Log(float64(l.corpus.Len()))'
r $I 'v, err := l.calculateRelation(\n\t\t\tl.opts.RelationType,\n\t\t\tl1, l2,\n\t\t\tf, logTotalFreq,\n\t\t)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tres[enc] = v' 'if err := l.put(res, enc, l1, l2, f, logTotalFreq); err != nil {\n\t\t\treturn nil, err\n\t\t}' $I 'func (l *lexvec) calc' 'func (l *lexvec) put(res map[uint64]float64, enc uint64, l1, l2 int, f, total float64) error {\n\tv, err := l.calculateRelation(l.opts.RelationType, l1, l2, f, total)\n\tif err == nil {\n\t\tres[enc] = v\n\t}\n\treturn err\n}\n\nfunc (l *lexvec) calc'
r $I 'if co == 0 {\n\t\t\treturn 1, nil\n\t\t}\n\t\tpmi' 'pmi'
m $I 'res[enc] = v\n' 'if v > 0 {\n\t\t\tres[enc] = v\n\t\t}\n'
