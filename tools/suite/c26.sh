
W=pkg/model/word2vec/word2vec.go; O=pkg/model/word2vec/optimizer.go; MO=pkg/model/word2vec/model.go; G=pkg/model/glove/glove.go; L=pkg/model/lexvec/lexvec.go; S=pkg/model/glove/solver.go; SS=pkg/model/modelutil/subsample/subsample.go; H=pkg/corpus/dictionary/huffman.go
echo MUT
$MUT C26 $G 'g.solver.trainOne(item.l1, item.l2+dic.Len(),' 'g.solver.trainOne(item.l1, item.l2,'
$MUT C26 $G 'g.solver.trainOne(item.l1+dic.Len(), item.l2,' 'g.solver.trainOne(item.l1+dic.Len(), item.l2+dic.Len(),'
$MUT C26 $G 'item.l2+dic.Len()' 'item.l2+dic.Len()+1'
$MUT C26 $L 'l.update(doc[pos], doc[c]+dic.Len(),' 'l.update(doc[pos], doc[c],'
$MUT C26 $L 'l.update(doc[pos], sample+dic.Len(), items[enc])' 'l.update(doc[pos], sample, items[enc])'
$MUT C26 $L 'modelutil.NextRandom(dic.Len())' 'modelutil.NextRandom(l.param.Row())'
$MUT C26 $L 'dic.Len()*2' 'dic.Len()'
$MUT C26 $G 'dic.Len()*2' 'dic.Len()+1'
$MUT C26 $S 'dic.Len()*2' 'dic.Len()'
$MUT C26 $S 'g1, g2 := sol.gradsq.Slice(l1), sol.gradsq.Slice(l2)' 'g1, g2 := sol.gradsq.Slice(l2), sol.gradsq.Slice(l1)'
$MUT C26 $S 'g1[i] += t1 * t1\n\t\tg2[i] += t2 * t2' 'g1[i] += t2 * t2\n\t\tg2[i] += t1 * t1'
$MUT C26 $S 't2 /= math.Sqrt(g2[i])' 't2 /= math.Sqrt(g1[i])'
$MUT C26 $O 'modelutil.NextRandom(opt.ctx.Row())' 'modelutil.NextRandom(opt.ctx.Row()+1)'
$MUT C26 $O 'modelutil.NextRandom(opt.ctx.Row())' 'modelutil.NextRandom(opt.ctx.Col())'
$MUT C26 $MO 'ctxID := doc[c]' 'ctxID := c'
$MUT C26 $MO 'optimizer.optim(doc[pos], lr, ctx, tmp)' 'optimizer.optim(pos, lr, ctx, tmp)'
$MUT C26 $W 'w.subsampler.Trial(id)' 'w.subsampler.Trial(pos)'
$MUT C26 $SS 'make([]float64, dic.Len())' 'make([]float64, dic.Len()-1)'
$MUT C26 pkg/corpus/fs/fs.go 'ids[cursor] = id' 'ids[cursor] = c.maxLen'
$MUT C26 pkg/model/glove/item.go 'l1, l2 := int(u1), int(u2)' 'l1, l2 := int(u1), int(u2)+1'
$MUT C26 pkg/corpus/memory/memory.go 'c.idoc = append(c.idoc, id)' 'c.idoc = append(c.idoc, c.maxLen)'
$MUT C26 $G 'vec[i] = g.param.Slice(row)[i] + g.param.Slice(row + dic.Len())[i]' 'vec[i] = g.param.Slice(row)[i] + g.param.Slice(row + dic.Len()-1)[i]'
$MUT C26 $H 'make(Nodes, dic.Len())' 'make(Nodes, dic.Len()-1)' 
echo REF
$MUT C26 $G 'dic := g.corpus.Dictionary()\n\tfor _, item := range items {' 'n := g.corpus.Dictionary().Len()\n\tfor _, item := range items {' $G 'item.l2+dic.Len()' 'item.l2+n' $G 'item.l1+dic.Len()' 'n+item.l1'
$MUT C26 $L 'l.update(doc[pos], doc[c]+dic.Len(), items[enc])' 'l.pair(doc[pos], doc[c], items[enc])' $L 'func (l *lexvec) update(' 'func (l *lexvec) pair(a, b int, f float64) {\n\tl.update(a, b+l.corpus.Dictionary().Len(), f)\n}\n\nfunc (l *lexvec) update('
$MUT C26 $L '\tdiff = (diff - f) * l' '\tv1, v2 := l.param.Slice(l1), l.param.Slice(l2)\n\tdiff = (diff - f) * l' $L 't1 := diff * l.param.Slice(l2)[i]\n\t\tt2 := diff * l.param.Slice(l1)[i]\n\t\tl.param.Slice(l1)[i] -= t1\n\t\tl.param.Slice(l2)[i] -= t2' 't1 := diff * v2[i]\n\t\tt2 := diff * v1[i]\n\t\tv1[i] -= t1\n\t\tv2[i] -= t2'
$MUT C26 $S 'for i := 0; i < dim; i++ {\n\t\tdiff += v1[i] * v2[i]\n\t}' 'for i, x := range v1[:dim] {\n\t\tdiff += x * v2[i]\n\t}'
$MUT C26 $S '	for i := 0; i < dim; i++ {\n\t\tdiff += v1[i] * v2[i]\n\t}\n\tdiff += v1[dim]' '	diff = dot(v1[:dim], v2[:dim])\n\tdiff += v1[dim]' $S 'type adaGrad struct' 'func dot(a, b []float64) float64 {\n\tvar s float64\n\tfor i := range a {\n\t\ts += a[i] * b[i]\n\t}\n\treturn s\n}\n\ntype adaGrad struct'
$MUT C26 $MO 'ctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn' 'ctx := param.Slice(doc[c])\n\t\tfn'
$MUT C26 $O 'modelutil.NextRandom(opt.ctx.Row())' 'opt.sample()' $O 'func (opt *negativeSampling) optim' 'func (opt *negativeSampling) sample() int {\n\treturn modelutil.NextRandom(opt.ctx.Row())\n}\n\nfunc (opt *negativeSampling) optim'
$MUT C26 $G 'for _, item := range items {' 'for i := 0; i < len(items); i++ {\n\t\titem := items[i]'
$MUT C26 $W 'for pos, id := range doc {\n\t\tif w.subsampler.Trial(id) {' 'for pos := 0; pos < len(doc); pos++ {\n\t\tid := doc[pos]\n\t\tif w.subsampler.Trial(id) {'
