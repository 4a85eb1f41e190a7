m() { echo "MUT $1 $2 $3"; $MUT C36 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C36 "$@"; }
O=pkg/model/word2vec/optimizer.go; M=pkg/model/word2vec/model.go; S=pkg/model/word2vec/sigmoid_table.go; W=pkg/model/word2vec/word2vec.go
m $O 'label = 0' 'label = 1'
m $O 'for n := -1; n < opt.sampleSize; n++ {' 'for n := 0; n < opt.sampleSize; n++ {'
m $O 'for n := -1; n < opt.sampleSize; n++ {' 'for n := -1; n < opt.sampleSize-1; n++ {'
m $O 'if n == -1 {' 'if n <= 0 {'
m $O 'picked = modelutil.NextRandom(opt.ctx.Row())' 'picked = modelutil.NextRandom(opt.ctx.Row() - 1)'
m $O 'picked = modelutil.NextRandom(opt.ctx.Row())' 'picked = (id + n + 1 + 0*modelutil.NextRandom(2)) % opt.ctx.Row()'
m $O 'if id == picked {\n\t\t\t\tcontinue\n' 'if id == picked {\n\t\t\t\tbreak\n'
m $O 'if id == picked {' 'if id >= picked {'
m $O 'g = (float64(label - 0)) * lr' 'g = 0'
m $O 'g = (float64(label - 1)) * lr' 'g = (float64(label)) * lr'
m $O 'if inner <= -opt.sigtable.maxExp {' 'if inner <= opt.sigtable.maxExp {'
m $O 'if inner <= -opt.sigtable.maxExp {' 'if inner <= -1 {'
m $O 'g = (float64(label) - opt.sigtable.sigmoid(inner)) * lr' 'g = (float64(label) - opt.sigtable.sigmoid(-inner)) * lr'
m $O 'g = (float64(label) - opt.sigtable.sigmoid(inner)) * lr' 'g = (opt.sigtable.sigmoid(inner) - float64(label)) * lr'
m $O 'tmp[i] += g * rnd[i]\n\t\t\trnd[i] += g * ctx[i]' 'rnd[i] += g * ctx[i]\n\t\t\ttmp[i] += g * rnd[i]'
m $O 'tmp[i] += g * rnd[i]' 'tmp[i] = g * rnd[i]'
m $O 'rnd[i] += g * ctx[i]' 'rnd[i] += g * tmp[i]'
m $O 'rnd[i] += g * ctx[i]' 'rnd[i] += g * ctx[i]\n\t\t\tctx[i] += g'
m $O 'for i := 0; i < dim; i++ {\n\t\t\ttmp' 'for i := 1; i < dim; i++ {\n\t\t\ttmp'
m $O 'for i := 0; i < dim; i++ {\n\t\t\tinner' 'for i := 0; i < dim/2; i++ {\n\t\t\tinner'
m $O 'inner += rnd[i] * ctx[i]' 'inner += rnd[i] * tmp[i]'
m $O 'for i := 0; i < len(path)-1; i++ {' 'for i := 1; i < len(path)-1; i++ {'
m $O 'for i := 0; i < len(path)-1; i++ {' 'for i := 0; i < len(path)-2; i++ {'
m $O 'childCode := path[i+1].Code' 'childCode := path[i].Code'
m $O 'g := (1.0 - float64(childCode) - opt' 'g := (float64(childCode) - opt'
m $O 'path := opt.nodeset[id].GetPath(opt.maxDepth)' 'path := opt.nodeset[id].GetPath(0)'
m $O 'path := opt.nodeset[id].GetPath(opt.maxDepth)' 'path := opt.nodeset[0].GetPath(opt.maxDepth)'
m $O 'if inner <= -opt.sigtable.maxExp || inner >= opt.sigtable.maxExp {\n\t\t\treturn' 'if inner <= -opt.sigtable.maxExp || inner >= 1 {\n\t\t\treturn'
m $O 'tmp[j] += g * p.Vector[j]\n\t\t\tp.Vector[j] += g * ctx[j]' 'p.Vector[j] += g * ctx[j]\n\t\t\ttmp[j] += g * p.Vector[j]'
m $O 'tmp[j] += g * p.Vector[j]\n' ''
m $S 's.expTable[i] = expval / (expval + 1.)' 's.expTable[i] = 1 / (expval + 1.)'
m $S '*2. - 1.) * s.maxExp)' '*2. - 1.))'
m $S 's.cache = float64(s.expTableSize) / s.maxExp / 2.0' 's.cache = float64(s.expTableSize) / s.maxExp'
m $S 'i := int((x + s.maxExp) * s.cache)' 'i := int(x * s.cache)'
m $S 'if i < 0 {\n\t\ti = 0\n' 'if i < 0 {\n\t\ti = len(s.expTable) / 2\n'
m $S 'i = len(s.expTable) - 1' 'i = len(s.expTable) / 2'
m $S 's.maxExp = 6.0' 's.maxExp = 1.0'
m $S 's.expTableSize = 1000' 's.expTableSize = 10'
m $M 'ctx[i] += tmp[i]\n\t\t}\n\t}\n}' 'ctx[i] -= tmp[i]\n\t\t}\n\t}\n}'
m $M 'for i := 0; i < len(ctx); i++ {\n\t\t\tctx[i] += tmp[i]' 'for i := 0; i < len(ctx)-1; i++ {\n\t\t\tctx[i] += tmp[i]'
m $M 'optimizer.optim(doc[pos], lr, ctx, tmp)\n\t\tfor i := 0; i < len(ctx); i++ {\n\t\t\tctx[i] += tmp[i]\n\t\t}' 'optimizer.optim(doc[pos], lr, ctx, tmp)\n\t\tctx = param.Slice(doc[pos])\n\t\tfor i := 0; i < len(ctx); i++ {\n\t\t\tctx[i] += tmp[i]\n\t\t}'
m $M 'optimizer.optim(doc[pos], lr, ctx, tmp)' 'optimizer.optim(ctxID, lr, ctx, tmp)'
m $M 'ctx := param.Slice(ctxID)\n\t\toptimizer.optim(doc[pos]' 'ctx := param.Slice(doc[pos])\n\t\toptimizer.optim(ctxID'
m $M 'optimizer.optim(doc[pos], lr, ctx, tmp)\n\t\tfor' 'optimizer.optim(doc[pos], lr/2, ctx, tmp)\n\t\tfor'
m $M 'agg[i] += ctx[i]' 'agg[i] = ctx[i]'
m $M 'agg[i] += ctx[i]' 'agg[i] += ctx[i] * ctx[i]'
m $M '(ctx, _, tmp []float64) {\n\tfor i := 0; i < len(ctx); i++ {\n\t\tctx[i] += tmp[i]' '(ctx, agg, tmp []float64) {\n\tfor i := 0; i < len(ctx); i++ {\n\t\tctx[i] += agg[i]'
m $M '(ctx, _, tmp []float64) {\n\tfor i := 0; i < len(ctx); i++ {\n\t\tctx[i] += tmp[i]' '(ctx, agg, tmp []float64) {\n\tfor i := 0; i < len(ctx); i++ {\n\t\tctx[i] += tmp[i] / 2'
m $M 'optimizer.optim(doc[pos], lr, agg, tmp)\n' 'optimizer.optim(doc[pos], lr, tmp, agg)\n'
m $M 'optimizer.optim(doc[pos], lr, agg, tmp)\n\tmod.dowith(doc, pos, del, param, agg, tmp, mod.update)' 'mod.dowith(doc, pos, del, param, agg, tmp, mod.update)\n\toptimizer.optim(doc[pos], lr, agg, tmp)'
r $O 'for n := -1; n < opt.sampleSize; n++ {\n\t\tif n == -1 {' 'for n := 0; n <= opt.sampleSize; n++ {\n\t\tif n == 0 {'
r $O 'for i := 0; i < dim; i++ {\n\t\t\ttmp[i] += g * rnd[i]\n\t\t\trnd[i] += g * ctx[i]\n\t\t}' 'for i, v := range rnd {\n\t\t\ttmp[i] += v * g\n\t\t\trnd[i] = v + ctx[i]*g\n\t\t}'
r $O 'for i := 0; i < dim; i++ {\n\t\t\ttmp[i] += g * rnd[i]\n\t\t\trnd[i] += g * ctx[i]\n\t\t}' 'for i := 0; i < dim; i++ {\n\t\t\ttmp[i] += g * rnd[i]\n\t\t}\n\t\tfor i := 0; i < dim; i++ {\n\t\t\trnd[i] += g * ctx[i]\n\t\t}'
r $O 'var inner float64\n\t\tfor i := 0; i < dim; i++ {\n\t\t\tinner += rnd[i] * ctx[i]\n\t\t}' 'inner := dot(ctx, rnd)' $O 'type hierarchicalSoftmax' 'func dot(a, b []float64) (s float64) {\n\tfor i := range a {\n\t\ts += a[i] * b[i]\n\t}\n\treturn s\n}\n\ntype hierarchicalSoftmax'
r $O 'if inner <= -opt.sigtable.maxExp {\n\t\t\tg = (float64(label - 0)) * lr\n\t\t} else if inner >= opt.sigtable.maxExp {\n\t\t\tg = (float64(label - 1)) * lr\n\t\t} else {' '{' 
r $O 'if inner <= -opt.sigtable.maxExp {\n\t\t\tg = (float64(label - 0)) * lr\n\t\t} else if inner >= opt.sigtable.maxExp {\n\t\t\tg = (float64(label - 1)) * lr\n\t\t} else {' 'switch {\n\t\tcase inner >= opt.sigtable.maxExp:\n\t\t\tg = float64(label)*lr - lr\n\t\tcase inner <= -opt.sigtable.maxExp:\n\t\t\tg = lr * float64(label)\n\t\tdefault:'
r $O 'inner <= -opt.sigtable.maxExp || inner >= opt.sigtable.maxExp {\n\t\t\treturn' 'inner <= -opt.sigtable.maxExp || inner >= opt.sigtable.maxExp {\n\t\t\tcontinue'
r $O 'for i := 0; i < len(path)-1; i++ {\n\t\tp := path[i]\n\t\tchildCode := path[i+1].Code' 'for i := 1; i < len(path); i++ {\n\t\tp := path[i-1]\n\t\tchildCode := path[i].Code'
r $O 'for i := 0; i < len(path)-1; i++ {\n\t\tp := path[i]\n' 'for i, p := range path[:len(path)-1] {\n'
r $O 'var (\n\t\tlabel  int\n\t\tpicked int\n\t)\n\tdim := len(ctx)\n\tfor n := -1; n < opt.sampleSize; n++ {\n\t\tif n == -1 {\n\t\t\tlabel = 1\n\t\t\tpicked = id\n\t\t} else {\n\t\t\tlabel = 0\n\t\t\tpicked = modelutil.NextRandom(opt.ctx.Row())\n\t\t\tif id == picked {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t}\n' 'opt.one(id, 1, lr, ctx, tmp)\n\tfor n := 0; n < opt.sampleSize; n++ {\n\t\tpicked := modelutil.NextRandom(opt.ctx.Row())\n\t\tif id != picked {\n\t\t\topt.one(picked, 0, lr, ctx, tmp)\n\t\t}\n\t}\n}\n\nfunc (opt *negativeSampling) one(picked, label int, lr float64, ctx, tmp []float64) {\n\tdim := len(ctx)\n\t{\n'
r $O 'g := (1.0 - float64(childCode) - opt.sigtable.sigmoid(inner)) * lr' 'label := 1 - childCode\n\t\tg := lr * (float64(label) - opt.sigtable.sigmoid(inner))'
r $O 'var g float64\n\t\tif inner <= -opt.sigtable.maxExp {\n\t\t\tg = (float64(label - 0)) * lr\n\t\t} else if inner >= opt.sigtable.maxExp {\n\t\t\tg = (float64(label - 1)) * lr\n\t\t} else {\n\t\t\tg = (float64(label) - opt.sigtable.sigmoid(inner)) * lr\n\t\t}' 'g := opt.gradient(float64(label), inner) * lr\n\t\tif g == 0 {\n\t\t\tcontinue\n\t\t}' $O 'type hierarchicalSoftmax' 'func (opt *negativeSampling) gradient(label, inner float64) float64 {\n\tswitch {\n\tcase inner <= -opt.sigtable.maxExp:\n\t\treturn label\n\tcase inner >= opt.sigtable.maxExp:\n\t\treturn label - 1\n\t}\n\treturn label - opt.sigtable.sigmoid(inner)\n}\n\ntype hierarchicalSoftmax'
r $S 's.expTable[i] = expval / (expval + 1.)' 's.expTable[i] = 1 / (1 + 1/expval)'
r $S 'expval := math.Exp((float64(i)/float64(s.expTableSize)*2. - 1.) * s.maxExp)\n\t\ts.expTable[i] = expval / (expval + 1.)' 'x := float64(i)/s.cache - s.maxExp\n\t\ts.expTable[i] = 1 / (1 + math.Exp(-x))'
r $S 's := new(sigmoidTable)\n\ts.expTableSize = 1000\n\ts.maxExp = 6.0\n\ts.cache = float64(s.expTableSize) / s.maxExp / 2.0\n\ts.expTable = make([]float64, s.expTableSize)' 'const size, limit = 1000, 6.0\n\ts := &sigmoidTable{expTableSize: size, maxExp: limit, cache: size / (2 * limit), expTable: make([]float64, size)}'
r $S 'i := int((x + s.maxExp) * s.cache)\n\tif i < 0 {\n\t\ti = 0\n\t} else if i >= len(s.expTable) {\n\t\ti = len(s.expTable) - 1\n\t}\n\treturn s.expTable[i]' 'i := int((x + s.maxExp) * s.cache)\n\tif i < 0 {\n\t\treturn s.expTable[0]\n\t}\n\tif n := len(s.expTable); i >= n {\n\t\treturn s.expTable[n-1]\n\t}\n\treturn s.expTable[i]'
r $S 'i := int((x + s.maxExp) * s.cache)\n' 'if x >= s.maxExp {\n\t\treturn 1\n\t}\n\tif x <= -s.maxExp {\n\t\treturn 0\n\t}\n\ti := int((x + s.maxExp) * s.cache)\n'
r $S 's.expTable = make([]float64, s.expTableSize)\n\tfor i := 0; i < s.expTableSize; i++ {\n\t\texpval := math.Exp((float64(i)/float64(s.expTableSize)*2. - 1.) * s.maxExp)\n\t\ts.expTable[i] = expval / (expval + 1.)\n\t}' 's.expTable = table(s.expTableSize, s.maxExp)' $S 'func (s *sigmoidTable) sigmoid' 'func table(n int, max float64) []float64 {\n\tt := make([]float64, n)\n\tfor i := range t {\n\t\te := math.Exp((float64(i)/float64(n)*2. - 1.) * max)\n\t\tt[i] = e / (e + 1.)\n\t}\n\treturn t\n}\n\nfunc (s *sigmoidTable) sigmoid'
r $M 'for i := 0; i < len(ctx); i++ {\n\t\t\tctx[i] += tmp[i]\n\t\t}\n\t}\n}' 'add(ctx, tmp)\n\t}\n}\n\nfunc add(dst, src []float64) {\n\tfor i, v := range src {\n\t\tdst[i] += v\n\t}\n}'
r $M 'for a := del; a < mod.window*2+1-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor i' 'for c := pos - mod.window + del; c <= pos+mod.window-del; c++ {\n\t\tif c == pos || c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor i'
r $M 'mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)\n\toptimizer.optim(doc[pos], lr, agg, tmp)\n\tmod.dowith(doc, pos, del, param, agg, tmp, mod.update)' 'mod.dowith(doc, pos, del, param, agg, tmp, func(ctx, agg, _ []float64) {\n\t\tfor i, v := range ctx {\n\t\t\tagg[i] += v\n\t\t}\n\t})\n\toptimizer.optim(doc[pos], lr, agg, tmp)\n\tmod.dowith(doc, pos, del, param, agg, tmp, mod.update)'
r $M 'optimizer.optim(doc[pos], lr, agg, tmp)\n' 'id := doc[pos]\n\toptimizer.optim(id, lr, agg, tmp)\n'
r $W 'w.mod.trainOne(doc, pos, w.currentlr.Load().(float64), w.param, w.optimizer)' 'w.one(doc, pos)' $W 'func (w *word2vec) observe' 'func (w *word2vec) one(doc []int, pos int) {\n\tlr := w.currentlr.Load().(float64)\n\tw.mod.trainOne(doc, pos, lr, w.param, w.optimizer)\n}\n\nfunc (w *word2vec) observe'
