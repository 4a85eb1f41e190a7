m() { echo "MUT $1 $2 $3"; $MUT C34 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C34 "$@"; }
S=pkg/model/glove/solver.go; G=pkg/model/glove/glove.go; I=pkg/model/glove/item.go
m $I 'f:    math.Log(f)' 'f:    math.Log1p(f)'
m $I 'f:    math.Log(f)' 'f:    f'
m $I 'l1:   l1,' 'l1:   l2 + 0*l1,'
m $I 'if f < float64' 'if f > float64'
m $I 'coef := 1.' 'coef := 0.'
m $I 'math.Pow(f/float64(g.opts.Xmax), g.opts.Alpha)' 'math.Pow(f/float64(g.opts.Xmax), 1/g.opts.Alpha)'
m $I 'math.Pow(f/float64(g.opts.Xmax), g.opts.Alpha)' 'math.Pow(f, g.opts.Alpha)/float64(g.opts.Xmax)'
m $I 'idx++\n' 'if l1 != l2 {\n\t\t\tidx++\n\t\t}\n'
m $I 'l1, l2 := int(u1), int(u2)\n' 'l1, l2 := int(u1), int(u2)\n\t\tif l1 == l2 {\n\t\t\tcontinue\n\t\t}\n'
m $G 'item.l1+dic.Len(), item.l2, g.param' 'item.l1+dic.Len(), item.l1, g.param'
m $G '\t\tg.solver.trainOne(item.l1+dic.Len(), item.l2, g.param, item.f, item.coef)\n' ''
m $G 'g.solver.trainOne(item.l1+dic.Len(), item.l2, g.param, item.f, item.coef)' 'if item.l1 != item.l2 {\n\t\t\tg.solver.trainOne(item.l1+dic.Len(), item.l2, g.param, item.f, item.coef)\n\t\t}'
m $G 'item.l2, g.param, item.f, item.coef)\n\t\ttrained' 'item.l2, g.param, item.coef, item.f)\n\t\ttrained'
m $G 'for _, item := range items {' 'for _, item := range items {\n\t\tif item.coef == 0 {\n\t\t\tbreak\n\t\t}'
m $G 'for _, item := range items {' 'for _, item := range items[1:] {'
m $S 'diff += v1[dim] + v2[dim] - f\n\tdiff *= coef * sol.initlr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1' 'diff += v1[dim] + v2[dim] + f\n\tdiff *= coef * sol.initlr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1'
m $S 't1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1[i] -= t1\n\t\tv2[i] -= t2' 'v1[i] -= diff * v2[i]\n\t\tv2[i] -= diff * v1[i]'
m $S 't1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1[i]' 't1, t2 := diff*v1[i], diff*v2[i]\n\t\tv1[i]'
m $S '\tdiff *= coef * sol.initlr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tg1' '\tdiff *= sol.initlr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tg1'
m $S 'v1[dim] -= diff\n\tv2[dim] -= diff\n' 'v1[dim] -= diff\n'
m $S 'v2[dim] -= diff\n' 'v2[dim] += diff\n'
m $S 'g1[i] += t1 * t1' 'g1[i] += t1 * t2'
m $S 'g1[i] += t1 * t1' 'g1[i] = t1 * t1'
m $S 't2 /= math.Sqrt(g2[i])' 't2 /= math.Sqrt(g1[i])'
m $S 't2 /= math.Sqrt(g2[i])' 't2 /= g2[i]'
m $S 'v2[dim] -= diff / math.Sqrt(g2[dim])' 'v2[dim] -= diff / math.Sqrt(g2[dim-1])'
m $S '\tdiff *= diff\n' ''
m $S 'v1[dim] -= diff\n' 'v1[dim-1] -= diff\n'
m $S 'dim, diff := len(v1)-1, 0.\n\tfor i := 0; i < dim; i++ {\n\t\tdiff += v1[i] * v2[i]\n\t}\n\tdiff += v1[dim] + v2[dim] - f\n\tdiff *= coef * sol.initlr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1' 'dim, diff := len(v1)-1, 0.\n\tfor i := 0; i <= dim; i++ {\n\t\tdiff += v1[i] * v2[i]\n\t}\n\tdiff += v1[dim] + v2[dim] - f\n\tdiff *= coef * sol.initlr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1'
m $S 'initlr: opts.Initlr,\n\t\tgradsq' 'initlr: opts.Alpha,\n\t\tgradsq'
m $S 'v1, v2 := param.Slice(l1), param.Slice(l2)\n\tg1' 'v1, v2 := param.Slice(l1), param.Slice(l2)\n\tif coef < 1e-3 {\n\t\treturn\n\t}\n\tg1'
m $S 'v1, v2 := param.Slice(l1), param.Slice(l2)\n\tg1, g2 := sol.gradsq.Slice(l1), sol.gradsq.Slice(l2)' 'v1, v2 := param.Slice(l1), param.Slice(l2)\n\tg1, g2 := sol.gradsq.Slice(l2), sol.gradsq.Slice(l1)'
m $S 'v1[i] -= t1\n\t\tv2[i] -= t2\n\t}\n\tv1[dim] -= diff\n' 'if t1 < 100 {\n\t\t\tv1[i] -= t1\n\t\t}\n\t\tv2[i] -= t2\n\t}\n\tv1[dim] -= diff\n'
r $S 'diff += v1[dim] + v2[dim] - f\n\tdiff *= coef * sol.initlr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1[i] -= t1\n\t\tv2[i] -= t2' 'diff = (diff + v1[dim] + v2[dim] - f) * coef * sol.initlr\n\tfor i := range v1[:dim] {\n\t\told := v1[i]\n\t\tv1[i] -= diff * v2[i]\n\t\tv2[i] -= diff * old'
r $S 'dim, diff := len(v1)-1, 0.\n\tfor i := 0; i < dim; i++ {\n\t\tdiff += v1[i] * v2[i]\n\t}\n\tdiff += v1[dim] + v2[dim] - f\n\tdiff *= coef * sol.initlr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1' 'dim := len(v1) - 1\n\tdiff := loss(v1, v2, f)\n\tdiff *= coef * sol.initlr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1' $S 'type adaGrad struct' 'func loss(v1, v2 []float64, f float64) float64 {\n\td := len(v1) - 1\n\tsum := v1[d] + v2[d] - f\n\tfor i := 0; i < d; i++ {\n\t\tsum += v1[i] * v2[i]\n\t}\n\treturn sum\n}\n\ntype adaGrad struct'
r $S 't1 /= math.Sqrt(g1[i])\n\t\tt2 /= math.Sqrt(g2[i])\n\t\tv1[i] -= t1\n\t\tv2[i] -= t2' 'v1[i] -= t1 / math.Sqrt(g1[i])\n\t\tv2[i] -= t2 / math.Sqrt(g2[i])'
r $S 'g1[i] += t1 * t1\n\t\tg2[i] += t2 * t2\n\t\tt1 /= math.Sqrt(g1[i])\n\t\tt2 /= math.Sqrt(g2[i])\n\t\tv1[i] -= t1\n\t\tv2[i] -= t2' 'scale(v1, g1, i, t1)\n\t\tscale(v2, g2, i, t2)' $S 'func (sol *adaGrad)' 'func scale(v, g []float64, i int, t float64) {\n\tg[i] += t * t\n\tv[i] -= t / math.Sqrt(g[i])\n}\n\nfunc (sol *adaGrad)'
r $S 'diff *= diff\n\tg1[dim] += diff\n\tg2[dim] += diff' 'g1[dim] += diff * diff\n\tg2[dim] += math.Pow(diff, 2)'
r $I 'coef := 1.\n\t\tif f < float64(g.opts.Xmax) {\n\t\t\tcoef = math.Pow(f/float64(g.opts.Xmax), g.opts.Alpha)\n\t\t}' 'coef := weight(f, float64(g.opts.Xmax), g.opts.Alpha)' $I 'func (g *glove) makeItems' 'func weight(f, xmax, alpha float64) float64 {\n\tif f >= xmax {\n\t\treturn 1\n\t}\n\treturn math.Pow(f/xmax, alpha)\n}\n\nfunc (g *glove) makeItems'
r $I 'coef := 1.\n\t\tif f < float64(g.opts.Xmax) {\n\t\t\tcoef = math.Pow(f/float64(g.opts.Xmax), g.opts.Alpha)\n\t\t}' 'coef := math.Pow(math.Min(f/float64(g.opts.Xmax), 1), g.opts.Alpha)'
r $I 'res[idx] = item{\n\t\t\tl1:   l1,\n\t\t\tl2:   l2,\n\t\t\tf:    math.Log(f),\n\t\t\tcoef: coef,\n\t\t}\n' 'res[idx].l1, res[idx].l2 = l1, l2\n\t\tres[idx].f, res[idx].coef = math.Log(f), coef\n'
r $I 'res, idx, clk := make([]item, len(em)), 0' 'res, idx, clk := make([]item, 0, len(em)), 0' $I 'res[idx] = item{\n\t\t\tl1:   l1,\n\t\t\tl2:   l2,\n\t\t\tf:    math.Log(f),\n\t\t\tcoef: coef,\n\t\t}\n' 'res = append(res, item{\n\t\t\tl1:   l1,\n\t\t\tl2:   l2,\n\t\t\tf:    math.Log(f),\n\t\t\tcoef: coef,\n\t\t})\n'
r $I 'res[idx] = item{\n\t\t\tl1:   l1,\n\t\t\tl2:   l2,\n\t\t\tf:    math.Log(f),\n\t\t\tcoef: coef,\n\t\t}\n' 'it := item{l1: l1, l2: l2}\n\t\tit.f = math.Log(f)\n\t\tit.coef = coef\n\t\tres[idx] = it\n'
r $G 'for _, item := range items {\n\t\tg.solver.trainOne(item.l1, item.l2+dic.Len(), g.param, item.f, item.coef)\n\t\tg.solver.trainOne(item.l1+dic.Len(), item.l2, g.param, item.f, item.coef)\n' 'n := dic.Len()\n\tfor i := range items {\n\t\tit := &items[i]\n\t\tg.solver.trainOne(it.l1+n, it.l2, g.param, it.f, it.coef)\n\t\tg.solver.trainOne(it.l1, n+it.l2, g.param, it.f, it.coef)\n'
r $G 'for _, item := range items {\n\t\tg.solver.trainOne(item.l1, item.l2+dic.Len(), g.param, item.f, item.coef)\n\t\tg.solver.trainOne(item.l1+dic.Len(), item.l2, g.param, item.f, item.coef)\n' 'for _, item := range items {\n\t\tg.trainItem(item, dic.Len())\n' $G 'func (g *glove) observe' 'func (g *glove) trainItem(it item, n int) {\n\tg.solver.trainOne(it.l1, it.l2+n, g.param, it.f, it.coef)\n\tg.solver.trainOne(it.l1+n, it.l2, g.param, it.f, it.coef)\n}\n\nfunc (g *glove) observe'
r $G 'go g.trainPerThread(items[s:e], trained, sem, wg)' 'part := items[s:e]\n\t\t\tgo func() {\n\t\t\t\tg.trainPerThread(part, trained, sem, wg)\n\t\t\t}()'
r $S 'initlr float64\n}\n\nfunc newStochastic(opts Options) solver {\n\treturn &stochastic{\n\t\tinitlr: opts.Initlr,' 'lr float64\n}\n\nfunc newStochastic(opts Options) solver {\n\treturn &stochastic{\n\t\tlr: opts.Initlr,' $S 'diff *= coef * sol.initlr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1' 'diff *= coef * sol.lr\n\tfor i := 0; i < dim; i++ {\n\t\tt1, t2 := diff*v2[i], diff*v1[i]\n\t\tv1'
