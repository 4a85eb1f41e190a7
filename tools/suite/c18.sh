
W=pkg/model/word2vec/word2vec.go; O=pkg/model/word2vec/optimizer.go; MO=pkg/model/word2vec/model.go; L=pkg/model/lexvec/lexvec.go
echo MUT
$MUT C18 $W 'if lr < w.opts.MinLR {' 'if lr < 0 {'
$MUT C18 $W 'if lr < w.opts.MinLR {' 'if lr < w.opts.MinLR && cnt < w.corpus.Len() {'
$MUT C18 $L 'if lr < l.opts.MinLR {' 'l.currentlr.Store(lr)\n\t\t\tif lr < l.opts.MinLR {'
$MUT C18 $L 'if lr < l.opts.MinLR {' 'if lr > l.opts.MinLR {'
$MUT C18 $W 'w.currentlr.Load().(float64), w.param' 'w.currentlr.Load().(float64)*(1-float64(pos)/float64(len(doc))), w.param'
$MUT C18 $O 'opt.sigtable.sigmoid(inner)) * lr\n\t\t}' 'opt.sigtable.sigmoid(inner)) * (lr / 2)\n\t\t}'
$MUT C18 $L 'l.currentlr.Load().(float64)' 'l.opts.Initlr * 0.1'
$MUT C18 $L 'var cnt int' 'var cnt int\n\tdefer l.currentlr.Store(0.0)' 
$MUT C18 $W 'lr = w.opts.MinLR' 'lr = w.opts.MinLR * w.opts.Initlr'
echo REF
$MUT C18 $W 'if lr < w.opts.MinLR {\n\t\t\t\tlr = w.opts.MinLR\n\t\t\t}' 'if w.opts.MinLR > lr {\n\t\t\t\tlr = w.opts.MinLR\n\t\t\t}'
$MUT C18 $W 'if lr < w.opts.MinLR {\n\t\t\t\tlr = w.opts.MinLR\n\t\t\t}\n\t\t\tw.currentlr.Store(lr)' 'if lr >= w.opts.MinLR {\n\t\t\t\tw.currentlr.Store(lr)\n\t\t\t} else {\n\t\t\t\tw.currentlr.Store(w.opts.MinLR)\n\t\t\t}'
$MUT C18 $L 'lr := l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))\n\t\t\tif lr < l.opts.MinLR {\n\t\t\t\tlr = l.opts.MinLR\n\t\t\t}\n\t\t\tl.currentlr.Store(lr)' 'l.currentlr.Store(l.rateAfter(cnt))' $L 'func (l *lexvec) Save(' 'func (l *lexvec) rateAfter(cnt int) float64 {\n\tlr := l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))\n\tif lr < l.opts.MinLR {\n\t\treturn l.opts.MinLR\n\t}\n\treturn lr\n}\n\nfunc (l *lexvec) Save('
$MUT C18 $L 'lr := l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))\n\t\t\tif lr < l.opts.MinLR {\n\t\t\t\tlr = l.opts.MinLR\n\t\t\t}\n\t\t\tl.currentlr.Store(lr)' 'lr := math.Max(l.opts.MinLR, l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len())))\n\t\t\tl.currentlr.Store(lr)' $L '	"math/rand"' '	"math"\n	"math/rand"'
$MUT C18 $L 'diff = (diff - f) * l.currentlr.Load().(float64)' 'lr := l.currentlr.Load().(float64)\n\tdiff = lr * (diff - f)'
$MUT C18 $O 'g = (float64(label - 0)) * lr' 'g = lr * float64(label)'
$MUT C18 $L 'if cnt%l.opts.UpdateLRBatch == 0 {\n\t\t\tlr' 'if cnt%l.opts.UpdateLRBatch != 0 {\n\t\t\t// unchanged\n\t\t} else {\n\t\t\tlr'
