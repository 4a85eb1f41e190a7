W=pkg/model/word2vec/word2vec.go; L=pkg/model/lexvec/lexvec.go; G=pkg/model/glove/glove.go
MO=pkg/model/word2vec/model.go; OP=pkg/model/word2vec/optimizer.go; MU=pkg/model/modelutil/modelutil.go; FS=pkg/corpus/fs/fs.go; ME=pkg/corpus/memory/memory.go; ND=pkg/corpus/dictionary/node/node.go; SUB=pkg/model/modelutil/subsample/subsample.go; D=pkg/corpus/dictionary/dictionary.go
m(){ echo "MUT $*"; $MUT C05 "$@"; }
r(){ echo "REF $*"; $MUT C05 "$@"; }
# --- random generator
m $MU 'cur := atomic.LoadUint64(&next)' 'cur := next'
m $MU 'for {\n\t\tcur := atomic.LoadUint64(&next)\n\t\tn := cur*uint64(25214903917) + 11\n\t\tif atomic.CompareAndSwapUint64(&next, cur, n) {\n\t\t\treturn int(n % uint64(value))\n\t\t}\n\t}' 'next = next*uint64(25214903917) + 11\n\treturn int(next % uint64(value)) + int(atomic.LoadUint64(new(uint64)))'
# --- shared tmp
m $MO 'tmp := <-mod.ch\n\tdefer func() {\n\t\tmod.ch <- tmp\n\t}()' 'tmp := <-mod.ch\n\tmod.ch <- tmp'
m $MO 'for i := 0; i < opts.Goroutines; i++ {\n\t\tch <- make([]float64, opts.Dim)\n\t}' 'buf := make([]float64, opts.Dim)\n\tfor i := 0; i < opts.Goroutines; i++ {\n\t\tch <- buf\n\t}'
m $MO 'agg: make([]float64, opts.Dim),\n\t\t\ttmp: make([]float64, opts.Dim),' 'agg: agg,\n\t\t\ttmp: make([]float64, opts.Dim),' $MO 'ch := make(chan cbowToken, opts.Goroutines)' 'ch := make(chan cbowToken, opts.Goroutines)\n\tagg := make([]float64, opts.Dim)'
m $MO 'ch     chan []float64\n' 'ch     chan []float64\n\ttmp []float64\n' $MO 'tmp := <-mod.ch\n\tdefer func() {\n\t\tmod.ch <- tmp\n\t}()' 'if len(mod.tmp) == 0 {\n\t\tmod.tmp = make([]float64, param.Col())\n\t}\n\ttmp := mod.tmp'
m $MO 'ch     chan []float64\n' 'ch     chan []float64\n\ttmp []float64\n' $MO 'return &skipGram{\n' 'return &skipGram{\n\t\ttmp: make([]float64, opts.Dim),\n' $MO 'tmp := <-mod.ch\n\tdefer func() {\n\t\tmod.ch <- tmp\n\t}()' 'tmp := mod.tmp'
m $MO 'mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)\n\toptimizer.optim' 'mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)\n\tmod.ch <- cbowToken{agg, tmp}\n\toptimizer.optim' $MO 'defer func() {\n\t\ttoken := cbowToken{agg, tmp}\n\t\tmod.ch <- token\n\t}()\n' ''
m $MO 'ch <- cbowToken{\n\t\t\tagg: make([]float64, opts.Dim),\n\t\t\ttmp: make([]float64, opts.Dim),\n\t\t}' 'buf := make([]float64, opts.Dim)\n\t\tch <- cbowToken{agg: buf, tmp: buf}\n\t\tch <- cbowToken{agg: buf, tmp: buf}'
m $MO 'window int\n}\n\nfunc newSkipGram' 'window int\n\tlast []float64\n}\n\nfunc newSkipGram' $MO 'del := modelutil.NextRandom(mod.window)\n\tfor a := del; a < mod.window*2+1-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor i' 'mod.last = tmp\n\tdel := modelutil.NextRandom(mod.window)\n\tfor a := del; a < mod.window*2+1-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor i'
# --- once / path
m $ND 'n.once.Do(func() {' 'if n.cache == nil {' $ND 're(n.cache)\n\t})' 're(n.cache)\n\t}' $ND 'once   sync.Once\n' '' $ND 'import "sync"\n' ''
m $ND 'n.once.Do(func() {' 'var once sync.Once\n\tonce.Do(func() {' 
m $ND 'n.once.Do(func() {' 'if len(n.cache) > 0 {\n\t\treturn n.cache\n\t}\n\tn.once.Do(func() {'
m $ND 'if depth <= 0 || depth > len(n.cache) {\n\t\tdepth = len(n.cache)\n\t}' 'if depth <= 0 || depth > len(n.cache) {\n\t\tdepth = len(n.cache)\n\t}\n\tn.Val = depth'
m $ND 'return n.cache[:depth]' 'n.cache = n.cache[:depth]\n\treturn n.cache'
m $OP 'childCode := path[i+1].Code' 'childCode := path[i+1].Code\n\t\tif childCode > 1 {\n\t\t\tpath[i] = p\n\t\t}'
# --- learning rate
m $W 'currentlr  atomic.Value // float64, updated by the observer while training' 'currentlr float64' $W 'w.currentlr.Load().(float64)' 'w.currentlr' $W 'w.currentlr.Store(lr)' 'w.currentlr = lr' $W 'w.currentlr.Store(opts.Initlr)' 'w.currentlr = opts.Initlr' $W '"sync/atomic"\n' ''
m $W 'lr = w.opts.MinLR\n\t\t\t}' 'lr = w.opts.MinLR\n\t\t\t\tw.opts.Initlr = lr\n\t\t\t}'
m $L 'lr = l.opts.MinLR\n\t\t\t}' 'lr = l.opts.MinLR\n\t\t\t\tl.opts.Window = 1\n\t\t\t}'
# --- counters
m $W 'verbose *verbose.Verbose' 'verbose *verbose.Verbose\n\tcount int' $W 'trained <- struct{}{}' 'w.count++\n\t\ttrained <- struct{}{}'
m $G 'verbose *verbose.Verbose' 'verbose *verbose.Verbose\n\tcount int' $G 'trained <- struct{}{}' 'g.count++\n\t\ttrained <- struct{}{}'
m $L 'trained <- struct{}{}' 'items[0]++\n\t\ttrained <- struct{}{}'
m $L 'l.update(doc[pos], sample+dic.Len(), items[enc])' 'if _, ok := items[enc]; !ok {\n\t\t\t\titems[enc] = 0\n\t\t\t}\n\t\t\tl.update(doc[pos], sample+dic.Len(), items[enc])'
m $G 'for _, item := range items {\n' 'for i, item := range items {\n\t\titems[i].coef = item.coef\n'
m $W 'for pos, id := range doc {\n\t\tif' 'for pos, id := range doc {\n\t\tdoc[pos] = id\n\t\tif'
# --- cells captured
m $W 'wg.Add(1)\n\t\t\tgo w.trainPerThread(doc, trained, sem, wg)\n\t\t}' 'wg.Add(1)\n\t\t\tcur := doc\n\t\t\tgo w.trainPerThread(cur, trained, sem, wg)\n\t\t}\n\t\tw.param = nil'
m $W 's, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tgo w.trainPerThread(doc[s:e], trained, sem, wg)' 'go func() {\n\t\t\t\ts, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\t\tw.trainPerThread(doc[s:e], trained, sem, wg)\n\t\t\t}()'
m $G 's, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tgo g.trainPerThread(items[s:e], trained, sem, wg)' 'go func() {\n\t\t\t\tg.trainPerThread(items[indexPerThread[i]:indexPerThread[i+1]], trained, sem, wg)\n\t\t\t}()'
m $W 'read := make(chan error, 1)\n\t\tgo func() {\n\t\t\tread <- w.corpus.BatchWords(in, w.opts.BatchSize)\n\t\t}()' 'var rerr error\n\t\tread := make(chan error, 1)\n\t\tgo func() {\n\t\t\trerr = w.corpus.BatchWords(in, w.opts.BatchSize)\n\t\t\tread <- rerr\n\t\t}()\n\t\tif rerr != nil {\n\t\t\treturn rerr\n\t\t}'
m $W 'for doc := range in {\n\t\t\twg.Add(1)\n\t\t\tgo w.trainPerThread(doc, trained, sem, wg)' 'for doc := range in {\n\t\t\twg.Add(1)\n\t\t\tdoc[0] = doc[len(doc)-1]\n\t\t\tgo w.trainPerThread(doc, trained, sem, wg)\n\t\t\tdoc[0] = 0'
# --- batches
m $FS 'cursor, ids = 0, make([]int, batchSize)\n\t\t}' 'cursor = 0\n\t\t}'
m $FS 'ch <- ids\n' 'ch <- ids\n\t\t\tids[0] = 0\n'
# --- dictionary / corpus
m $D 'func (d *Dictionary) IDFreq(id int) int {' 'func (d *Dictionary) IDFreq(id int) int {\n\td.maxid += 0' 
m $SUB 'func (s *Subsampler) Trial(id int) bool {' 'func (s *Subsampler) Trial(id int) bool {\n\ts.samples[id] += 0'
m $FS 'func (c *Corpus) Len() int {' 'func (c *Corpus) Len() int {\n\tc.maxLen += 0'
m $FS 'func (c *Corpus) Dictionary() *dictionary.Dictionary {' 'func (c *Corpus) Dictionary() *dictionary.Dictionary {\n\tif c.dic == nil {\n\t\tc.dic = dictionary.New()\n\t}'
# --- rand
m $MO 'window int\n}\n\nfunc newSkipGram' 'window int\n\trnd *rand.Rand\n}\n\nfunc newSkipGram' $MO '"github.com/ynqa/wego/pkg/model/modelutil"' '"math/rand"\n\n\t"github.com/ynqa/wego/pkg/model/modelutil"' $MO 'return &skipGram{\n' 'return &skipGram{\n\t\trnd: rand.New(rand.NewSource(1)),\n' $MO 'del := modelutil.NextRandom(mod.window)\n\tfor' 'del := mod.rnd.Intn(mod.window)\n\tfor'
m pkg/util/clock/clock.go 'return time.Now().Sub(c.start)' 'c.last = time.Now()\n\treturn c.last.Sub(c.start)' $W 'w.observe(trained, clk)\n' 'w.observe(trained, clk)\n\t\t\t_ = clk.AllElapsed()\n' $W 'wg.Wait()\n\t\tclose(trained)' 'clk.AllElapsed()\n\t\twg.Wait()\n\t\tclose(trained)'
m $OP 'sampleSize int\n}' 'sampleSize int\n\tlast int\n}' $OP 'picked = modelutil.NextRandom(opt.ctx.Row())' 'picked = modelutil.NextRandom(opt.ctx.Row())\n\t\t\topt.last = picked'
m pkg/model/word2vec/sigmoid_table.go 'func (s *sigmoidTable) sigmoid(x float64) float64 {' 'func (s *sigmoidTable) sigmoid(x float64) float64 {\n\ts.expTable[0] = s.expTable[0]'

m $FS 'cursor, ids = 0, make([]int, batchSize)\n\t\t}' 'cursor, ids = 0, ids[:]\n\t\t}'
m $FS 'cursor, ids = 0, make([]int, batchSize)\n\t\t}' 'last, ids = ids, make([]int, batchSize)\n\t\t\tcursor = 0\n\t\t\tif len(last) > 1 {\n\t\t\t\tlast[0] = 0\n\t\t\t}\n\t\t}' $FS 'cursor, ids := 0, make([]int, batchSize)' 'var last []int\n\tcursor, ids := 0, make([]int, batchSize)'
m $FS 'cursor, ids := 0, make([]int, batchSize)' 'bufs := [2][]int{make([]int, batchSize), make([]int, batchSize)}\n\tturn := 0\n\tcursor, ids := 0, bufs[0]' $FS 'cursor, ids = 0, make([]int, batchSize)' 'turn = 1 - turn\n\t\t\tcursor, ids = 0, bufs[turn]'
m $FS 'cursor, ids := 0, make([]int, batchSize)' 'ids := c.buf(batchSize)\n\tcursor := 0' $FS 'cursor, ids = 0, make([]int, batchSize)' 'cursor, ids = 0, c.buf(batchSize)' $FS 'filters cpsutil.Filters\n}' 'filters cpsutil.Filters\n\tbatch   []int\n}\n\nfunc (c *Corpus) buf(n int) []int {\n\tif len(c.batch) != n {\n\t\tc.batch = make([]int, n)\n\t}\n\treturn c.batch\n}'
m $FS 'ch <- ids[:cursor]' 'ch <- ids[:cursor]\n\tfor i := range ids {\n\t\tids[i] = 0\n\t}'
m $ME 'ch <- doc[:batchSize]' 'ch <- doc[:batchSize]\n\t\tdoc = append(doc[:batchSize], doc[batchSize:]...)'
m $ME 'ch <- doc[:batchSize]' 'ch <- doc[:batchSize]\n\t\tdoc[0] = doc[batchSize]'
m $MO 'mod.dowith(doc, pos, del, param, agg, tmp, mod.update)\n' 'mod.dowith(doc, pos, del, param, agg, tmp, mod.update)\n\tmod.ch <- cbowToken{agg, tmp}\n\tagg[0] = 0\n' $MO 'defer func() {\n\t\ttoken := cbowToken{agg, tmp}\n\t\tmod.ch <- token\n\t}()\n' ''
m $MO 'tmp := <-mod.ch\n\tdefer func() {\n\t\tmod.ch <- tmp\n\t}()' 'tmp := <-mod.ch\n\tdefer func() {\n\t\ttmp[0] = 0\n\t}()\n\tdefer func() {\n\t\tmod.ch <- tmp\n\t}()'
m $MO 'tmp := <-mod.ch\n\tdefer func() {\n\t\tmod.ch <- tmp\n\t}()' 'tmp := mod.get()\n\tmod.put(tmp)' $MO 'func newSkipGram' 'func (mod *skipGram) get() []float64  { return <-mod.ch }\nfunc (mod *skipGram) put(b []float64) { mod.ch <- b }\n\nfunc newSkipGram'
m $MO 'ch <- make([]float64, opts.Dim)' 'ch <- scratch(opts.Dim)' $MO 'func newSkipGram' 'var shared []float64\n\nfunc scratch(n int) []float64 {\n\tif len(shared) < n {\n\t\tshared = make([]float64, n)\n\t}\n\treturn shared[:n]\n}\n\nfunc newSkipGram'
m $MO 'ch <- make([]float64, opts.Dim)' 'ch <- all[:opts.Dim]' $MO 'func newSkipGram(opts Options) mod {' 'func newSkipGram(opts Options) mod {\n\tall := make([]float64, opts.Dim*opts.Goroutines)'
m $W 'for doc := range in {\n\t\t\twg.Add(1)\n\t\t\tgo w.trainPerThread(doc, trained, sem, wg)\n\t\t}' 'doc := make([]int, 0)\n\t\tfor b := range in {\n\t\t\twg.Add(1)\n\t\t\tdoc = append(doc[:0], b...)\n\t\t\tgo w.trainPerThread(doc, trained, sem, wg)\n\t\t}'
m $W 'for i := 0; i < w.opts.Goroutines; i++ {\n\t\t\twg.Add(1)\n\t\t\ts, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tgo w.trainPerThread(doc[s:e], trained, sem, wg)' 'var s, e int\n\t\tfor i := 0; i < w.opts.Goroutines; i++ {\n\t\t\twg.Add(1)\n\t\t\ts, e = indexPerThread[i], indexPerThread[i+1]\n\t\t\tgo func() {\n\t\t\t\tw.trainPerThread(doc[s:e], trained, sem, wg)\n\t\t\t}()'
m $L 'sync.WaitGroup{}\n\n\t\tfor i := 0' 'sync.WaitGroup{}\n\t\tbuf := make([]int, len(doc))\n\n\t\tfor i := 0' $L 'go l.trainPerThread(doc[s:e], items' 'copy(buf, doc[s:e])\n\t\t\tgo l.trainPerThread(buf[:e-s], items'
m $L 'close(trained)\n\t\t<-observed\n\t}\n\treturn nil\n}\n\nfunc (l *lexvec) batchTrain' 'close(trained)\n\t\tl.opts.MinLR = l.opts.MinLR / 2\n\t\t<-observed\n\t}\n\treturn nil\n}\n\nfunc (l *lexvec) batchTrain'
m $G 'wg.Wait()\n\t\tclose(trained)' 'items[0].coef = 1\n\t\twg.Wait()\n\t\tclose(trained)'
m $D 'func (d *Dictionary) ID(word string) (int, bool) {' 'func (d *Dictionary) ID(word string) (int, bool) {\n\td.Add("x")'
m $W 'trained <- struct{}{}\n\t}\n\n\treturn nil' 'trained <- struct{}{}\n\t}\n\tlastErr = nil\n\n\treturn nil' $W 'func (w *word2vec) train() error {' 'var lastErr error\n\nfunc (w *word2vec) train() error {'
# --- refactors
r $MO 'tmp := <-mod.ch\n\tdefer func() {\n\t\tmod.ch <- tmp\n\t}()' 'tmp := mod.get()\n\tdefer mod.put(tmp)' $MO 'func newSkipGram' 'func (mod *skipGram) get() []float64  { return <-mod.ch }\nfunc (mod *skipGram) put(b []float64) { mod.ch <- b }\n\nfunc newSkipGram'
r $MO 'for i := 0; i < len(tmp); i++ {\n\t\t\ttmp[i] = 0\n\t\t}' 'zero(tmp)' $MO 'for i := 0; i < len(ctx); i++ {\n\t\t\tctx[i] += tmp[i]\n\t\t}\n\t}\n}\n\ntype cbowToken' 'axpy(ctx, tmp)\n\t}\n}\n\nfunc zero(v []float64) {\n\tfor i := range v {\n\t\tv[i] = 0\n\t}\n}\n\nfunc axpy(dst, src []float64) {\n\tfor i, v := range src {\n\t\tdst[i] += v\n\t}\n}\n\ntype cbowToken' $MO 'for i := 0; i < len(agg); i++ {\n\t\tagg[i], tmp[i] = 0, 0\n\t}' 'zero(agg)\n\tzero(tmp)'
r $MO 'token := <-mod.ch\n\tagg, tmp := token.agg, token.tmp\n\tdefer func() {\n\t\ttoken := cbowToken{agg, tmp}\n\t\tmod.ch <- token\n\t}()' 'token := <-mod.ch\n\tdefer func() { mod.ch <- token }()\n\tagg, tmp := token.agg, token.tmp'
r $MO 'ch <- cbowToken{\n\t\t\tagg: make([]float64, opts.Dim),\n\t\t\ttmp: make([]float64, opts.Dim),\n\t\t}' 'ch <- newToken(opts.Dim)' $MO 'func newCbow' 'func newToken(dim int) cbowToken {\n\tbuf := make([]float64, 2*dim)\n\treturn cbowToken{agg: buf[:dim:dim], tmp: buf[dim:]}\n}\n\nfunc newCbow'
r $MO 'defer func() {\n\t\tmod.ch <- tmp\n\t}()\n\tdel := ' 'del := ' $MO 'ctx[i] += tmp[i]\n\t\t}\n\t}\n}\n\ntype cbowToken' 'ctx[i] += tmp[i]\n\t\t}\n\t}\n\tmod.ch <- tmp\n}\n\ntype cbowToken'
r $MO 'ch     chan cbowToken' 'ch     chan *cbowToken' $MO 'make(chan cbowToken, opts' 'make(chan *cbowToken, opts' $MO 'ch <- cbowToken{' 'ch <- &cbowToken{' $MO 'token := cbowToken{agg, tmp}\n' ''
r $ND 're := func(nodes []*Node) {\n\t\t\tfor i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {\n\t\t\t\tnodes[i], nodes[j] = nodes[j], nodes[i]\n\t\t\t}\n\t\t}\n' '' $ND 're(n.cache)' 'reverse(n.cache)' $ND 'func (n *Node) GetPath' 'func reverse(nodes []*Node) {\n\tfor i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {\n\t\tnodes[i], nodes[j] = nodes[j], nodes[i]\n\t}\n}\n\nfunc (n *Node) GetPath'
r $ND 'n.once.Do(func() {' 'n.once.Do(n.fill)\n\t// depth=0 means the full path.\n\tif depth <= 0 || depth > len(n.cache) {\n\t\tdepth = len(n.cache)\n\t}\n\treturn n.cache[:depth]\n}\n\nfunc (n *Node) fill() {\n' $ND 're(n.cache)\n\t})\n\t// depth=0 means the full path.\n\tif depth <= 0 || depth > len(n.cache) {\n\t\tdepth = len(n.cache)\n\t}\n\treturn n.cache[:depth]\n}' 're(n.cache)\n}'
r $ND 'n.cache = make([]*Node, 0)\n\t\tfor p := n; p != nil; p = p.Parent {\n\t\t\tn.cache = append(n.cache, p)\n\t\t}\n\t\tre(n.cache)' 'var path []*Node\n\t\tfor p := n; p != nil; p = p.Parent {\n\t\t\tpath = append(path, p)\n\t\t}\n\t\tre(path)\n\t\tn.cache = path'
r $ND 'once   sync.Once' 'mu     sync.Mutex' $ND 'n.once.Do(func() {' 'n.mu.Lock()\n\tdefer n.mu.Unlock()\n\tif n.cache == nil {' $ND 're(n.cache)\n\t})' 're(n.cache)\n\t}'
r $FS 'cursor, ids = 0, make([]int, batchSize)\n\t\t}' 'cursor, ids = 0, c.fresh(batchSize)\n\t\t}' $FS 'func (c *Corpus) Dictionary' 'func (c *Corpus) fresh(n int) []int { return make([]int, n) }\n\nfunc (c *Corpus) Dictionary'
r $ME 'for len(doc) > batchSize {\n\t\tch <- doc[:batchSize]\n\t\tdoc = doc[batchSize:]\n\t}\n\tch <- doc' 'for s := 0; ; s += batchSize {\n\t\tif s+batchSize >= len(doc) {\n\t\t\tch <- doc[s:]\n\t\t\tbreak\n\t\t}\n\t\tch <- doc[s : s+batchSize]\n\t}'
r $W 's, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tgo w.trainPerThread(doc[s:e], trained, sem, wg)' 'part := doc[indexPerThread[i]:indexPerThread[i+1]]\n\t\t\tgo func() {\n\t\t\t\tw.trainPerThread(part, trained, sem, wg)\n\t\t\t}()'
r $W 'read := make(chan error, 1)\n\t\tgo func() {\n\t\t\tread <- w.corpus.BatchWords(in, w.opts.BatchSize)\n\t\t}()' 'var rerr error\n\t\tread := make(chan struct{})\n\t\tgo func() {\n\t\t\tdefer close(read)\n\t\t\trerr = w.corpus.BatchWords(in, w.opts.BatchSize)\n\t\t}()' $W 'if err := <-read; err != nil {\n\t\t\treturn err\n\t\t}' '<-read\n\t\tif rerr != nil {\n\t\t\treturn rerr\n\t\t}'
r $W 'sem := semaphore.NewWeighted(int64(w.opts.Goroutines))\n\t\twg := &sync.WaitGroup{}\n\n\t\tfor i' 'sem := semaphore.NewWeighted(int64(w.opts.Goroutines))\n\t\twg := &sync.WaitGroup{}\n\t\tstarted := 0\n\n\t\tfor i' $W 's, e := indexPerThread[i], indexPerThread[i+1]' 's, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tstarted++\n\t\t\tindexPerThread[i] = s'
r $W 'currentlr  atomic.Value // float64, updated by the observer while training' 'currentlr lrBox' $W 'func (w *word2vec) train() error {' 'type lrBox struct {\n\tmu sync.RWMutex\n\tv  float64\n}\n\nfunc (b *lrBox) Load() interface{} {\n\tb.mu.RLock()\n\tdefer b.mu.RUnlock()\n\treturn b.v\n}\n\nfunc (b *lrBox) Store(v float64) {\n\tb.mu.Lock()\n\tb.v = v\n\tb.mu.Unlock()\n}\n\nfunc (w *word2vec) train() error {' $W '\t"sync/atomic"\n' ''
r $MU 'next uint64 = 1\n)' 'next uint64 = 1\n\tmu sync.Mutex\n)' $MU '"sync/atomic"' '"sync"' $MU 'for {\n\t\tcur := atomic.LoadUint64(&next)\n\t\tn := cur*uint64(25214903917) + 11\n\t\tif atomic.CompareAndSwapUint64(&next, cur, n) {\n\t\t\treturn int(n % uint64(value))\n\t\t}\n\t}' 'mu.Lock()\n\tdefer mu.Unlock()\n\tnext = next*uint64(25214903917) + 11\n\treturn int(next % uint64(value))'
r $L 'var diff float64\n\tfor i := 0; i < l.opts.Dim; i++ {\n\t\tdiff += l.param.Slice(l1)[i] * l.param.Slice(l2)[i]\n\t}' 'v1, v2 := l.param.Slice(l1), l.param.Slice(l2)\n\tdiff := dot(v1, v2)' $L 'func (l *lexvec) observe' 'func dot(a, b []float64) float64 {\n\tvar s float64\n\tfor i := range a {\n\t\ts += a[i] * b[i]\n\t}\n\treturn s\n}\n\nfunc (l *lexvec) observe'
r $L 'verbose *verbose.Verbose' 'verbose *verbose.Verbose\n\tcnt int' $L 'var cnt int\n\tfor range trained {\n\t\tcnt++' 'cnt := 0\n\tl.cnt = 0\n\tfor range trained {\n\t\tcnt++\n\t\tl.cnt = cnt'

r $W 'go w.trainPerThread(doc[s:e], trained, sem, wg)' 'job := &job{doc: doc[s:e], trained: trained}\n\t\t\tgo w.run(job, sem, wg)' $W 'func (w *word2vec) train() error {' 'type job struct {\n\tdoc []int\n\ttrained chan struct{}\n\tn int\n}\n\nfunc (w *word2vec) run(j *job, sem *semaphore.Weighted, wg *sync.WaitGroup) {\n\tj.n++\n\tw.trainPerThread(j.doc, j.trained, sem, wg)\n}\n\nfunc (w *word2vec) train() error {'
r $W 'wg := &sync.WaitGroup{}\n\n\t\tfor i' 'wg := &sync.WaitGroup{}\n\t\terrs := make([]error, w.opts.Goroutines)\n\n\t\tfor i' $W 'go w.trainPerThread(doc[s:e], trained, sem, wg)' 'go w.runOne(errs, i, doc[s:e], trained, sem, wg)' $W 'func (w *word2vec) train() error {' 'func (w *word2vec) runOne(errs []error, i int, doc []int, trained chan struct{}, sem *semaphore.Weighted, wg *sync.WaitGroup) {\n\terrs[i] = nil\n\tw.trainPerThread(doc, trained, sem, wg)\n}\n\nfunc (w *word2vec) train() error {'
r $FS 'ids[cursor] = id\n\t\tcursor++\n\t\tif cursor == batchSize {\n\t\t\tch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)\n\t\t}' 'ids = append(ids, id)\n\t\tif len(ids) == batchSize {\n\t\t\tflush()\n\t\t}' $FS 'cursor, ids := 0, make([]int, batchSize)' 'ids := make([]int, 0, batchSize)\n\tflush := func() {\n\t\tch <- ids\n\t\tids = make([]int, 0, batchSize)\n\t}' $FS 'ch <- ids[:cursor]' 'flush()'
r $FS 'ch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)' 'full := ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)\n\t\t\tch <- full'
r $FS 'ch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)' 'ch <- append([]int(nil), ids...)\n\t\t\tcursor = 0'
r $FS 'ch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)' 'c.send(ch, ids)\n\t\t\tcursor, ids = 0, make([]int, batchSize)' $FS 'func (c *Corpus) Dictionary' 'func (c *Corpus) send(ch chan []int, b []int) { ch <- b }\n\nfunc (c *Corpus) Dictionary'
r $W 'w.observe(trained, clk)\n' 'w.observe(trained, clk)\n\t\t\t_ = clk.AllElapsed()\n'
r $G 'dic := g.corpus.Dictionary()\n\tfor _, item := range items {' 'n := g.corpus.Dictionary().Len()\n\tfor i := range items {\n\t\titem := &items[i]' $G 'item.l2+dic.Len()' 'item.l2+n' $G 'item.l1+dic.Len()' 'item.l1+n'
r pkg/model/glove/solver.go 'v1, v2 := param.Slice(l1), param.Slice(l2)\n\tg1, g2 := sol.gradsq.Slice(l1), sol.gradsq.Slice(l2)' 'v1, v2, g1, g2 := sol.rows(param, l1, l2)' pkg/model/glove/solver.go 'func newAdaGrad' 'func (sol *adaGrad) rows(param *matrix.Matrix, l1, l2 int) (v1, v2, g1, g2 []float64) {\n\tv1, v2 = param.Slice(l1), param.Slice(l2)\n\tg1, g2 = sol.gradsq.Slice(l1), sol.gradsq.Slice(l2)\n\treturn\n}\n\nfunc newAdaGrad'
r $ND 're := func(nodes []*Node) {\n\t\t\tfor i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {\n\t\t\t\tnodes[i], nodes[j] = nodes[j], nodes[i]\n\t\t\t}\n\t\t}\n\t\tn.cache = make([]*Node, 0)\n\t\tfor p := n; p != nil; p = p.Parent {\n\t\t\tn.cache = append(n.cache, p)\n\t\t}\n\t\tre(n.cache)' 'depth := 0\n\t\tfor p := n; p != nil; p = p.Parent {\n\t\t\tdepth++\n\t\t}\n\t\tn.cache = make([]*Node, depth)\n\t\tfor p := n; p != nil; p = p.Parent {\n\t\t\tdepth--\n\t\t\tn.cache[depth] = p\n\t\t}'
r $ND '// depth=0 means the full path.\n\tif depth <= 0 || depth > len(n.cache) {\n\t\tdepth = len(n.cache)\n\t}\n\treturn n.cache[:depth]' 'path := n.cache\n\tif depth > 0 && depth < len(path) {\n\t\tpath = path[:depth]\n\t}\n\treturn path'
r $OP 'path := opt.nodeset[id].GetPath(opt.maxDepth)' 'path := opt.pathOf(id)' $OP 'func newHierarchicalSoftmax' 'func (opt *hierarchicalSoftmax) pathOf(id int) []*node.Node {\n\tn := opt.nodeset[id]\n\treturn n.GetPath(opt.maxDepth)\n}\n\nfunc newHierarchicalSoftmax'
r $OP 'for i := 0; i < len(path)-1; i++ {\n\t\tp := path[i]\n\t\tchildCode := path[i+1].Code' 'p := path[0]\n\tfor _, child := range path[1:] {\n\t\tchildCode := child.Code' $OP 'p.Vector[j] += g * ctx[j]\n\t\t}' 'p.Vector[j] += g * ctx[j]\n\t\t}\n\t\tp = child'
