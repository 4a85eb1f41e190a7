m() { echo "MUT $1 $2 $3"; $MUT C04,C06 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C04,C06 "$@"; }
F=pkg/corpus/fs/fs.go; M=pkg/corpus/memory/memory.go; W=pkg/model/word2vec/word2vec.go; L=pkg/model/lexvec/lexvec.go; G=pkg/model/glove/glove.go; O=pkg/model/word2vec/model.go; N=pkg/corpus/dictionary/node/node.go
# C04
m $F 'defer close(ch)\n' '' $F 'ch <- ids[:cursor]\n' 'ch <- ids[:cursor]\n\tclose(ch)\n'
m $M 'defer close(ch)\n' '' $M 'return nil\n}\n\nfunc (c *Corpus) Dictionary' 'if len(doc) > 0 {\n\t\tclose(ch)\n\t}\n\treturn nil\n}\n\nfunc (c *Corpus) Dictionary'
m $F '}); err != nil {\n\t\treturn err\n\t}\n\n\t// send left' '}); err != nil {\n\t\tclose(ch)\n\t\treturn err\n\t}\n\n\t// send left'
m $W 'read := make(chan error, 1)' 'read := make(chan error, 1)\n\t\tread <- nil'
m $W 'for range trained {\n' 'for range trained {\n\t\tif cnt >= w.corpus.Len() {\n\t\t\treturn\n\t\t}\n'
m $L 'for range trained {\n' 'for range trained {\n\t\tif cnt > l.corpus.Len() {\n\t\t\tbreak\n\t\t}\n'
m $G 'close(trained)\n\t\t<-observed' '<-observed\n\t\tclose(trained)'
m $G 'wg.Wait()\n\t\tclose(trained)' 'close(trained)\n\t\twg.Wait()'
m $G 'defer func() {\n\t\twg.Done()\n\t\tsem.Release(1)\n\t}()\n' '' $G 'trained <- struct{}{}\n\t}\n' 'trained <- struct{}{}\n\t}\n\tif len(items) > 0 {\n\t\twg.Done()\n\t}\n\tsem.Release(1)\n'
m $W 'sem.Acquire(context.Background(), 1)' 'sem.Acquire(context.Background(), 2)' $W 'sem.Release(1)' 'sem.Release(2)'
m $W 'sem.Release(1)' 'sem.Release(2)'
m $W '\t\tsem.Release(1)\n' ''
m $L 'sem := semaphore.NewWeighted(int64(l.opts.Goroutines))' 'sem := semaphore.NewWeighted(int64(l.opts.Goroutines / 2))'
m $L 'sem := semaphore.NewWeighted(int64(l.opts.Goroutines))' 'sem := semaphore.NewWeighted(int64(l.opts.Goroutines - 1))'
m $O 'defer func() {\n\t\tmod.ch <- tmp\n\t}()\n' '' $O 'ctx[i] += tmp[i]\n\t\t}\n\t}\n}\n\ntype cbowToken' 'ctx[i] += tmp[i]\n\t\t}\n\t}\n\tif len(doc) > 1 {\n\t\tmod.ch <- tmp\n\t}\n}\n\ntype cbowToken'
m $O 'i < opts.Goroutines; i++ {\n\t\tch <- make' 'i <= opts.Goroutines; i++ {\n\t\tch <- make'
m $O 'i < opts.Goroutines; i++ {\n\t\tch <- cbowToken' 'i < opts.Goroutines-1; i++ {\n\t\tch <- cbowToken'
m $O 'ch := make(chan cbowToken, opts.Goroutines)' 'ch := make(chan cbowToken, opts.Window)'
m $O 'token := <-mod.ch\n' 'token := <-mod.ch\n\tif pos >= len(doc)-1 {\n\t\treturn\n\t}\n'
m $O 'agg, tmp := token.agg, token.tmp\n' 'agg, tmp := token.agg, token.tmp\n\tother := <-mod.ch\n\tmod.ch <- other\n'
m $W 'wg.Add(1)\n\t\t\ts, e' 'wg.Add(2)\n\t\t\ts, e'
m $W 'for doc := range in {\n\t\t\twg.Add(1)\n' 'for doc := range in {\n\t\t\twg.Add(1)\n\t\t\tif len(doc) == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n'
m $W 'for doc := range in {\n\t\t\twg.Add(1)\n' 'for doc := range in {\n\t\t\tif len(doc) == 0 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\twg.Add(1)\n'
m $W 'read <- w.corpus.BatchWords(in, w.opts.BatchSize)' 'if err := w.corpus.BatchWords(in, w.opts.BatchSize); err != nil {\n\t\t\t\tread <- err\n\t\t\t}'
m $W 'read := make(chan error, 1)' 'read := make(chan error)' $W 'wg.Wait()\n\t\tclose(trained)\n\t\t<-observed\n\t\tif err' 'if i == 1 {\n\t\t\tread <- nil\n\t\t}\n\t\twg.Wait()\n\t\tclose(trained)\n\t\t<-observed\n\t\tif err'
m $N 'n.once.Do(func() {' 'n.mu.Lock()\n\tn.once.Do(func() {' $N 'once   sync.Once' 'once   sync.Once\n\tmu sync.Mutex'
m $W 'if err := sem.Acquire(context.Background(), 1); err != nil {' 'if len(doc) == 0 {\n\t\treturn nil\n\t}\n\tif err := sem.Acquire(context.Background(), 1); err != nil {' $W 'defer func() {\n\t\twg.Done()\n\t\tsem.Release(1)\n\t}()\n\n\tif len(doc)' 'if len(doc)' $W 'return err\n\t}\n\n\tfor pos, id := range doc {' 'return err\n\t}\n\tdefer func() {\n\t\twg.Done()\n\t\tsem.Release(1)\n\t}()\n\n\tfor pos, id := range doc {'
# C06
m $G '\t\t<-observed\n' ''
m $W 'wg.Wait()\n\t\tclose(trained)\n\t\t<-observed\n\t\tif err := <-read; err != nil {\n\t\t\treturn err\n\t\t}' 'if err := <-read; err != nil {\n\t\t\treturn err\n\t\t}\n\t\twg.Wait()\n\t\tclose(trained)\n\t\t<-observed'
m $W '\t\tif err := <-read; err != nil {\n\t\t\treturn err\n\t\t}\n' '\t\tselect {\n\t\tcase err := <-read:\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\tdefault:\n\t\t}\n'
m $L 'defer close(observed)\n\t\t\tl.observe(trained, clk)' 'close(observed)\n\t\t\tl.observe(trained, clk)'
m $L 'wg.Add(1)\n\t\t\ts, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tgo l.trainPerThread(doc[s:e], items, trained, sem, wg)' 'wg.Add(1)\n\t\t\ts, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tif s == e {\n\t\t\t\twg.Done()\n\t\t\t}\n\t\t\tgo l.trainPerThread(doc[s:e], items, trained, sem, wg)'
m $G 'wg.Add(1)\n\t\t\ts' 's' $G 'defer func() {\n\t\twg.Done()' 'wg.Add(1)\n\tdefer func() {\n\t\twg.Done()'
m $G 'wg.Done()\n\t\tsem.Release(1)\n' 'wg.Done()\n\t\tsem.Release(1)\n\t\tg.verbose.Do(func() {\n\t\t\tfmt.Println("done")\n\t\t})\n'
m $G 'wg.Wait()\n\t\tclose' 'if i == g.opts.Iter-1 {\n\t\t\twg.Wait()\n\t\t}\n\t\tclose'
m $W 'for i := 1; i <= w.opts.Iter; i++ {\n\t\ttrained, clk := make(chan struct{}), clock.New()\n\t\tobserved := make(chan struct{})\n\t\tgo func() {\n\t\t\tdefer close(observed)\n\t\t\tw.observe(trained, clk)\n\t\t}()\n\n\t\tsem := semaphore.NewWeighted(int64(w.opts.Goroutines))\n\t\twg := &sync.WaitGroup{}\n\n\t\tfor' 'wg := &sync.WaitGroup{}\n\tdefer wg.Wait()\n\tfor i := 1; i <= w.opts.Iter; i++ {\n\t\ttrained, clk := make(chan struct{}), clock.New()\n\t\tobserved := make(chan struct{})\n\t\tgo func() {\n\t\t\tdefer close(observed)\n\t\t\tw.observe(trained, clk)\n\t\t}()\n\n\t\tsem := semaphore.NewWeighted(int64(w.opts.Goroutines))\n\n\t\tfor' $W '\t\twg.Wait()\n\t\tclose(trained)\n\t\t<-observed\n\t}\n\treturn nil\n}\n\nfunc (w *word2vec) batchTrain' '\t}\n\treturn nil\n}\n\nfunc (w *word2vec) batchTrain'
m $G 'return err\n\t}\n\n\tdic := g.corpus' 'return err\n\t}\n\tgo g.verbose.Do(func() {\n\t\tfmt.Println(len(items))\n\t})\n\n\tdic := g.corpus'
# refactors
r $G 'defer func() {\n\t\twg.Done()\n\t\tsem.Release(1)\n\t}()\n' 'defer wg.Done()\n\tdefer sem.Release(1)\n'
r $G 'defer func() {\n\t\twg.Done()\n\t\tsem.Release(1)\n\t}()\n' 'defer wg.Done()\n' $G 'return err\n\t}\n\n\tdic := g.corpus' 'return err\n\t}\n\tdefer sem.Release(1)\n\n\tdic := g.corpus'
r $G 'wg := &sync.WaitGroup{}\n' 'var group sync.WaitGroup\n\t\twg := &group\n'
r $G 'wg.Add(1)\n\t\t\ts, e' 's, e' $G 'for i := 0; i < g.opts.Goroutines; i++ {' 'wg.Add(g.opts.Goroutines)\n\t\tfor i := 0; i < g.opts.Goroutines; i++ {'
r $G 'wg.Add(1)\n\t\t\ts, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tgo g.trainPerThread(items[s:e], trained, sem, wg)' 's, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tg.launch(items[s:e], trained, sem, wg)' $G 'func (g *glove) observe' 'func (g *glove) launch(part []item, trained chan struct{}, sem *semaphore.Weighted, wg *sync.WaitGroup) {\n\twg.Add(1)\n\tgo g.trainPerThread(part, trained, sem, wg)\n}\n\nfunc (g *glove) observe'
r $G 'observed := make(chan struct{})\n\t\tgo func() {\n\t\t\tdefer close(observed)\n\t\t\tg.observe(trained, clk)\n\t\t}()\n' 'observed := g.watch(trained, clk)\n' $G 'func (g *glove) observe' 'func (g *glove) watch(trained chan struct{}, clk *clock.Clock) chan struct{} {\n\tobserved := make(chan struct{})\n\tgo func() {\n\t\tdefer close(observed)\n\t\tg.observe(trained, clk)\n\t}()\n\treturn observed\n}\n\nfunc (g *glove) observe'
r $G 'defer close(observed)\n\t\t\tg.observe(trained, clk)\n' 'g.observe(trained, clk)\n\t\t\tclose(observed)\n'
r $G 'defer close(observed)\n\t\t\tg.observe(trained, clk)\n' 'g.observe(trained, clk)\n\t\t\tobserved <- struct{}{}\n'
r $G 'for range trained {\n\t\tg.verbose' 'for {\n\t\tif _, ok := <-trained; !ok {\n\t\t\tbreak\n\t\t}\n\t\tg.verbose'
r $G 'wg.Wait()\n\t\tclose(trained)\n\t\t<-observed\n' 'g.finish(wg, trained, observed)\n' $G 'func (g *glove) observe' 'func (g *glove) finish(wg *sync.WaitGroup, trained, observed chan struct{}) {\n\twg.Wait()\n\tclose(trained)\n\t<-observed\n}\n\nfunc (g *glove) observe'
r $W 'if err := <-read; err != nil {\n\t\t\treturn err\n\t\t}' 'err := <-read\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}'
r $W 'read := make(chan error, 1)' 'read := make(chan error)'
r $W 'wg.Wait()\n\t\tclose(trained)\n\t\t<-observed\n\t\tif err := <-read; err != nil {\n\t\t\treturn err\n\t\t}' 'err := <-read\n\t\twg.Wait()\n\t\tclose(trained)\n\t\t<-observed\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}'
r $W 'for doc := range in {\n\t\t\twg.Add(1)\n\t\t\tgo w.trainPerThread(doc, trained, sem, wg)\n\t\t}' 'for {\n\t\t\tdoc, ok := <-in\n\t\t\tif !ok {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\twg.Add(1)\n\t\t\tgo w.trainPerThread(doc, trained, sem, wg)\n\t\t}'
r $W 'for i := 1; i <= w.opts.Iter; i++ {\n\t\ttrained, clk := make(chan struct{}), clock.New()\n\t\tobserved := make(chan struct{})\n\t\tgo func() {\n\t\t\tdefer close(observed)\n\t\t\tw.observe(trained, clk)\n\t\t}()\n\n\t\tsem := semaphore.NewWeighted(int64(w.opts.Goroutines))\n\t\twg := &sync.WaitGroup{}\n\n\t\tfor' 'wg := &sync.WaitGroup{}\n\tsem := semaphore.NewWeighted(int64(w.opts.Goroutines))\n\tfor i := 1; i <= w.opts.Iter; i++ {\n\t\ttrained, clk := make(chan struct{}), clock.New()\n\t\tobserved := make(chan struct{})\n\t\tgo func() {\n\t\t\tdefer close(observed)\n\t\t\tw.observe(trained, clk)\n\t\t}()\n\n\t\tfor'
r $O 'ch := make(chan []float64, opts.Goroutines)\n\tfor i := 0; i < opts.Goroutines; i++ {' 'n := opts.Goroutines\n\tch := make(chan []float64, n)\n\tfor i := n; i > 0; i-- {'
r $O 'ch := make(chan []float64, opts.Goroutines)\n\tfor i := 0; i < opts.Goroutines; i++ {\n\t\tch <- make([]float64, opts.Dim)\n\t}\n' 'ch := make(chan []float64, opts.Goroutines)\n\tfill(ch, opts.Goroutines, opts.Dim)\n' $O 'type cbowToken' 'func fill(ch chan []float64, n, dim int) {\n\tfor i := 0; i < n; i++ {\n\t\tch <- make([]float64, dim)\n\t}\n}\n\ntype cbowToken'
r $O 'tmp := <-mod.ch\n\tdefer func() {\n\t\tmod.ch <- tmp\n\t}()\n' 'pool := mod.ch\n\ttmp := <-pool\n\tdefer func() {\n\t\tpool <- tmp\n\t}()\n'
r $O 'tmp := <-mod.ch\n\tdefer func() {\n\t\tmod.ch <- tmp\n\t}()\n' 'tmp := <-mod.ch\n\tdefer mod.give(tmp)\n' $O 'type cbowToken' 'func (mod *skipGram) give(tmp []float64) {\n\tmod.ch <- tmp\n}\n\ntype cbowToken'
r $O 'defer func() {\n\t\tmod.ch <- tmp\n\t}()\n' '' $O 'ctx[i] += tmp[i]\n\t\t}\n\t}\n}\n\ntype cbowToken' 'ctx[i] += tmp[i]\n\t\t}\n\t}\n\tmod.ch <- tmp\n}\n\ntype cbowToken'
r $W 'if err := sem.Acquire(context.Background(), 1); err != nil {\n\t\treturn err\n\t}\n' '_ = sem.Acquire(context.Background(), 1)\n'
r $G 'wg.Add(1)\n\t\t\ts, e := indexPerThread[i], indexPerThread[i+1]' 'if err := sem.Acquire(context.Background(), 1); err != nil {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\twg.Add(1)\n\t\t\ts, e := indexPerThread[i], indexPerThread[i+1]' $G 'if err := sem.Acquire(context.Background(), 1); err != nil {\n\t\treturn err\n\t}\n\n\tdic' 'dic'
r $G 'for i := 0; i < g.opts.Iter; i++ {\n\t\ttrained, clk' 'for i := g.opts.Iter; i > 0; i-- {\n\t\ttrained, clk'
r $G 'wg.Wait()\n\t\tclose(trained)\n\t\t<-observed\n' 'go func() {\n\t\t\twg.Wait()\n\t\t\tclose(trained)\n\t\t}()\n\t\t<-observed\n'
r $F 'defer close(ch)\n' 'defer func() {\n\t\tclose(ch)\n\t}()\n'
r $F '\tdefer close(ch)\n' '\terr := c.send(ch, batchSize)\n\tclose(ch)\n\treturn err\n}\n\nfunc (c *Corpus) send(ch chan []int, batchSize int) error {\n'
