m() { echo "MUT $1 $2 $3"; $MUT C32 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C32 "$@"; }
F=pkg/corpus/fs/fs.go; M=pkg/corpus/memory/memory.go; W=pkg/model/word2vec/word2vec.go; L=pkg/model/lexvec/lexvec.go; G=pkg/model/glove/glove.go
m $F 'ch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)' 'ch <- ids\n\t\t\tcursor = 0'
m $F 'ch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)' 'ids = make([]int, batchSize)\n\t\t\tch <- ids\n\t\t\tcursor = 0'
m $F 'ch <- ids[:cursor]\n' 'if cursor == batchSize {\n\t\tch <- ids[:cursor]\n\t}\n'
m $F 'ch <- ids[:cursor]\n' 'ch <- ids\n'
m $F 'ch <- ids[:cursor]\n' ''
m $F 'cursor == batchSize {' 'cursor == batchSize-1 {'
m $F 'ch <- ids\n\t\t\tcursor, ids = 0, make' 'ch <- ids\n\t\t\tcursor, ids = 1, make'
m $F 'ids[cursor] = id\n\t\tcursor++' 'ids[cursor] = id\n\t\tif id > 0 {\n\t\t\tcursor++\n\t\t}'
m $F 'cursor, ids := 0, make' 'cursor, ids := 1, make'
m $F 'ids[cursor] = id\n' 'ids[batchSize-1-cursor] = id\n'
m $M 'doc = doc[batchSize:]\n' 'doc = doc[batchSize+1:]\n'
m $M 'ch <- doc[:batchSize]\n' 'ch <- doc[:batchSize-1]\n'
m $M 'ch <- doc[:batchSize]\n' 'ch <- doc\n'
m $M 'ch <- doc\n' 'if len(doc) == batchSize {\n\t\tch <- doc\n\t}\n'
m $M 'for len(doc) > batchSize {' 'for len(doc) > batchSize {\n\t\tif len(doc) == 2*batchSize {\n\t\t\tbreak\n\t\t}' $M 'ch <- doc\n' 'ch <- doc[:batchSize]\n'
m $M 'ch <- doc\n' 'sort.Ints(doc)\n\tch <- doc\n' $M '"strings"' '"sort"\n\t"strings"'
m $W 'for doc := range in {\n\t\t\twg.Add(1)\n' 'for doc := range in {\n\t\t\tif len(doc) < 3 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\twg.Add(1)\n'
m $W 'go w.trainPerThread(doc, trained, sem, wg)\n' 'go w.trainPerThread(doc, trained, sem, wg)\n\t\t\tif i == 2 {\n\t\t\t\twg.Add(1)\n\t\t\t\tgo w.trainPerThread(doc, trained, sem, wg)\n\t\t\t}\n'
m $W 'go w.trainPerThread(doc, trained, sem, wg)\n' 'go w.trainPerThread(doc[1:], trained, sem, wg)\n'
m $W 'trained <- struct{}{}\n' 'if pos > 0 {\n\t\t\ttrained <- struct{}{}\n\t\t}\n'
m $W 'w.mod.trainOne(doc, pos, w.currentlr.Load().(float64), w.param, w.optimizer)\n\t\t}\n\t\ttrained <- struct{}{}\n' 'w.mod.trainOne(doc, pos, w.currentlr.Load().(float64), w.param, w.optimizer)\n\t\t\ttrained <- struct{}{}\n\t\t}\n'
m $W 'for pos, id := range doc {' 'for pos, id := range doc {\n\t\tif len(doc) == 1 {\n\t\t\tbreak\n\t\t}'
m $W 'read <- w.corpus.BatchWords(in, w.opts.BatchSize)' 'if i > 1 {\n\t\t\t\tclose(in)\n\t\t\t\tread <- nil\n\t\t\t\treturn\n\t\t\t}\n\t\t\tread <- w.corpus.BatchWords(in, w.opts.BatchSize)'
m $L 'trained <- struct{}{}\n' 'select {\n\t\tcase trained <- struct{}{}:\n\t\tdefault:\n\t\t}\n'
m $G 'trained <- struct{}{}\n' 'trained <- struct{}{}\n\t\ttrained <- struct{}{}\n'
r $F 'ids[cursor] = id\n\t\tcursor++\n\t\tif cursor == batchSize {\n\t\t\tch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)\n\t\t}' 'ids = append(ids, id)\n\t\tif len(ids) == batchSize {\n\t\t\tch <- ids\n\t\t\tids = make([]int, 0, batchSize)\n\t\t}' $F 'cursor, ids := 0, make([]int, batchSize)' 'ids := make([]int, 0, batchSize)' $F 'ids[:cursor]' 'ids'
r $F 'ids[cursor] = id\n\t\tcursor++\n\t\tif cursor == batchSize {\n\t\t\tch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)\n\t\t}' 'if cursor == batchSize {\n\t\t\tch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)\n\t\t}\n\t\tids[cursor] = id\n\t\tcursor++\n'
r $F 'ch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)' 'full := ids\n\t\t\tids = make([]int, batchSize)\n\t\t\tcursor = 0\n\t\t\tch <- full'
r $F 'ch <- ids\n\t\t\tcursor, ids = 0, make([]int, batchSize)' 'flush()' $F 'cursor, ids := 0, make([]int, batchSize)' 'cursor, ids := 0, make([]int, batchSize)\n\tflush := func() {\n\t\tch <- ids[:cursor]\n\t\tcursor, ids = 0, make([]int, batchSize)\n\t}' $F 'ch <- ids[:cursor]\n\treturn' 'flush()\n\treturn'
r $F 'ch <- ids[:cursor]\n' 'if cursor > 0 {\n\t\tch <- ids[:cursor]\n\t}\n'
r $M 'for len(doc) > batchSize {\n\t\tch <- doc[:batchSize]\n\t\tdoc = doc[batchSize:]\n\t}\n\tch <- doc\n' 'for i := 0; i < len(doc); i += batchSize {\n\t\te := i + batchSize\n\t\tif e > len(doc) {\n\t\t\te = len(doc)\n\t\t}\n\t\tch <- doc[i:e]\n\t}\n'
r $M 'for len(doc) > batchSize {\n\t\tch <- doc[:batchSize]\n\t\tdoc = doc[batchSize:]\n\t}\n\tch <- doc\n' 'var i int\n\tfor i = 0; i+batchSize < len(doc); i += batchSize {\n\t\tch <- doc[i : i+batchSize]\n\t}\n\tch <- doc[i:]\n'
r $M 'for len(doc) > batchSize {\n\t\tch <- doc[:batchSize]\n\t\tdoc = doc[batchSize:]\n\t}\n\tch <- doc\n' 'for len(doc) > 0 {\n\t\tn := batchSize\n\t\tif n > len(doc) {\n\t\t\tn = len(doc)\n\t\t}\n\t\tch <- doc[:n]\n\t\tdoc = doc[n:]\n\t}\n'
r $M 'ch <- doc\n' 'if len(doc) > 0 {\n\t\tch <- doc\n\t}\n'
r $W 'for doc := range in {\n\t\t\twg.Add(1)\n\t\t\tgo w.trainPerThread(doc, trained, sem, wg)\n' 'for {\n\t\t\tdoc, ok := <-in\n\t\t\tif !ok {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\twg.Add(1)\n\t\t\tgo w.trainPerThread(doc, trained, sem, wg)\n'
r $W 'go w.trainPerThread(doc, trained, sem, wg)\n' 'doc := doc\n\t\t\tgo func() { _ = w.trainPerThread(doc, trained, sem, wg) }()\n'
r $W 'for pos, id := range doc {\n' 'for pos := 0; pos < len(doc); pos++ {\n\t\tid := doc[pos]\n'
r $W 'if w.subsampler.Trial(id) {\n\t\t\tw.mod.trainOne(doc, pos, w.currentlr.Load().(float64), w.param, w.optimizer)\n\t\t}\n\t\ttrained <- struct{}{}' 'w.step(doc, pos, id, trained)' $W 'func (w *word2vec) observe(' 'func (w *word2vec) step(doc []int, pos, id int, trained chan struct{}) {\n\tif w.subsampler.Trial(id) {\n\t\tw.mod.trainOne(doc, pos, w.currentlr.Load().(float64), w.param, w.optimizer)\n\t}\n\ttrained <- struct{}{}\n}\n\nfunc (w *word2vec) observe('
r $W 'in := make(chan []int, w.opts.Goroutines)\n\t\tread := make(chan error, 1)\n\t\tgo func() {\n\t\t\tread <- w.corpus.BatchWords(in, w.opts.BatchSize)\n\t\t}()\n' 'in, read := w.feed()\n' $W 'func (w *word2vec) observe(' 'func (w *word2vec) feed() (chan []int, chan error) {\n\tin := make(chan []int, w.opts.Goroutines)\n\tread := make(chan error, 1)\n\tgo func() {\n\t\tread <- w.corpus.BatchWords(in, w.opts.BatchSize)\n\t}()\n\treturn in, read\n}\n\nfunc (w *word2vec) observe('
