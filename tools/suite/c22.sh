U=pkg/model/modelutil/modelutil.go; W=pkg/model/word2vec/word2vec.go; LX=pkg/model/lexvec/lexvec.go; G=pkg/model/glove/glove.go

INC='int(math.Trunc(float64((dataSize+i)/threadSize)))'
echo MUT
$MUT C22 $U "$INC" 'int(math.Trunc(float64((dataSize+i+1)/threadSize)))'
$MUT C22 $U "$INC" 'int(math.Ceil(float64(dataSize)/float64(threadSize)))'
$MUT C22 $U "$INC" '(dataSize+threadSize-1)/threadSize' $U '	"math"\n' ''
$MUT C22 $U "$INC" 'int(math.Round(float64(dataSize)/float64(threadSize)))'
$MUT C22 $U 'i := 1; i < threadSize; i++' 'i := 1; i < threadSize-1; i++'
$MUT C22 $U 'i := 1; i < threadSize; i++' 'i := 1; i <= threadSize; i++'
$MUT C22 $U 'indexPerThread[threadSize] = dataSize' 'indexPerThread[threadSize] = dataSize / threadSize * threadSize'
$MUT C22 $W 's, e := indexPerThread[i], indexPerThread[i+1]' 's, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tif s > 0 {\n\t\t\t\ts--\n\t\t\t}'
$MUT C22 $LX 'for i := 0; i < l.opts.Goroutines; i++ {\n\t\t\twg.Add' 'for i := 0; i < l.opts.Goroutines-1; i++ {\n\t\t\twg.Add'
$MUT C22 $LX 's, e := indexPerThread[i], indexPerThread[i+1]\n' 's, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tif e-s < 2 {\n\t\t\t\twg.Done()\n\t\t\t\tcontinue\n\t\t\t}\n'
$MUT C22 $W 'for pos, id := range doc {' 'for pos, id := range doc {\n\t\tif len(doc) > 1 && pos == len(doc)-1 {\n\t\t\tcontinue\n\t\t}'
$MUT C22 $W 'go w.trainPerThread(doc[s:e], trained, sem, wg)' 'go w.trainPerThread(doc[s:min(e, len(doc)-1)], trained, sem, wg)'
$MUT C22 $G 'for _, item := range items {' 'for n := 0; n < len(items); n += 2 {\n\t\titem := items[n]'
$MUT C22 $G 'itemSize := len(items)' 'itemSize := len(items) / 2 * 2'
$MUT C22 $G 'for _, item := range items {' 'for _, item := range items[:len(items)/2] {'
$MUT C22 $W 'for i := 0; i < w.opts.Goroutines; i++ {' 'if i > 1 && len(doc) < w.opts.Goroutines {\n\t\t\tclose(trained)\n\t\t\t<-observed\n\t\t\tcontinue\n\t\t}\n\t\tfor i := 0; i < w.opts.Goroutines; i++ {'
$MUT C22 $G 'indexPerThread := modelutil.IndexPerThread(\n		g.opts.Goroutines,' 'indexPerThread := modelutil.IndexPerThread(\n		g.opts.Goroutines+1,'
echo REF
NM="$U "

$MUT C22 $U "indexPerThread[i-1] +\n\t\t\t$INC" "indexPerThread[i-1] + (dataSize+i)/threadSize" $U '	"math"\n' ''
$MUT C22 $U "indexPerThread[i] = indexPerThread[i-1] +\n\t\t\t$INC" "indexPerThread[i] = dataSize*i/threadSize" $U '	"math"\n' ''
$MUT C22 $U "for i := 1; i < threadSize; i++ {\n\t\tindexPerThread[i] = indexPerThread[i-1] +\n\t\t\t$INC" "sum := 0\n\tfor i := 1; i < threadSize; i++ {\n\t\tsum += int(math.Trunc(float64((dataSize + i) / threadSize)))\n\t\tindexPerThread[i] = sum"
$MUT C22 $U "for i := 1; i < threadSize; i++ {\n\t\tindexPerThread[i] = indexPerThread[i-1] +\n\t\t\t$INC" "for i := 0; i+1 < threadSize; i++ {\n\t\tindexPerThread[i+1] = indexPerThread[i] + (dataSize+i+1)/threadSize" $U '	"math"\n' ''
$MUT C22 $U "for i := 1; i < threadSize; i++ {\n\t\tindexPerThread[i] = indexPerThread[i-1] +\n\t\t\t$INC" "chunk := (dataSize + threadSize - 1) / threadSize\n\tfor i := 1; i < threadSize; i++ {\n\t\tb := i * chunk\n\t\tif b > dataSize {\n\t\t\tb = dataSize\n\t\t}\n\t\tindexPerThread[i] = b" $U '	"math"\n' ''
$MUT C22 $U "for i := 1; i < threadSize; i++ {\n\t\tindexPerThread[i] = indexPerThread[i-1] +\n\t\t\t$INC" "base, rest := dataSize/threadSize, dataSize%threadSize\n\tfor i := 1; i < threadSize; i++ {\n\t\tindexPerThread[i] = indexPerThread[i-1] + base\n\t\tif i <= rest {\n\t\t\tindexPerThread[i]++\n\t\t}" $U '	"math"\n' ''
$MUT C22 $U "for i := 1; i < threadSize; i++ {\n\t\tindexPerThread[i] = indexPerThread[i-1] +\n\t\t\t$INC" "base, rest := dataSize/threadSize, dataSize%threadSize\n\tfor i := 1; i < threadSize; i++ {\n\t\tsize := base\n\t\tif i <= rest {\n\t\t\tsize++\n\t\t}\n\t\tindexPerThread[i] = indexPerThread[i-1] + size" $U '	"math"\n' ''
$MUT C22 $W 's, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tgo w.trainPerThread(doc[s:e], trained, sem, wg)' 'part := doc[indexPerThread[i]:indexPerThread[i+1]]\n\t\t\tgo w.trainPerThread(part, trained, sem, wg)'
$MUT C22 $W 'go w.trainPerThread(doc[s:e], trained, sem, wg)' 'go func() {\n\t\t\t\tw.trainPerThread(doc[s:e], trained, sem, wg)\n\t\t\t}()'
$MUT C22 $W 'for i := 0; i < w.opts.Goroutines; i++ {\n\t\t\twg.Add(1)\n\t\t\ts, e := indexPerThread[i], indexPerThread[i+1]' 'for i := 1; i < len(indexPerThread); i++ {\n\t\t\twg.Add(1)\n\t\t\ts, e := indexPerThread[i-1], indexPerThread[i]'
$MUT C22 $G 'for _, item := range items {' 'for n := range items {\n\t\titem := &items[n]'
$MUT C22 $G 'for _, item := range items {\n\t\tg.solver.trainOne(item.l1, item.l2+dic.Len(), g.param, item.f, item.coef)\n\t\tg.solver.trainOne(item.l1+dic.Len(), item.l2, g.param, item.f, item.coef)\n\t\ttrained <- struct{}{}\n\t}\n\n\treturn nil\n}' 'g.trainItems(items, dic.Len(), trained)\n\treturn nil\n}\n\nfunc (g *glove) trainItems(items []item, size int, trained chan struct{}) {\n\tfor _, item := range items {\n\t\tg.solver.trainOne(item.l1, item.l2+size, g.param, item.f, item.coef)\n\t\tg.solver.trainOne(item.l1+size, item.l2, g.param, item.f, item.coef)\n\t\ttrained <- struct{}{}\n\t}\n}'
$MUT C22 $W 'for i := 0; i < w.opts.Goroutines; i++ {\n\t\t\twg.Add(1)\n\t\t\ts, e := indexPerThread[i], indexPerThread[i+1]\n\t\t\tgo w.trainPerThread(doc[s:e], trained, sem, wg)\n\t\t}\n' 'w.start(doc, indexPerThread, trained, sem, wg)\n' $W 'func (w *word2vec) batchTrain' 'func (w *word2vec) start(doc, bounds []int, trained chan struct{}, sem *semaphore.Weighted, wg *sync.WaitGroup) {\n\tfor i := 0; i < w.opts.Goroutines; i++ {\n\t\twg.Add(1)\n\t\tgo w.trainPerThread(doc[bounds[i]:bounds[i+1]], trained, sem, wg)\n\t}\n}\n\nfunc (w *word2vec) batchTrain'
