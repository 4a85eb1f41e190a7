m() { echo "MUT $1 $2 $3"; $MUT C38 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C38 "$@"; }
S=pkg/model/modelutil/subsample/subsample.go; W=pkg/model/word2vec/word2vec.go; L=pkg/model/lexvec/lexvec.go
m $S 'z = math.Sqrt(threshold * total / float64(dic.IDFreq(i)))' 'z = 1 - math.Sqrt(threshold * total / float64(dic.IDFreq(i)))'
m $S 'z = math.Sqrt(threshold * total / float64(dic.IDFreq(i)))' 'z = math.Sqrt(threshold / float64(dic.IDFreq(i)))'

m $S 'z = math.Sqrt(threshold * total / float64(dic.IDFreq(i)))' 'z = math.Sqrt(threshold * total / float64(dic.IDFreq(i)+1))'
m $S 'z = math.Sqrt(threshold * total / float64(dic.IDFreq(i)))' 'z = math.Sqrt(threshold * total / float64(dic.IDFreq(i/2)))'
m $S 'z = math.Sqrt(threshold * total / float64(dic.IDFreq(i)))' 'z = math.Sqrt(threshold * float64(dic.Len()) / float64(dic.IDFreq(i)))'
m $S 'if threshold > 0 {' 'if threshold >= 0 {'
m $S 'if z > 1 {' 'if z > 0.5 {'
m $S 'samples[i] = z\n' 'samples[0] = z\n'
m $S 'samples[i] = z\n' 'if i > 0 {\n\t\t\tsamples[i] = z\n\t\t}\n'
m $S 'samples[i] = z\n' 'samples[i] = z\n\t\tif i > 0 && samples[i-1] > z {\n\t\t\tsamples[i] = samples[i-1]\n\t\t}\n'
m $S 'total += float64(dic.IDFreq(i))' 'total = float64(dic.IDFreq(i))'
m $S 'total += float64(dic.IDFreq(i))' 'if dic.IDFreq(i) > 1 {\n\t\t\ttotal += float64(dic.IDFreq(i))\n\t\t}'
m $S 's.samples[id] > bernoulliTrial' 's.samples[id] < bernoulliTrial'
m $S 's.samples[id] > bernoulliTrial' 's.samples[id] > 1-s.samples[id]*bernoulliTrial'
m $S 's.samples[id] > bernoulliTrial' 's.samples[id] > bernoulliTrial*bernoulliTrial'
m $S 's.samples[id] > bernoulliTrial' 's.samples[id] > 0.5 && bernoulliTrial >= 0'
m $S 's.samples[id] > bernoulliTrial' 's.samples[0] > bernoulliTrial'
m $S 'bernoulliTrial := rand.Float64()' 'bernoulliTrial := math.Abs(rand.NormFloat64())'
m $S 'bernoulliTrial := rand.Float64()' 'bernoulliTrial := rand.Float64() * rand.Float64()'
m $W 'if w.subsampler.Trial(id) {' 'if !w.subsampler.Trial(id) {'
m $W 'if w.subsampler.Trial(id) {' 'if w.subsampler.Trial(id) && w.subsampler.Trial(id) {'
m $W 'if w.subsampler.Trial(id) {' 'if w.subsampler.Trial(id) || w.subsampler.Trial(id) {'
m $W 'for pos, id := range doc {' 'for pos := range doc {' $W 'if w.subsampler.Trial(id) {' 'if w.subsampler.Trial(pos % w.corpus.Dictionary().Len()) {'
m $W 'if w.subsampler.Trial(id) {' 'if _ = id; w.subsampler.Trial(doc[0]) {'
m $W 'if w.subsampler.Trial(id) {' 'if id == 0 || w.subsampler.Trial(id) {'
m $W 'if w.subsampler.Trial(id) {' 'if w.subsampler.Trial(id) && pos > 0 {'
m $L 'if l.subsampler.Trial(id) {' 'if l.subsampler.Trial(id) && pos+1 < len(doc) {'
m $L 'if l.subsampler.Trial(id) {' 'if _ = id; true {'
m $L 'for pos, id := range doc {' 'keep := len(doc) > 0 && l.subsampler.Trial(doc[0])\n\tfor pos := range doc {' $L 'if l.subsampler.Trial(id) {' 'if keep {'
m $L 'subsample.New(dic, l.opts.SubsampleThreshold)' 'subsample.New(dic, l.opts.SubsampleThreshold*float64(dic.Len()))'
m $L 'subsample.New(dic, l.opts.SubsampleThreshold)' 'subsample.New(dic, l.opts.Smooth)'
m $W 'subsample.New(dic, w.opts.SubsampleThreshold)' 'subsample.New(dic, w.opts.Initlr)'
m $W 'w.mod.trainOne(doc, pos, w.currentlr' 'w.mod.trainOne(doc, len(doc)-1-pos, w.currentlr'
m $W 'w.mod.trainOne(doc, pos, w.currentlr' 'w.mod.trainOne(doc, (pos+1)%len(doc), w.currentlr'
r $S 'bernoulliTrial := rand.Float64()\n\tvar ok bool\n\tif s.samples[id] > bernoulliTrial {\n\t\tok = true\n\t}\n\treturn ok' 'return s.samples[id] > rand.Float64()'
r $S 'bernoulliTrial := rand.Float64()\n\tvar ok bool\n\tif s.samples[id] > bernoulliTrial {\n\t\tok = true\n\t}\n\treturn ok' 'p := s.samples[id]\n\treturn !(rand.Float64() >= p)'
r $S 's.samples[id] > bernoulliTrial' 'bernoulliTrial < s.samples[id]'
r $S 's.samples[id] > bernoulliTrial' 's.samples[id]-bernoulliTrial > 0'
r $S 's.samples[id] > bernoulliTrial' '1-s.samples[id] < 1-bernoulliTrial'
r $S 'z := 1.\n\t\tif threshold > 0 {\n\t\t\tz = math.Sqrt(threshold * total / float64(dic.IDFreq(i)))\n\t\t}\n\t\tif z > 1 {\n\t\t\tz = 1\n\t\t}\n\t\tsamples[i] = z\n' 'samples[i] = keep(threshold, total, dic.IDFreq(i))\n' $S 'func (s *Subsampler) Trial' 'func keep(threshold, total float64, freq int) float64 {\n\tif threshold <= 0 {\n\t\treturn 1\n\t}\n\treturn math.Min(1, math.Sqrt(threshold/(float64(freq)/total)))\n}\n\nfunc (s *Subsampler) Trial'
r $S 'z = math.Sqrt(threshold * total / float64(dic.IDFreq(i)))\n\t\t}\n\t\tif z > 1 {\n\t\t\tz = 1\n\t\t}' 'z = math.Sqrt(threshold * total / float64(dic.IDFreq(i)))\n\t\t}'
r $S 'z = math.Sqrt(threshold * total / float64(dic.IDFreq(i)))' 'z = math.Sqrt(threshold) * math.Pow(float64(dic.IDFreq(i))/total, -0.5)'
r $S 'samples[i] = z\n' 'samples[i] = 1 - z\n' $S 's.samples[id] > bernoulliTrial' 's.samples[id] <= bernoulliTrial'
r $S 'samples := make([]float64, dic.Len())' 'n := dic.Len()\n\tsamples := make([]float64, n)' $S 'samples := make' 'samples := make'
r $S 'for i := 0; i < dic.Len(); i++ {\n\t\tz' 'for i := range samples {\n\t\tz'
r $S 'samples := make([]float64, dic.Len())' 'samples := make([]float64, 0, dic.Len())' $S 'samples[i] = z\n' 'samples = append(samples, z)\n'
r $S 'return &Subsampler{\n\t\tsamples: samples,\n\t}' 's := &Subsampler{}\n\ts.samples = samples\n\treturn s'
r $W 'if w.subsampler.Trial(id) {\n\t\t\tw.mod.trainOne(doc, pos, w.currentlr.Load().(float64), w.param, w.optimizer)\n\t\t}\n' 'if !w.subsampler.Trial(id) {\n\t\t\ttrained <- struct{}{}\n\t\t\tcontinue\n\t\t}\n\t\tw.mod.trainOne(doc, pos, w.currentlr.Load().(float64), w.param, w.optimizer)\n'
r $W 'for pos, id := range doc {' 'for pos := 0; pos < len(doc); pos++ {\n\t\tid := doc[pos]'
r $W 'if w.subsampler.Trial(id) {' 'if keep := w.subsampler.Trial(doc[pos]); keep {' $W 'for pos, id := range doc {' 'for pos := range doc {'
r $L 'if l.subsampler.Trial(id) {\n\t\t\tl.trainOne(doc, pos, items)\n\t\t}\n' 'l.maybeTrain(doc, pos, items)\n' $L 'for pos, id := range doc {' 'for pos := range doc {' $L 'func (l *lexvec) trainOne(' 'func (l *lexvec) maybeTrain(doc []int, pos int, items map[uint64]float64) {\n\tif l.subsampler.Trial(doc[pos]) {\n\t\tl.trainOne(doc, pos, items)\n\t}\n}\n\nfunc (l *lexvec) trainOne('
r $L 'l.subsampler = subsample.New(dic, l.opts.SubsampleThreshold)' 'threshold := l.opts.SubsampleThreshold\n\tl.subsampler = subsample.New(l.corpus.Dictionary(), threshold)'
r $L 'l.subsampler = subsample.New(dic, l.opts.SubsampleThreshold)' 'l.initSubsampler()' $L 'func (l *lexvec) trainOne(' 'func (l *lexvec) initSubsampler() {\n\tl.subsampler = subsample.New(l.corpus.Dictionary(), l.opts.SubsampleThreshold)\n}\n\nfunc (l *lexvec) trainOne(' $L 'dic := l.corpus.Dictionary()' 'dic := l.corpus.Dictionary()\n\t_ = dic.Len()'
r $S 'samples []float64\n' 'samples   []float64\n\tthreshold float64\n' $S 'samples: samples,\n' 'samples:   samples,\n\t\tthreshold: threshold,\n' $S 's.samples[id] > bernoulliTrial' 's.threshold <= 0 || s.samples[id] > bernoulliTrial'
m $S 'return ok' 's.samples[id] *= 0.5\n\treturn ok'
r $S 'samples := make([]float64, dic.Len())' 's := &Subsampler{samples: make([]float64, dic.Len())}' $S 'samples[i] = z\n' 's.samples[i] = z\n' $S 'return &Subsampler{\n\t\tsamples: samples,\n\t}' 'return s'
