W=pkg/model/word2vec/word2vec.go; L=pkg/model/lexvec/lexvec.go; G=pkg/model/glove/glove.go
WO=pkg/model/word2vec/options.go; LO=pkg/model/lexvec/options.go; GO=pkg/model/glove/options.go
m(){ echo "MUT $*"; $MUT C11 "$@" 2>&1; }
r(){ echo "REF $*"; $MUT C11 "$@" 2>&1; }
m $WO 'opts.MaxDepth = v' 'opts.MaxCount = v'
m $WO 'opts.MinLR = v' 'opts.MinLR = v\n\t\topts.Initlr = v'
m $WO 'opts.MinLR = v' 'if v > 0 {\n\t\t\topts.MinLR = v\n\t\t}'
m $LO 'opts.Window = v' 'opts.Window = 5'
m $LO 'opts.Verbose = true' 'opts.Verbose = false'
m $LO 'opts.ToLower = true' 'opts.ToLower = !opts.ToLower'
m $GO 'IntVar(&opts.MaxCount, "max-count", defaultMaxCount' 'IntVar(&opts.MinCount, "max-count", defaultMaxCount'
m $GO '"max-count", defaultMaxCount' '"max-count", defaultMinCount'
m $GO 'defaultAlpha, "exp' 'defaultInitlr, "exp'
m $GO '"iter", defaultIter' '"log-batch", defaultIter' $GO '"log-batch", defaultLogBatch' '"iter", defaultLogBatch'
m $GO 'Window:             defaultWindow' 'Window:             defaultWindow + 1'
m $GO '"cnt", defaultCountType' '"cnt", co.Proximity'
m $G 'for _, fn := range opts {' 'for _, fn := range opts[1:] {'
m $G 'fn(&options)\n' 'o := options\n\t\tfn(&o)\n'
m $G 'NewForOptions(options)' 'NewForOptions(DefaultOptions())'
m $G 'fn(&options)\n' 'fn(&options)\n\t\tbreak\n'
m $G 'for _, fn := range opts {\n\t\tfn(&options)' 'for i := len(opts) - 1; i >= 0; i-- {\n\t\topts[i](&options)'
m $W 'w := &word2vec{' 'if opts.MinLR > opts.Initlr {\n\t\topts.MinLR = opts.Initlr\n\t}\n\tw := &word2vec{'
m $W 'func (w *word2vec) Train(r io.ReadSeeker) error {' 'func (w *word2vec) Train(r io.ReadSeeker) error {\n\tif w.opts.Iter == 0 {\n\t\tw.opts.Iter = 1\n\t}'
m cmd/model/glove/glove.go 'return execute(opts)' 'return execute(glove.DefaultOptions())'
m cmd/model/glove/glove.go 'mod.Save(output, vectorType)' 'mod.Save(output, vector.Single)'
m cmd/model/cmdutil/cmdutil.go '"prof"' '"verbose"'
m cmd/query/query.go 'SearchInternal(args[0], rank)' 'SearchInternal(args[0], 10)'
m cmd/query/console/console.go 'console.New(searcher, rank)' 'console.New(searcher, rank+1)'
m cmd/model/lexvec/lexvec.go 'cmdutil.AddVectorTypeFlags(cmd, &vectorType)' 'cmdutil.AddVectorTypeFlags(cmd, &outputFile)'
r $GO 'func Alpha(v float64) ModelOption {\n\treturn ModelOption(func(opts *Options) {\n\t\topts.Alpha = v\n\t})' 'func Alpha(v float64) ModelOption {\n\treturn func(o *Options) { setFloat(&o.Alpha, v) }' $GO 'type ModelOption func(*Options)' 'type ModelOption func(*Options)\n\nfunc setFloat(dst *float64, v float64) {\n\t*dst = v\n}'
r $G 'for _, fn := range opts {\n\t\tfn(&options)' 'for i := 0; i < len(opts); i++ {\n\t\topts[i](&options)'
r $G 'options := DefaultOptions()\n\tfor _, fn := range opts {\n\t\tfn(&options)\n\t}\n\n\treturn NewForOptions(options)' 'return NewForOptions(withOptions(opts))' $G 'func NewForOptions(' 'func withOptions(opts []ModelOption) Options {\n\toptions := DefaultOptions()\n\tfor _, fn := range opts {\n\t\tfn(&options)\n\t}\n\treturn options\n}\n\nfunc NewForOptions('
r $GO 'Window:             defaultWindow' 'Window:             5'
r $GO 'func DefaultOptions() Options {\n\treturn Options{' 'func DefaultOptions() Options {\n\tvar opts Options\n\topts.Dim = defaultDim\n\treturn Options{'
r cmd/model/glove/glove.go 'return execute(opts)' 'o := opts\n\t\treturn execute(o)'
r $GO '	cmd.Flags().Float64Var(&opts.Alpha, "alpha", defaultAlpha, "exponent of weighting function")\n' '	fs := cmd.Flags()\n\tfs.Float64Var(&opts.Alpha, "alpha", defaultAlpha, "exponent of weighting function")\n'
r $W 'w := &word2vec{\n\t\topts: opts,\n\n\t\tverbose: verbose.New(opts.Verbose),\n\t}' 'w := new(word2vec)\n\tw.opts = opts\n\tw.verbose = verbose.New(opts.Verbose)\n'
m $W 'i <= w.opts.Iter' 'i < w.opts.Iter'
m $G 'i < g.opts.Iter' 'i < g.opts.Window'
m $L 'for i := 1; i <= l.opts.Iter; i++ {\n\t\ttrained' 'for i := 1; i <= l.opts.Iter; i++ {\n\t\tif i%7 == 0 {\n\t\t\tcontinue\n\t\t}\n\t\ttrained'
m $W 'BatchWords(in, w.opts.BatchSize)' 'BatchWords(in, w.opts.LogBatch)'
m $L 'subsample.New(dic, l.opts.SubsampleThreshold)' 'subsample.New(dic, l.opts.MinLR)'
m $G 'CountType: g.opts.CountType,' 'CountType: g.opts.SolverType,'
m $W 'w.corpus.Load(nil, w.verbose, w.opts.LogBatch)' 'w.corpus.Load(nil, w.verbose, w.opts.UpdateLRBatch)'
m $W 'if err := <-read; err != nil {' 'if i == 5 {\n\t\t\tbreak\n\t\t}\n\t\tif err := <-read; err != nil {'
r $G 'for i := 0; i < g.opts.Iter; i++ {' 'for i := g.opts.Iter; i > 0; i-- {'
r $W 'for i := 1; i <= w.opts.Iter; i++ {\n\t\ttrained' 'iter := w.opts.Iter\n\tfor i := 0; i < iter; i++ {\n\t\ttrained'
r $G 'for i := 0; i < g.opts.Iter; i++ {' 'for i := 0; ; i++ {\n\t\tif i >= g.opts.Iter {\n\t\t\tbreak\n\t\t}'
m $L 'if l.opts.DocInMemory {\n\t\tl.corpus = memory' 'if !l.opts.DocInMemory {\n\t\tl.corpus = memory'
m $W 'if w.opts.DocInMemory {\n\t\tif err := w.train(); err' 'if !w.opts.DocInMemory {\n\t\tif err := w.train(); err'
m $W 'if w.opts.DocInMemory {\n\t\tw.corpus = memory' 'if w.opts.DocInMemory && w.opts.Goroutines > 1 {\n\t\tw.corpus = memory'
r $W 'if w.opts.DocInMemory {\n\t\tw.corpus = memory' 'inMemory := w.opts.DocInMemory\n\tif inMemory {\n\t\tw.corpus = memory'
