m() { echo "MUT $1 $2 $3"; $MUT C31 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C31 "$@"; }
W=pkg/model/word2vec/word2vec.go; G=pkg/model/glove/glove.go; I=pkg/model/glove/item.go; F=pkg/corpus/fs/fs.go; M=pkg/corpus/memory/memory.go; V=pkg/util/verbose/verbose.go
m $W 'cnt++' '' $W 'if cnt%w.opts.LogBatch == 0 {' 'cnt++\n\t\t\tif cnt%w.opts.LogBatch == 0 {'
m $G 'if cnt%g.opts.LogBatch == 0 {' 'if cnt%g.opts.LogBatch == 0 {\n\t\t\t\tg.currentlr = nil'
m $F 'verbose.Do(func() {' 'verbose.Do(func() {\n\t\t\tc.dic.Add("x")'
m $M 'verbose.Do(func() {' 'verbose.Do(func() {\n\t\t\tc.maxLen++'
m $I 'if idx%g.opts.LogBatch == 0 {' 'if idx/(len(items)-1) == 0 {'
m $W 'verbose: verbose.New(opts.Verbose),' 'verbose: verbose.New(opts.Verbose && opts.Goroutines > 1),'
m $W 'if cnt%w.opts.LogBatch == 0 {' 'if cnt%w.opts.LogBatch == 0 {\n\t\t\t\t<-trained'
m $V 'if v.flag {' 'if v.flag {\n\t\tcalls++' $V 'type Verbose struct' 'var calls int\n\nfunc Calls() int { return calls }\n\ntype Verbose struct'
m $W 'w.verbose.Do(func() {' 'if w.opts.Verbose {\n\t\tw.corpus = nil\n\t}\n\tw.verbose.Do(func() {'
r $V 'if v.flag {\n\t\tfn()\n\t}' 'if !v.flag {\n\t\treturn\n\t}\n\tfn()'
r $V 'if v.flag {\n\t\tfn()\n\t}' 'if v.Enabled() {\n\t\tfn()\n\t}\n}\n\nfunc (v *Verbose) Enabled() bool {\n\treturn v.flag'
r $V 'func (v *Verbose) Do' 'func (v *Verbose) Enabled() bool { return v.flag }\n\nfunc (v *Verbose) Do' $W 'w.verbose.Do(func() {\n\t\t\tif cnt%w.opts.LogBatch == 0 {\n\t\t\t\tfmt.Printf("trained %d words %v\\r", cnt, clk.AllElapsed())\n\t\t\t}\n\t\t})' 'if w.verbose.Enabled() && cnt%w.opts.LogBatch == 0 {\n\t\t\tfmt.Printf("trained %d words %v\\r", cnt, clk.AllElapsed())\n\t\t}'
r $W 'w.verbose.Do(func() {\n\t\t\tif cnt' 'w.verbose.Do(func() {\n\t\t\tn := cnt\n\t\t\tfor k := 0; k < 3; k++ { n += k }\n\t\t\t_ = n\n\t\t\tif cnt'
r $F 'verbose.Do(func() {' 'report := func() { fmt.Println("x") }\n\t\tverbose.Do(report)\n\t\tverbose.Do(func() {'
