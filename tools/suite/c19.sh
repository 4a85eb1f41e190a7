
T=pkg/model/word2vec/sigmoid_table.go; MO=pkg/model/word2vec/model.go; L=pkg/model/lexvec/lexvec.go; W=pkg/model/word2vec/word2vec.go
echo MUT
$MUT C19 $MO 'if c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor' 'if c < 0 || c > len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor'
$MUT C19 $MO 'if c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID' 'if c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID'
$MUT C19 $L 'if c < 0 || c >= len(doc) {' 'if c < 0 || c >= l.corpus.Len() {'
$MUT C19 $L 'if c < 0 || c >= len(doc) {' 'if c < -1 || c >= len(doc) {'
$MUT C19 $T '	if i < 0 {\n\t\ti = 0\n\t} else if' '	if' 
$MUT C19 $T 'else if i >= len(s.expTable) {' 'else if i > len(s.expTable) {'
$MUT C19 $T 'i = len(s.expTable) - 1' 'i = len(s.expTable)'
$MUT C19 $T 'make([]float64, s.expTableSize)' 'make([]float64, 0, s.expTableSize)' $T 's.expTable[i] = expval / (expval + 1.)' 's.expTable = append(s.expTable, expval / (expval + 1.))'
$MUT C19 $T '	if i < 0 {\n\t\ti = 0\n\t} else if i >= len(s.expTable) {\n\t\ti = len(s.expTable) - 1\n\t}\n' ''
$MUT C19 $T 'else if i >= len(s.expTable) {' 'else if x > s.maxExp {'
$MUT C19 $W 'w.mod.trainOne(doc, pos,' 'w.mod.trainOne(doc, pos+1,'
echo REF
$MUT C19 $T '	if i < 0 {\n\t\ti = 0\n\t} else if i >= len(s.expTable) {\n\t\ti = len(s.expTable) - 1\n\t}\n' '	i = clamp(i, len(s.expTable))\n' $T '// sigmoid returns' 'func clamp(i, n int) int {\n\tif i < 0 {\n\t\treturn 0\n\t}\n\tif i >= n {\n\t\treturn n - 1\n\t}\n\treturn i\n}\n\n// sigmoid returns'
$MUT C19 $T '	if i < 0 {\n\t\ti = 0\n\t} else if i >= len(s.expTable) {\n\t\ti = len(s.expTable) - 1\n\t}\n' '	if i > len(s.expTable)-1 {\n\t\treturn s.expTable[len(s.expTable)-1]\n\t}\n\tif i < 0 {\n\t\treturn s.expTable[0]\n\t}\n'
$MUT C19 $T '	if i < 0 {\n\t\ti = 0\n\t} else if i >= len(s.expTable) {\n\t\ti = len(s.expTable) - 1\n\t}\n' '	last := len(s.expTable) - 1\n\tswitch {\n\tcase i < 0:\n\t\ti = 0\n\tcase i > last:\n\t\ti = last\n\t}\n'
$MUT C19 $MO 'if c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor' 'if !inside(c, doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor' $MO 'type skipGram' 'func inside(c int, doc []int) bool {\n\treturn 0 <= c && c < len(doc)\n}\n\ntype skipGram'
$MUT C19 $MO 'if c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn(ctx, agg, tmp)' 'if 0 <= c && c < len(doc) {\n\t\t\tfn(param.Slice(doc[c]), agg, tmp)\n\t\t}'
$MUT C19 $L 'for pos, id := range doc {' 'for pos := 0; pos < len(doc); pos++ {\n\t\tid := doc[pos]'
$MUT C19 $T 'for i := 0; i < s.expTableSize; i++ {' 'for i := range s.expTable {'
$MUT C19 $L 'for a := del; a < l.opts.Window*2+1-del; a++ {\n\t\tif a == l.opts.Window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - l.opts.Window + a\n' 'reach := l.opts.Window - del\n\tfor c := pos - reach; c <= pos+reach; c++ {\n\t\tif c == pos {\n\t\t\tcontinue\n\t\t}\n'
