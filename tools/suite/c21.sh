m() { echo "MUT $1 $2 $3"; $MUT C21 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C21 "$@"; }
F=pkg/corpus/fs/fs.go; M=pkg/corpus/memory/memory.go; U=pkg/corpus/cpsutil/cpsutil.go; W=pkg/model/word2vec/word2vec.go; L=pkg/model/lexvec/lexvec.go
m $M 'if c.filters.Any(id, c.dic) {\n\t\t\tcontinue' 'if !c.filters.Any(id, c.dic) {\n\t\t\tcontinue'
m $M 'if c.filters.Any(id, c.dic) {\n\t\t\tcontinue' 'if c.filters.Any(id, c.dic) {\n\t\t\tbreak'
m $M 'if c.filters.Any(id, c.dic) {\n\t\t\tcontinue' 'if len(res) > 0 && c.filters.Any(id, c.dic) {\n\t\t\tcontinue'
m $M 'c.filters.Any(id, c.dic)' 'c.filters[:1].Any(id, c.dic)'
m $M 'range c.idoc {' 'range c.idoc[1:] {'
m $F 'if c.filters.Any(id, c.dic) {\n\t\t\treturn nil' 'if c.filters.Any(id, c.dic) && cursor > 0 {\n\t\t\treturn nil'
m $F 'if c.filters.Any(id, c.dic) {\n\t\t\treturn nil\n\t\t}\n\n\t\tids[cursor] = id\n\t\tcursor++' 'ids[cursor] = id\n\t\tcursor++\n\t\tif c.filters.Any(id, c.dic) && cursor < batchSize {\n\t\t\tcursor--\n\t\t}'
m $F 'ids[cursor] = id' 'ids[cursor] = id\n\t\tif cursor > 0 {\n\t\t\tids[0] = ids[cursor-1]\n\t\t}'
m $F 'c.filters.Any(id, c.dic)' 'c.filters.Any(cursor, c.dic)'
m $F 'cpsutil.MinCount(minCount)' 'cpsutil.MinCount(maxCount)'
m $M 'cpsutil.MaxCount(maxCount),\n' ''
m $M 'cpsutil.MaxCount(maxCount),\n' 'cpsutil.MinCount(maxCount),\n'
m $W 'memory.New(r, w.opts.ToLower, w.opts.MaxCount, w.opts.MinCount)' 'memory.New(r, w.opts.ToLower, w.opts.MinCount, w.opts.MaxCount)'
m $L 'fs.New(r, l.opts.ToLower, l.opts.MaxCount, l.opts.MinCount)' 'fs.New(r, l.opts.ToLower, l.opts.MaxCount, l.opts.Window)'
m $M 'doc := c.IndexedDoc()' 'doc := c.idoc'
m $M 'return res\n' 'if len(res) == 0 {\n\t\treturn c.idoc\n\t}\n\treturn res\n'
r $M 'if c.filters.Any(id, c.dic) {\n\t\t\tcontinue\n\t\t}\n\t\tres = append(res, id)' 'if !c.filters.Any(id, c.dic) {\n\t\t\tres = append(res, id)\n\t\t}'
r $M 'for _, id := range c.idoc {' 'for i := 0; i < len(c.idoc); i++ {\n\t\tid := c.idoc[i]'
r $M 'var res []int' 'res := make([]int, 0, len(c.idoc))'
r $M 'if c.filters.Any(id, c.dic) {\n' 'if c.drop(id) {\n' $M 'func (c *Corpus) BatchWords' 'func (c *Corpus) drop(id int) bool {\n\treturn c.filters.Any(id, c.dic)\n}\n\nfunc (c *Corpus) BatchWords'
r $F 'if c.filters.Any(id, c.dic) {\n\t\t\treturn nil\n\t\t}\n\n\t\tids[cursor] = id\n\t\tcursor++' 'if !c.filters.Any(id, c.dic) {\n\t\t\tids[cursor] = id\n\t\t\tcursor++\n\t\t}'
r $M 'filters: cpsutil.Filters{\n\t\t\tcpsutil.MaxCount(maxCount),\n\t\t\tcpsutil.MinCount(minCount),\n\t\t},' 'filters: cpsutil.Filters{\n\t\t\tcpsutil.MinCount(minCount),\n\t\t\tcpsutil.MaxCount(maxCount),\n\t\t},'
m $U 'dic.IDFreq(id) < v' 'dic.IDFreq(id) <= v'
m $U '0 < v && v < dic' '0 <= v && v < dic'
m $U 'v < dic.IDFreq(id)' 'v <= dic.IDFreq(id)'
m $U '0 < v && v < dic' '1 < v && v < dic'
m $U 'b = b || fn(id, dic)' 'b = fn(id, dic)'
m $U 'b = b || fn(id, dic)' 'b = b && fn(id, dic)'
m $U 'range f {' 'range f[1:] {'
m $U 'b = b || fn(id, dic)' 'b = b || fn(0, dic)'
r $U 'var b bool\n' '' $U 'b = b || fn(id, dic)\n' 'if fn(id, dic) {\n\t\t\treturn true\n\t\t}\n' $U 'return b\n' 'return false\n'
r $U 'return 0 <= v && dic.IDFreq(id) < v' 'if v < 0 {\n\t\t\treturn false\n\t\t}\n\t\tn := dic.IDFreq(id)\n\t\treturn v > n'
r $U 'for _, fn := range f {\n\t\tb = b || fn(id, dic)' 'for i := range f {\n\t\tb = b || f[i](id, dic)'
r $U 'b = b || fn(id, dic)\n' 'b = b || fn(id, dic)\n\t\tif b {\n\t\t\tbreak\n\t\t}\n'
