M=pkg/corpus/memory/memory.go; U=pkg/corpus/cpsutil/cpsutil.go; F=pkg/corpus/fs/fs.go
r(){ echo "REF $*"; $MUT C08,C07,C14,C32,C01,C03,C10 "$@" 2>&1; }
r $M 'for i := 0; i < len(c.idoc); i++ {\n\t\t\tfor j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {\n\t\t\t\tif err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t\tcursor++\n\t\t\t\tverbose.Do(func() {\n\t\t\t\t\tif cursor%logBatch == 0 {\n\t\t\t\t\t\tfmt.Printf("read %d tuples %v\\r", cursor, clk.AllElapsed())\n\t\t\t\t\t}\n\t\t\t\t})\n\t\t\t}\n\t\t}\n' 'if err := c.countPairs(with.Window, func() {\n\t\t\tcursor++\n\t\t}); err != nil {\n\t\t\treturn err\n\t\t}\n' $M 'func (c *Corpus) Len() int {' 'func (c *Corpus) countPairs(window int, tick func()) error {\n\tfor i, left := range c.idoc {\n\t\tfor j := i + 1; j < len(c.idoc) && j <= i+window; j++ {\n\t\t\tif err := c.cooc.Add(left, c.idoc[j]); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\ttick()\n\t\t}\n\t}\n\treturn nil\n}\n\nfunc (c *Corpus) Len() int {'
r $U '	postFn := func() error {\n\t\tfor i, w := range ws[1:] {\n\t\t\tif err := fn(ws[0], w, i+1); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n\t\tws = ws[1:]\n\t\treturn nil\n\t}\n' '' $U 'if err := postFn(); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n' 'if err := pairFirst(ws, fn); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tws = ws[1:]\n\t\t}\n' $U 'for len(ws) > 0 {\n\t\tif err := postFn(); err != nil {\n\t\t\treturn err\n\t\t}\n' 'for len(ws) > 0 {\n\t\tif err := pairFirst(ws, fn); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tws = ws[1:]\n' $U 'type Filters []FilterFn' 'func pairFirst(ws []string, fn func(string, string, int) error) error {\n\taxis := ws[0]\n\tfor i, w := range ws[1:] {\n\t\tif err := fn(axis, w, i+1); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\treturn nil\n}\n\ntype Filters []FilterFn'
r $F 'if err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {' 'err := c.cooc.AddWithDistance(id1, id2, distance)\n\t\t\tif err != nil {'
