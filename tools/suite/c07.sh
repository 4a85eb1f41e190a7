m() { echo "MUT $1 $2 $3"; $MUT C07 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C07 "$@"; }
F=pkg/corpus/fs/fs.go; M=pkg/corpus/memory/memory.go; U=pkg/corpus/cpsutil/cpsutil.go; W=pkg/model/word2vec/word2vec.go
m $F 'if c.toLower {\n\t\t\tword = strings.ToLower(word)\n\t\t}\n\n\t\tid, _' 'id, _'
m $F 'w1, w2 = strings.ToLower(w1), strings.ToLower(w2)' 'w1, w2 = strings.ToLower(w1), strings.ToLower(w1)\n\t\t\t\tw2 = w1'
m $F 'w1, w2 = strings.ToLower(w1), strings.ToLower(w2)' 'w1 = strings.ToLower(w1)'
m $F 'c.dic.Add(word)' 'c.dic.Add(strings.TrimSpace(word))'
m $M 'if c.toLower {' 'if c.toLower && len(word) < 100 {'
m $M 'if c.toLower {' 'if !c.toLower {'
m $M 'strings.ToLower(word)' 'strings.ToUpper(word)'
m $U 'ws = append(ws, scanner.Text())' 'ws = append(ws, strings.ToLower(scanner.Text()))' $U '"io"' '"io"\n\t"strings"'
m $U 'fn(scanner.Text())' 'fn(strings.Title(scanner.Text()))' $U '"io"' '"io"\n\t"strings"'
m $F 'toLower: toLower,' 'toLower: toLower && maxCount > 0,'
m $W 'opts.ToLower' 'opts.Verbose'
r $F 'if c.toLower {\n\t\t\tword = strings.ToLower(word)\n\t\t}\n\n\t\tid, _ := c.dic.ID(word)' 'id, _ := c.dic.ID(c.norm(word))' $F 'func (c *Corpus) IndexedDoc' 'func (c *Corpus) norm(w string) string {\n\tif c.toLower {\n\t\treturn strings.ToLower(w)\n\t}\n\treturn w\n}\n\nfunc (c *Corpus) IndexedDoc'
r $M 'c.dic.Add(word)\n' 'c.dic.Add([]string{word}...)\n'
r $F 'w1, w2 = strings.ToLower(w1), strings.ToLower(w2)' 'w1 = strings.ToLower(w1)\n\t\t\t\tw2 = strings.ToLower(w2)'
r $F 'if c.toLower {\n\t\t\tword = strings.ToLower(word)\n\t\t}\n\n\t\tid, _' 'lower := c.toLower\n\t\tif lower {\n\t\t\tword = strings.ToLower(word)\n\t\t}\n\n\t\tid, _'
