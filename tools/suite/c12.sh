
W=pkg/model/word2vec/word2vec.go; G=pkg/model/glove/glove.go; L=pkg/model/lexvec/lexvec.go; M=pkg/model/modelutil/matrix/matrix.go
echo MUT
$MUT C12 $W 'vec[i] = w.param.Slice(row)[i] + ng.ctx.Slice(row)[i]' 'vec[i] = w.param.Slice(row)[i] + ng.ctx.Slice(row)[0]'
$MUT C12 $W 'typ == vector.Agg && ok' 'typ == vector.Agg || ok' 
$MUT C12 $W 'typ == vector.Agg && ok' 'typ != vector.Single && !ok' 
$MUT C12 $G 'g.param.Slice(row + dic.Len())[i]' 'g.param.Slice(row + dic.Len() - 1)[i]'
$MUT C12 $G 'if typ != vector.Agg {' 'if typ == vector.Agg {'
$MUT C12 $L 'l.param.Slice(row)[i] + l.param.Slice(row + dic.Len())[i]' 'l.param.Slice(row)[i] * l.param.Slice(row + dic.Len())[i]'
$MUT C12 $L 'matrix.New(dic.Len(), l.opts.Dim,' 'matrix.New(2*dic.Len(), l.opts.Dim,'
$MUT C12 $G 'matrix.New(dic.Len(), g.opts.Dim,' 'matrix.New(dic.Len(), g.opts.Dim+1,'
$MUT C12 $M 'return id * m.col' 'return id * m.row'
$MUT C12 $M 'i < row; i++' 'i < row-1; i++'
$MUT C12 $L 'mat = matrix.New(dic.Len(), l.opts.Dim,\n\t\t\tfunc(row int, vec []float64) {\n\t\t\t\tfor i := 0; i < l.opts.Dim; i++ {\n\t\t\t\t\tvec[i] = l.param.Slice(row)[i]\n\t\t\t\t}' 'mat = l.param\n\t\t_ = (\n\t\t\tfunc(row int, vec []float64) {\n\t\t\t\tfor i := 0; i < l.opts.Dim; i++ {\n\t\t\t\t\tvec[i] = l.param.Slice(row)[i]\n\t\t\t\t}'
$MUT C12 $G 'for i := 0; i < g.opts.Dim; i++ {\n\t\t\t\t\tvec[i] = g.param.Slice(row)[i]\n' 'for i := 1; i < g.opts.Dim; i++ {\n\t\t\t\t\tvec[i] = g.param.Slice(row)[i]\n'
$MUT C12 $M 'm.array[start : start+m.col]' 'm.array[start : start+m.row]'
echo REF
$MUT C12 $G 'for i := 0; i < g.opts.Dim; i++ {\n\t\t\t\t\tvec[i] = g.param.Slice(row)[i]\n\t\t\t\t}' 'src := g.param.Slice(row)\n\t\t\t\tfor i := range vec {\n\t\t\t\t\tvec[i] = src[i]\n\t\t\t\t}'
$MUT C12 $G 'for i := 0; i < g.opts.Dim; i++ {\n\t\t\t\t\tvec[i] = g.param.Slice(row)[i]\n\t\t\t\t}' 'copy(vec, g.param.Slice(row))'
$MUT C12 $G 'for i := 0; i < g.opts.Dim; i++ {\n\t\t\t\t\tvec[i] = g.param.Slice(row)[i] + g.param.Slice(row + dic.Len())[i]\n\t\t\t\t}' 'copy(vec, g.param.Slice(row)[:g.opts.Dim])\n\t\t\t\tfor i, v := range g.param.Slice(row + dic.Len())[:g.opts.Dim] {\n\t\t\t\t\tvec[i] += v\n\t\t\t\t}'
$MUT C12 $L 'vec[i] = l.param.Slice(row)[i] + l.param.Slice(row + dic.Len())[i]\n\t\t\t\t}' 'vec[i] = l.param.Slice(row)[i]\n\t\t\t\t\tvec[i] += l.param.Slice(dic.Len() + row)[i]\n\t\t\t\t}'
$MUT C12 $L 'vec[i] = l.param.Slice(row)[i] + l.param.Slice(row + dic.Len())[i]\n\t\t\t\t}' 'addv(vec, l.param.Slice(row), l.param.Slice(row+dic.Len()), i)\n\t\t\t\t}' $L 'func (l *lexvec) WordVector' 'func addv(v, a, b []float64, i int) {\n\tv[i] = a[i] + b[i]\n}\n\nfunc (l *lexvec) WordVector'
$MUT C12 $M 'for i := 0; i < row; i++ {\n\t\tfn(i, mat.Slice(i))' 'for i := range make([]struct{}, row) {\n\t\tfn(i, mat.Slice(i))'
$MUT C12 $M 'start := m.startIndex(id)\n\treturn m.array[start : start+m.col]' 'return m.array[id*m.col : (id+1)*m.col]'
$MUT C12 $M 'start := m.startIndex(id)\n\treturn m.array[start : start+m.col]' 's := m.array[m.startIndex(id):]\n\treturn s[:m.col]'
