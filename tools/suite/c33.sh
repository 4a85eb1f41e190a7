m() { echo "MUT $1 $2 $3"; $MUT C33 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C33 "$@"; }
S=pkg/search/search.go; U=pkg/search/searchutil/searchutil.go; E=pkg/embedding/embedding.go; N=pkg/embedding/embutil/embutil.go; C=pkg/search/console/console.go
m $U 'dot / n1 / n2' 'dot / n1'
m $U 'dot / n1 / n2' 'dot / n1 * n2'
m $U 'dot / n1 / n2' 'dot / n1 / n1'
m $U 'for i := range v1 {' 'for i := 1; i < len(v1); i++ {'
m $U 'for i := range v1 {' 'for i := 0; i < len(v1)-1; i++ {'
m $U 'for i := range v1 {' 'for i := 0; i < len(v1); i += 2 {'
m $U 'dot += v1[i] * v2[i]' 'dot = v1[i] * v2[i]'
m $U 'dot += v1[i] * v2[i]' 'dot += v1[i] * v1[i]'
m $U 'dot += v1[i] * v2[i]' 'if v1[i] > 0 {\n\t\t\tdot += v1[i] * v2[i]\n\t\t}'
m $U 'dot += v1[i] * v2[i]' 'dot += v1[i] * v2[len(v2)-1-i]'
m $U 'n1 == 0 || n2 == 0' 'n1 < 1 || n2 == 0'
m $U 'var dot float64' 'dot := 1.0'
m $U 'dot / n1 / n2' 'dot / (n1 + n2)'
m $S 'query.Norm, item.Norm)' 'query.Norm, query.Norm)'
m $S 'item.Vector, query.Norm, item.Norm)' 'query.Vector, query.Norm, item.Norm)'
m $N 'return math.Sqrt(n)' 'return math.Abs(n)'
m $N 'n += v * v' 'n += v'
m $N 'for _, v := range vec {' 'for _, v := range vec[1:] {'
m $N 'return math.Sqrt(n)' 'return math.Sqrt(n) / float64(len(vec))'
m $N 'return math.Sqrt(n)' 'return math.Max(math.Sqrt(n), 1)'
m $E 'vec := make([]float64, dim)\n' 'vec := make([]float64, dim)\n\tnorm := embutil.Norm(vec)\n' $E 'embutil.Norm(vec),' 'norm,'
m $E '\t\tNorm:   embutil.Norm(vec),\n' '' $E '\t"github.com/ynqa/wego/pkg/embedding/embutil"\n' ''
m $S '\t\tNorm:   embutil.Norm(query),\n' '\t\tNorm: 1,\n' $S '\t"github.com/ynqa/wego/pkg/embedding/embutil"\n' ''
m $C 'Norm:   embutil.Norm(c.cursor.vector)' 'Norm:   embutil.Norm(c.searcher.Items[0].Vector)'
m $S 'Similarity: score}' 'Similarity: score * score}'
m $S 'Similarity: score}' 'Similarity: 1 - score}'
r $U 'dot / n1 / n2' 'dot / (n1 * n2)'
r $U 'dot / n1 / n2' 'dot * (1 / n1) * (1 / n2)'
r $U 'for i := range v1 {' 'for i := 0; i < len(v1); i++ {'
r $U 'for i := range v1 {' 'for i := len(v1) - 1; i >= 0; i-- {'
r $U 'for i := range v1 {\n\t\tdot += v1[i] * v2[i]\n' 'for i, x := range v1 {\n\t\tdot = dot + v2[i]*x\n'
r $U 'for i := range v1 {\n\t\tdot += v1[i] * v2[i]\n\t}\n\treturn dot / n1 / n2\n}' 'dot = inner(v1, v2)\n\treturn dot / n1 / n2\n}\n\nfunc inner(a, b []float64) (s float64) {\n\tfor i := range a {\n\t\ts += a[i] * b[i]\n\t}\n\treturn\n}'
r $U 'if n1 == 0 || n2 == 0 {\n\t\treturn 0\n\t}\n\tvar dot' 'if n1 == 0 {\n\t\treturn 0\n\t}\n\tif n2 == 0 {\n\t\treturn 0\n\t}\n\tvar dot'
r $U 'if n1 == 0 || n2 == 0 {' 'if n1*n2 == 0 {'
r $U 'return dot / n1 / n2' 'cos := dot / n1\n\tcos /= n2\n\treturn cos'
r $N 'return math.Sqrt(n)' 'return math.Pow(n, 0.5)'
r $N 'for _, v := range vec {\n\t\tn += v * v' 'for i := range vec {\n\t\tn += vec[i] * vec[i]'
r $N 'n += v * v' 'n += math.Pow(v, 2)'
r $E 'return Embedding{\n\t\tWord:   word,\n\t\tDim:    dim,\n\t\tVector: vec,\n\t\tNorm:   embutil.Norm(vec),\n\t}, nil\n}' 'return newEmbedding(word, vec), nil\n}\n\nfunc newEmbedding(w string, vec []float64) Embedding {\n\treturn Embedding{Word: w, Dim: len(vec), Vector: vec, Norm: embutil.Norm(vec)}\n}'
r $E 'return Embedding{\n\t\tWord:   word,\n\t\tDim:    dim,\n\t\tVector: vec,\n\t\tNorm:   embutil.Norm(vec),\n\t}, nil\n}' 'var e Embedding\n\te.Norm = embutil.Norm(vec)\n\te.Vector = vec\n\te.Word, e.Dim = word, dim\n\treturn e, nil\n}'
r $E 'vec := make([]float64, dim)\n\tfor k, elem := range vector {' 'vec := make([]float64, 0, dim)\n\tfor _, elem := range vector {' $E 'vec[k] = val' 'vec = append(vec, val)'
r $E 'vec := make([]float64, dim)\n' 'vec := make([]float64, dim)\n\tvar sq float64\n' $E 'vec[k] = val' 'vec[k] = val\n\t\tsq += val * val' $E 'embutil.Norm(vec),' 'math.Sqrt(sq),' $E '\t"github.com/ynqa/wego/pkg/embedding/embutil"\n' ''
r $S 'return s.Search(embedding.Embedding{\n\t\tVector: query,\n\t\tNorm:   embutil.Norm(query),\n\t}, k)' 'q := embedding.Embedding{\n\t\tVector: query,\n\t}\n\tq.Norm = embutil.Norm(q.Vector)\n\treturn s.Search(q, k)'
r $S 'score := searchutil.Cosine(query.Vector, item.Vector, query.Norm, item.Norm)' 'score := searchutil.Cosine(item.Vector, query.Vector, item.Norm, query.Norm)'
r $S 'score := searchutil.Cosine(query.Vector, item.Vector, query.Norm, item.Norm)' 'score := score(query, item)' $S 'func (s *Searcher) Search(' 'func score(q, i embedding.Embedding) float64 {\n\treturn searchutil.Cosine(q.Vector, i.Vector, q.Norm, i.Norm)\n}\n\nfunc (s *Searcher) Search('
r $S 'temp := Neighbor{Word: item.Word, Similarity: score}' 'var temp Neighbor\n\ttemp.Word = item.Word\n\ttemp.Similarity = score'
r $S 'for _, item := range s.Items {\n\t\t// Drop' 'for j := range s.Items {\n\t\titem := s.Items[j]\n\t\t// Drop'
