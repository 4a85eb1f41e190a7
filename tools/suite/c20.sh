N=pkg/corpus/dictionary/node/node.go; H=pkg/corpus/dictionary/huffman.go; O=pkg/model/word2vec/optimizer.go

m() { $MUT C20 "$@"; }
echo MUT
m $N 'depth > len(n.cache)' 'depth > len(n.cache)+1'
m $N 'depth <= 0' 'depth < 0'
m $N 'depth <= 0 || depth > len(n.cache)' 'depth <= 1 || depth > len(n.cache)'
m $N 'depth <= 0 || depth > len(n.cache)' 'depth <= 0 || depth >= len(n.cache)-1'
m $N 'return n.cache[:depth]' 'return n.cache[len(n.cache)-depth:]'
m $N 'p != nil; p = p.Parent' 'p != nil && p.Parent != nil; p = p.Parent'
m $N 're(n.cache)' 're(n.cache[1:])'
m $N 're(n.cache)' 'if len(n.cache) > 2 {\n\t\t\tre(n.cache)\n\t\t}'
m $N 'i < j; i, j' 'i < j-1; i, j'
m $N 'p := n; p' 'p := n.Parent; p'
m $N 'n.cache = append(n.cache, p)' 'n.cache = append(n.cache, p)\n\t\t\tif len(n.cache) == 40 {\n\t\t\t\tbreak\n\t\t\t}'
m $N 'make([]*Node, 0)' 'make([]*Node, 1)'
m $H 'left.Code, right.Code = 0, 1' 'left.Code, right.Code = 1, 1'
m $H 'left.Code, right.Code = 0, 1' 'if left.Val < right.Val {\n\t\t\tleft.Code, right.Code = 0, 1\n\t\t}'
m $H 'left.Parent, right.Parent = merged, merged' 'left.Parent, right.Parent = merged, left'
m $H 'nodes[0], nodes[1]' 'nodes[0], nodes[len(nodes)-1]'
m $H 'nodes = nodes[2:]' 'nodes = nodes[1:]'
m $H 'len(nodes) > 1' 'len(nodes) > 2'
m $H 'set[i] = n' 'set[i] = nodes[0]'
m $H 'copy(nodes[idx+1:], nodes[idx:])' 'copy(nodes[idx:], nodes[idx+1:])'
m $H 'copy(nodes[idx+1:], nodes[idx:])' ''
m $H 'nodes[idx] = merged' 'nodes[len(nodes)-1] = merged'
m $H 'sort.SliceStable(nodes,' 'sort.SliceStable(set,'
m $H 'i < d.maxid; i++' 'i < d.maxid-1; i++'
m $H 'return set' 'return nodes'
m $O 'GetPath(opt.maxDepth)' 'GetPath(len(ctx))'
m $O 'maxDepth: opts.MaxDepth' 'maxDepth: opts.Dim'
m $O 'path[i+1].Code' 'path[i].Code'
m $O 'i < len(path)-1' 'i < len(path)-2'
m $O 'for i := 0; i < len(path)' 'for i := 1; i < len(path)'
m $O 'p := path[i]' 'p := path[i]\n\t\tif p.Val > 100 {\n\t\t\tcontinue\n\t\t}'
m $O 'g := (1.0 - float64(childCode)' 'path[i+1].Code = childCode & 1\n\t\tg := (1.0 - float64(childCode)'
m $H 'n := &node.Node{\n\t\t\tVal: d.IDFreq(i),\n\t\t}' 'f := d.IDFreq(i)\n\t\tvar n *node.Node\n\t\tif i > 0 && f == 0 {\n\t\t\tn = set[i-1]\n\t\t} else {\n\t\t\tn = &node.Node{Val: f}\n\t\t}'
m $N 'if depth <= 0 || depth > len(n.cache) {\n\t\tdepth = len(n.cache)\n\t}' 'if depth == 0 || depth > len(n.cache) {\n\t\tdepth = len(n.cache)\n\t}'
m $N 'if depth <= 0 || depth > len(n.cache) {\n\t\tdepth = len(n.cache)\n\t}' 'if depth <= 0 {\n\t\tdepth = len(n.cache)\n\t}'
echo REF
m $N 'if depth <= 0 || depth > len(n.cache) {\n\t\tdepth = len(n.cache)\n\t}\n\treturn n.cache[:depth]' 'if depth > 0 && depth < len(n.cache) {\n\t\treturn n.cache[:depth]\n\t}\n\treturn n.cache'
m $N 'if depth <= 0 || depth > len(n.cache) {\n\t\tdepth = len(n.cache)\n\t}\n\treturn n.cache[:depth]' 'l := len(n.cache)\n\tif depth <= 0 {\n\t\treturn n.cache\n\t}\n\treturn n.cache[:min(depth, l)]'
m $N 'for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {\n\t\t\t\tnodes[i], nodes[j] = nodes[j], nodes[i]' 'for i := 0; i < len(nodes)/2; i++ {\n\t\t\t\tj := len(nodes) - 1 - i\n\t\t\t\tnodes[i], nodes[j] = nodes[j], nodes[i]'
m $N 'for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {\n\t\t\t\tnodes[i], nodes[j] = nodes[j], nodes[i]' 'for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {\n\t\t\t\ttmp := nodes[i]\n\t\t\t\tnodes[i] = nodes[j]\n\t\t\t\tnodes[j] = tmp'
m $N 'n.cache = make([]*Node, 0)\n\t\tfor p := n; p != nil; p = p.Parent {\n\t\t\tn.cache = append(n.cache, p)\n\t\t}\n\t\tre(n.cache)' 'var chain []*Node\n\t\tfor p := n; p != nil; p = p.Parent {\n\t\t\tchain = append(chain, p)\n\t\t}\n\t\tre(chain)\n\t\tn.cache = chain'
m $N 'n.cache = make([]*Node, 0)\n\t\tfor p := n; p != nil; p = p.Parent {\n\t\t\tn.cache = append(n.cache, p)\n\t\t}\n\t\tre(n.cache)' 'p := n\n\t\tfor {\n\t\t\tif p == nil {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tn.cache = append(n.cache, p)\n\t\t\tp = p.Parent\n\t\t}\n\t\tre(n.cache)'
m $H 'nodes = append(nodes, &node.Node{})\n\t\tcopy(nodes[idx+1:], nodes[idx:])\n\t\tnodes[idx] = merged' 'rest := append([]*node.Node{merged}, nodes[idx:]...)\n\t\tnodes = append(nodes[:idx], rest...)'
m $H 'nodes = append(nodes, &node.Node{})' 'nodes = append(nodes, nil)'
m $H 'left.Code, right.Code = 0, 1\n\t\tleft.Parent, right.Parent = merged, merged' 'for code, child := range []*node.Node{left, right} {\n\t\t\tchild.Code = code\n\t\t\tchild.Parent = merged\n\t\t}'
m $H 'left.Code, right.Code = 0, 1\n\t\tleft.Parent, right.Parent = merged, merged' 'attach(left, merged, 0)\n\t\tattach(right, merged, 1)' $H 'func (d *Dictionary) HuffnamTree' 'func attach(n, parent *node.Node, code int) {\n\tn.Code = code\n\tn.Parent = parent\n}\n\nfunc (d *Dictionary) HuffnamTree'
m $H 'n := &node.Node{\n\t\t\tVal: d.IDFreq(i),\n\t\t}' 'n := newLeaf(d.IDFreq(i))' $H 'func (d *Dictionary) HuffnamTree' 'func newLeaf(v int) *node.Node { return &node.Node{Val: v} }\n\nfunc (d *Dictionary) HuffnamTree'
m $H 'for i := 0; i < d.maxid; i++ {' 'for i := range set {'
m $H 'make([]*node.Node, d.maxid)' 'make([]*node.Node, d.Len())'
m $O 'for i := 0; i < len(path)-1; i++ {\n\t\tp := path[i]\n\t\tchildCode := path[i+1].Code' 'for i := 1; i < len(path); i++ {\n\t\tp := path[i-1]\n\t\tchildCode := path[i].Code'
m $O 'for i := 0; i < len(path)-1; i++ {\n\t\tp := path[i]\n' 'for i, p := range path[:len(path)-1] {\n'
m $O 'inner <= -opt.sigtable.maxExp || inner >= opt.sigtable.maxExp {\n\t\t\treturn' 'inner <= -opt.sigtable.maxExp || inner >= opt.sigtable.maxExp {\n\t\t\tbreak'
m $O 'path := opt.nodeset[id].GetPath(opt.maxDepth)\n' 'leaf := opt.nodeset[id]\n\tpath := leaf.GetPath(opt.maxDepth)\n\tlast := len(path) - 1\n' $O 'i < len(path)-1' 'i < last'
m $H 'nodes[i] = n\n\t\tset[i] = n' 'set[i] = n' $H '\tsort.SliceStable' '\tcopy(nodes, set)\n\tsort.SliceStable'
