m() { echo "MUT $1 $2 $3"; $MUT C08 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C08 "$@"; }
F=pkg/corpus/fs/fs.go; M=pkg/corpus/memory/memory.go; U=pkg/corpus/cpsutil/cpsutil.go; G=pkg/model/glove/glove.go; L=pkg/model/lexvec/lexvec.go
LOOP='for i := 0; i < len(c.idoc); i++ {\n\t\t\tfor j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {'
m $M 'j <= i+with.Window' 'j < i+with.Window'
m $M 'j := i + 1' 'j := i'
m $M 'j := i + 1; j < len(c.idoc)' 'j := i + 1; j < len(c.idoc)-1'
m $M 'for i := 0; i < len(c.idoc); i++' 'for i := 0; i < len(c.idoc)-with.Window; i++'
m $M 'for i := 0; i < len(c.idoc); i++' 'for i := 1; i < len(c.idoc); i++'
m $M 'c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i)' 'c.cooc.Add(c.idoc[i], c.idoc[i+1])'
m $M 'if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {\n\t\t\t\t\treturn err\n' 'if c.idoc[i] == c.idoc[j] {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tif err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {\n\t\t\t\t\treturn err\n'
m $M 'if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {\n\t\t\t\t\treturn err\n' 'if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {\n\t\t\t\t\tbreak\n'
m $M 'if with != nil {' 'if with != nil && len(c.idoc) > with.Window {'
m $M 'c.idoc = append(c.idoc, id)' 'if id > 0 {\n\t\t\tc.idoc = append(c.idoc, id)\n\t\t}'
m $M 'for i := 0; i < len(c.idoc); i++ {' 'for i := 0; i < len(c.idoc); i++ {\n\t\t\tif i == 7 {\n\t\t\t\tc.cooc, _ = co.New(with.CountType)\n\t\t\t}'
m $M 'return c.cooc\n' 'cc, _ := co.New(co.Increment)\n\treturn cc\n'
m $U 'if len(ws) > n {' 'if len(ws) >= n {'
m $U 'if len(ws) > n {' 'if len(ws) > n+1 {'
m $U 'for len(ws) > 0 {' 'for len(ws) > 1 {'
m $U 'for len(ws) > 0 {' 'for len(ws) > n {'
m $U 'for len(ws) > 0 {' 'if len(ws) > 0 {'
m $U 'for i, w := range ws[1:] {' 'for i, w := range ws[:] {'
m $U 'ws = ws[1:]\n' 'ws = ws[:0]\n'
m $U 'range ws[1:] {' 'range ws[2:] {'
m $U 'if err := fn(ws[0], w, i+1); err != nil {' 'if w == ws[0] {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif err := fn(ws[0], w, i+1); err != nil {'
m $U 'fn(ws[0], w, i+1)' 'fn(w, w, i+1)'
m $U 'ws := make([]string, 0)' 'ws := make([]string, 1)'
m $U 'ws = append(ws, scanner.Text())' 'ws = append(ws, scanner.Text())\n\t\tif !scanner.Scan() {\n\t\t\tbreak\n\t\t}'
m $F 'c.cooc.AddWithDistance(id1, id2, distance)' 'c.cooc.AddWithDistance(id1, id1, distance+0*id2)'
m $F 'c.cooc.AddWithDistance(id1, id2, distance); err != nil {' 'c.cooc.AddWithDistance(id1, id2, distance); err != nil && id1 != id2 {'
m $F 'ReadWordWithForwardDistance(c.doc, with.Window,' 'ReadWordWithForwardDistance(c.doc, with.Window-1,'
m $F 'if err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {\n' 'if id1 == 0 && id2 == 0 {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\tif err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {\n'
m $G 'Window:    g.opts.Window' 'Window:    g.opts.Iter'
m $L 'Window:    l.opts.Window' 'Window:    l.opts.Window - 1'
r $M 'for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {' 'for j := i + 1; j <= i+with.Window; j++ {\n\t\t\t\tif j >= len(c.idoc) {\n\t\t\t\t\tbreak\n\t\t\t\t}'
r $M 'for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {\n\t\t\t\tif err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i)' 'for d := 1; d <= with.Window && i+d < len(c.idoc); d++ {\n\t\t\t\tif err = c.cooc.Add(c.idoc[i], c.idoc[i+d])'
r $M 'for i := 0; i < len(c.idoc); i++ {\n\t\t\tfor j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {\n\t\t\t\tif err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i)' 'for i, left := range c.idoc {\n\t\t\tfor j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {\n\t\t\t\tif err = c.cooc.Add(left, c.idoc[j])'
r $M 'for i := 0; i < len(c.idoc); i++ {\n\t\t\tfor j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {\n\t\t\t\tif err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i)' 'for i := 0; i < len(c.idoc); i++ {\n\t\t\tend := i + 1 + with.Window\n\t\t\tif end > len(c.idoc) {\n\t\t\t\tend = len(c.idoc)\n\t\t\t}\n\t\t\tfor _, right := range c.idoc[i+1 : end] {\n\t\t\t\tif err = c.cooc.Add(c.idoc[i], right)'
r $M 'for i := 0; i < len(c.idoc); i++ {\n\t\t\tfor j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {' 'n := len(c.idoc)\n\t\tfor i := 0; i < n-1; i++ {\n\t\t\tfor j := i + 1; j < n && j-i <= with.Window; j++ {'
r $U 'for i, w := range ws[1:] {\n\t\t\tif err := fn(ws[0], w, i+1)' 'for i := 1; i < len(ws); i++ {\n\t\t\tif err := fn(ws[0], ws[i], i)'
r $U 'if len(ws) > n {' 'if len(ws) == n+1 {'
r $U 'ws := make([]string, 0)' 'var ws []string'
r $U 'for len(ws) > 0 {\n\t\tif err' 'for len(ws) != 0 {\n\t\tif err'
r $U 'for i, w := range ws[1:] {\n\t\t\tif err := fn(ws[0], w, i+1)' 'axis := ws[0]\n\t\tfor i, w := range ws[1:] {\n\t\t\tif err := fn(axis, w, i+1)'
r $U 'for scanner.Scan() {\n\t\tws = append(ws, scanner.Text())' 'for scanner.Scan() {\n\t\tword := scanner.Text()\n\t\tws = append(ws, word)'
r $F 'if err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tcursor++' 'cursor++\n\t\t\tif err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {\n\t\t\t\treturn err\n\t\t\t}'
r $M 'if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i)' 'a, b := c.idoc[i], c.idoc[j]\n\t\t\t\tif err = c.cooc.Add(a, b)'
r $M 'for i := 0; i < len(c.idoc); i++ {\n\t\t\tfor j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {' 'for i := 0; i < len(c.idoc); i++ {\n\t\t\tfor j := i - with.Window; j < i; j++ {\n\t\t\t\tif j < 0 {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n'
