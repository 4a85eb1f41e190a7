V=pkg/model/modelutil/vector/vector.go
E=pkg/embedding/embedding.go
m() { echo "MUT $2 $3"; $MUT C24 "$@"; }
r() { echo "REF $2 $3"; $MUT C24 "$@"; }
m $V '"%f "' '"%.3f "'
m $V '"%f "' '"%f"'
m $V '"%f "' '"%.2e "'
m $V '"%v ", word' '"%q ", word'
m $V '"%v ", word' '"%v", word'
m $V 'i := 0; i < dic.Len(); i++' 'i := 1; i < dic.Len(); i++'
m $V 'j < mat.Col()' 'j < mat.Col()-1'
m $V 'mat.Slice(i)[j]' 'mat.Slice(j)[i]'
m $V 'mat.Slice(i)[j]' 'float32(mat.Slice(i)[j])'
m $V 'fmt.Fprintln(&buf)' 'if i > 0 { fmt.Fprintln(&buf) }'
m $V 'fmt.Fprintln(&buf)' 'fmt.Fprintln(&buf)\n\t\tif buf.Len() > 1<<20 { buf.Reset() }'
m $V 'word, _ := dic.Word(i)' 'word, _ := dic.Word(i)\n\t\tif word == "" { continue }'
m $V 'word, _ := dic.Word(i)' 'word, _ := dic.Word(dic.Len()-1-i)'
m $V 'fmt.Sprintf("%v", buf.String())' 'fmt.Sprintf(buf.String())'
m $V 'fmt.Sprintf("%v", buf.String())' 'fmt.Sprintf("%.100v", buf.String())'
m $E 'strings.HasPrefix(line, " ")' 'strings.HasPrefix(line, "#")'
m $E 's.Buffer(nil, math.MaxInt)' 's.Buffer(nil, 1<<20)'
m $E 'len(slice) < 2' 'len(slice) < 3'
m $E 'ParseFloat(elem, 64)' 'ParseFloat(elem, 32)'
m $E 'vec[k] = val' 'vec[dim-1-k] = val'
m $E 'slice[1:]' 'slice[2:]'
m $E 'embs = append(embs, emb)' 'if _, ok := embs.Find(emb.Word); !ok {\n\t\t\tembs = append(embs, emb)\n\t\t}'
m $E 'word := slice[0]' 'word := strings.ToLower(slice[0])'
m $E 'strings.Fields(line)' 'strings.Split(line, " ")'
m $E 'if err != nil {\n\t\t\treturn Embedding{}, err' 'if err != nil {\n\t\t\tcontinue'
m $E 'vec[k] = val' 'if val != 0 {\n\t\t\tvec[k] = val\n\t\t}'
m $E 'vec[k] = val' 'if k > 300 { break }\n\t\tvec[k] = val'
m $E 'embs = append(embs, emb)\n\t\treturn nil' 'embs = append(embs, emb)\n\t\tif len(embs) > 1000000 {\n\t\t\treturn errors.New("too many")\n\t\t}\n\t\treturn nil'
m $E 'embs = append(embs, emb)' 'embs = append(Embeddings{emb}, embs...)'
m $E 'line := s.Text()' 'line := s.Text()\n\t\tif !s.Scan() { break }'
m $E 'if err := op(emb); err != nil {\n\t\t\treturn err' 'if err := op(emb); err != nil {\n\t\t\tcontinue'
m $E 'e.Dim == 0 || len(e.Vector) == 0' 'e.Dim == 0 || len(e.Vector) == 0 || e.Norm == 0'
r $V '"%f "' '"%.8f "'
r $V 'for j := 0; j < mat.Col(); j++ {\n\t\t\tfmt.Fprintf(&buf, "%f ", mat.Slice(i)[j])\n\t\t}' 'for _, x := range mat.Slice(i) {\n\t\t\tfmt.Fprintf(&buf, "%f ", x)\n\t\t}'
r $V 'for j := 0; j < mat.Col(); j++ {\n\t\t\tfmt.Fprintf(&buf, "%f ", mat.Slice(i)[j])\n\t\t}' 'row := mat.Slice(i)\n\t\tfor j := range row {\n\t\t\tfmt.Fprintf(&buf, "%f ", row[j])\n\t\t}'
r $V 'fmt.Sprintf("%v", buf.String())' 'buf.String()'
r $V 'fmt.Fprintln(&buf)' 'buf.WriteString("\\n")'
r $V 'fmt.Fprintf(&buf, "%v ", word)' 'buf.WriteString(word)\n\t\tbuf.WriteByte(32)'
r $V 'fmt.Fprintf(&buf, "%v ", word)' 'buf.WriteString(word + " ")'
r $V 'fmt.Fprintf(&buf, "%f ", mat.Slice(i)[j])' 'buf.WriteString(fmt.Sprintf("%f ", mat.Slice(i)[j]))'
r $V 'var buf bytes.Buffer' 'var buf strings.Builder' $V '"bytes"' '"strings"'
r $V 'for i := 0; i < dic.Len(); i++ {' 'n := dic.Len()\n\tfor i := 0; i < n; i++ {'
r $E 'for k, elem := range vector {\n\t\tval, err := strconv.ParseFloat(elem, 64)' 'for k := 0; k < dim; k++ {\n\t\tval, err := strconv.ParseFloat(vector[k], 64)'
r $E 'for k, elem := range vector {\n\t\tval, err := strconv.ParseFloat(elem, 64)' 'for k := range vec {\n\t\tval, err := strconv.ParseFloat(slice[k+1], 64)'
r $E 'val, err := strconv.ParseFloat(elem, 64)\n\t\tif err != nil {\n\t\t\treturn Embedding{}, err\n\t\t}\n\t\tvec[k] = val' 'var err error\n\t\tif vec[k], err = strconv.ParseFloat(elem, 64); err != nil {\n\t\t\treturn Embedding{}, err\n\t\t}'
r $E 'if strings.HasPrefix(line, " ") {\n\t\t\tcontinue\n\t\t}\n\t\temb, err := parseLine(line)' 'if line == "" || strings.HasPrefix(line, " ") {\n\t\t\tcontinue\n\t\t}\n\t\temb, err := parseLine(line)'
r $E 'if err := emb.Validate(); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tembs = append(embs, emb)\n\t\treturn nil' 'err := emb.Validate()\n\t\tif err == nil {\n\t\t\tembs = append(embs, emb)\n\t\t}\n\t\treturn err'
r $E 'if err := s.Err(); err != nil && err != io.EOF {' 'if err := s.Err(); err != nil {' $E '\t"io"\n' '\t"io"\n' 
r $E '\tdim := len(vector)\n\n\tvec := make([]float64, dim)\n' '\tvec := make([]float64, len(vector))\n\tdim := len(vec)\n'
