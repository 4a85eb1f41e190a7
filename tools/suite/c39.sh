m() { echo "MUT $1 $2 $3"; $MUT C39 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C39 "$@"; }
S=pkg/search/search.go
r $S '			for i := 0; i < len(neighbors); i++ {
				if temp.Similarity > neighbors[i].Similarity {
					temp, neighbors[i] = neighbors[i], temp
					neighbors[i].Rank = uint(i) + 1
				}
			}' '			insert(neighbors, temp)' $S 'func (s *Searcher) Search(' 'func insert(ns Neighbors, temp Neighbor) {
	for i := range ns {
				if temp.Similarity > ns[i].Similarity {
					ns[i], temp = temp, ns[i]
					ns[i].Rank = uint(i + 1)
				}
			}
}

func (s *Searcher) Search('
r $S '	for i := 0; i < len(neighbors); i++ {
		if neighbors[i].Word == "" {
			k = i
			break
		}
	}

	return neighbors[:k], nil' '	return trim(neighbors), nil' $S 'func (s *Searcher) Search(' 'func trim(ns Neighbors) Neighbors {
	for i, n := range ns {
		if n.Word == "" {
			return ns[:i]
		}
	}
	return ns
}

func (s *Searcher) Search('
r $S '	for i := 0; i < len(neighbors); i++ {
		if neighbors[i].Word == "" {
			k = i
			break
		}
	}
' '	for k > 0 && neighbors[k-1].Word == "" { k-- }
'
r $S '		_, ok := ignoreWords[item.Word]
		if ok {
			continue
		}' '		if ignored(ignoreWords, item.Word) {
			continue
		}'  $S 'func (s *Searcher) Search(' 'func ignored(m map[string]int, w string) bool { _, ok := m[w]; return ok }
func (s *Searcher) Search('
r $S 'make(map[string]int, len(ignoreWord))' 'make(map[string]bool, len(ignoreWord))' $S 'ignoreWords[word] = 0' 'ignoreWords[word] = true' $S '		_, ok := ignoreWords[item.Word]
		if ok {' '		if ignoreWords[item.Word] {' 
r $S 'make(map[string]int, len(ignoreWord))' 'make(map[string]struct{})' $S 'ignoreWords[word] = 0' 'ignoreWords[word] = struct{}{}'
r $S '		// ignore current word if it'"'"'s similarity is below the lowest score.
		if score > low {' '		if score <= low {
			continue
		}
		{' 
r $S '					temp, neighbors[i] = neighbors[i], temp
' '					old := neighbors[i]
					neighbors[i] = temp
					temp = old
'
r $S '			for i := 0; i < len(neighbors); i++ {
				if temp.Similarity > neighbors[i].Similarity {
					temp, neighbors[i] = neighbors[i], temp
					neighbors[i].Rank = uint(i) + 1
				}
			}' '			for i := range neighbors {
				if temp.Similarity <= neighbors[i].Similarity {
					continue
				}
				n := &neighbors[i]
				temp, *n = *n, temp
				n.Rank = uint(i) + 1
			}'
r $S '	for _, word := range ignoreWord {
		ignoreWords[word] = 0
	}' '	for i := 0; i < len(ignoreWord); i++ {
		ignoreWords[ignoreWord[i]] = i
	}'
r $S '	ignoreWords := make(map[string]int, len(ignoreWord))
	for _, word := range ignoreWord {
		ignoreWords[word] = 0
	}' '	ignoreWords := set(ignoreWord)'  $S 'func (s *Searcher) Search(' 'func set(ws []string) map[string]int { 
	m := make(map[string]int, len(ws))
	for _, word := range ws {
		m[word] = 0
	}
	return m
}
func (s *Searcher) Search('
r $S 'temp := Neighbor{Word: item.Word, Similarity: score}' 'temp := newN(item.Word, score)'  $S 'func (s *Searcher) Search(' 'func newN(w string, s float64) Neighbor { return Neighbor{Word: w, Similarity: s} }
func (s *Searcher) Search('
r $S 'neighbors, err := s.Search(q, k, word)' 'neighbors, err := s.Search(q, k, q.Word)'
r $S '		_, ok := ignoreWords[item.Word]
		if ok {
			continue
		}' '		if has(ignoreWord, item.Word) {
			continue
		}'  $S 'func (s *Searcher) Search(' 'func has(ws []string, w string) bool { for _, x := range ws { if x == w { return true } } ; return false }
func (s *Searcher) Search('

m $S 'low := .0' 'low := 0.1'
m $S 'if score > low {' 'if score > low+0.01 {'
m $S 'if score > low {' 'if score > low && score < 1 {'
m $S 'if score > low {' 'if score > low && item.Norm > 1 {'
m $S 'if score > low {' 'if score > low && item.Word != "the" {'
m $S 'low = neighbors[len(neighbors)-1].Similarity' 'low = neighbors[0].Similarity'
m $S 'low = neighbors[len(neighbors)-1].Similarity' 'low = neighbors[len(neighbors)/2].Similarity'
m $S 'low = neighbors[len(neighbors)-1].Similarity' 'low = score'
m $S 'for _, item := range s.Items {\n\t\t// Drop' 'for _, item := range s.Items[1:] {\n\t\t// Drop'
m $S 'for _, item := range s.Items {\n\t\t// Drop' 'for i := 0; i < len(s.Items); i += 2 {\n\t\titem := s.Items[i]\n\t\t// Drop'
m $S 'low = neighbors[len(neighbors)-1].Similarity' 'low = neighbors[len(neighbors)-1].Similarity\n\t\t\tif low >= 1 {\n\t\t\t\tbreak\n\t\t\t}'
m $S 'low = neighbors[len(neighbors)-1].Similarity' 'low = neighbors[len(neighbors)-1].Similarity\n\t\t\tif low > 0 {\n\t\t\t\tbreak\n\t\t\t}'
m $S 'temp, neighbors[i] = neighbors[i], temp\n' 'neighbors[i] = temp\n'
m $S 'if temp.Similarity > neighbors[i].Similarity {' 'if temp.Word == neighbors[i].Word {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tif temp.Similarity > neighbors[i].Similarity {'
m $S 'for i := 0; i < len(neighbors); i++ {\n\t\t\t\tif' 'for i := 0; i < len(neighbors)-1; i++ {\n\t\t\t\tif'
m $S 'neighbors := make(Neighbors, k)' 'neighbors := make(Neighbors, k+1)'
m $S 'if neighbors[i].Word == "" {' 'if neighbors[i].Similarity < 0.1 {'
m $S 'return neighbors[:k], nil' 'return neighbors[:k-1], nil'
m $S 'return neighbors[:k], nil' 'return neighbors[1:k], nil'
m $S 'if ok {\n\t\t\tcontinue' 'if ok || strings.HasPrefix(item.Word, "_") {\n\t\t\tcontinue' $S '"github.com/pkg/errors"' '"strings"\n\n\t"github.com/pkg/errors"'
m $S 'if ok {\n\t\t\tcontinue' 'if ok || len(item.Word) < len(ignoreWords) {\n\t\t\tcontinue'
m $S 'if ok {\n\t\t\tcontinue' 'if ok || item.Norm == 0 {\n\t\t\tcontinue'
m $S 'score := searchutil.Cosine' 'if len(s.Items) > 1000 && item.Word == "" {\n\t\t\tcontinue\n\t\t}\n\t\tscore := searchutil.Cosine'
m $S 'for _, item := range s.Items {\n\t\t// Drop' 'seen := map[string]bool{}\n\tfor _, item := range s.Items {\n\t\tif seen[item.Word] {\n\t\t\tcontinue\n\t\t}\n\t\tseen[item.Word] = true\n\t\t// Drop'
r $S 'for _, item := range s.Items {\n\t\t// Drop' 'for i := range s.Items {\n\t\titem := s.Items[i]\n\t\t// Drop'
r $S 'for _, item := range s.Items {\n\t\t// Drop' 'for i := 0; i < len(s.Items); i++ {\n\t\titem := &s.Items[i]\n\t\t// Drop'
r $S 'low = neighbors[len(neighbors)-1].Similarity' 'low = neighbors[k-1].Similarity'
r $S 'if score > low {' 'if low < score {'
r $S 'if score > low {' 'if score > neighbors[k-1].Similarity {' $S '	// Keep track of lowest similarity score.\n\tlow := .0\n' '' $S '			// # neighbors is aways sorted.\n\t\t\tlow = neighbors[len(neighbors)-1].Similarity\n' ''
r $S 'ignoreWords := make' 'items := s.Items\n\tignoreWords := make' $S 'for _, item := range s.Items {\n\t\t// Drop' 'for _, item := range items {\n\t\t// Drop'
r $S 'temp := Neighbor{Word: item.Word, Similarity: score}' 'var temp Neighbor\n\t\t\ttemp.Word = item.Word\n\t\t\ttemp.Similarity = score'
r $S '		if score > low {\n' '		if !(score > low) {\n\t\t\tcontinue\n\t\t}\n\t\tif true {\n'
m $S '	for i := 0; i < len(neighbors); i++ {
		if neighbors[i].Word == "" {
			k = i
			break
		}
	}
' '	for k > 0 && neighbors[k-1].Word != "" { k-- }
'
m $S '	for i := 0; i < len(neighbors); i++ {
		if neighbors[i].Word == "" {
			k = i
			break
		}
	}
' '	for k > 0 && neighbors[k-1].Word == "" { k-- }; if k > 0 { k-- }
'
m $S '	for i := 0; i < len(neighbors); i++ {
		if neighbors[i].Word == "" {
			k = i
			break
		}
	}
' '	for k > 0 && neighbors[0].Word == "" { k-- }; if neighbors[0].Rank == 7 { k = 0 }
'
