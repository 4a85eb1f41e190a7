M="$MUT C15,C16,C03"
S=pkg/search/search.go
$M $S '			for i := 0; i < len(neighbors); i++ {
				if temp.Similarity > neighbors[i].Similarity {
					temp, neighbors[i] = neighbors[i], temp
					neighbors[i].Rank = uint(i) + 1
				}
			}' '			insert(neighbors, temp)' $S 'func (s *Searcher) Search(' 'func insert(ns Neighbors, temp Neighbor) {
	for i := range ns {
				if temp.Similarity > ns[i].Similarity {
					ns[i], temp = temp, ns[i]
					ns[i].Rank = uint(i + 1)
				}
			}
}

func (s *Searcher) Search('
$M $S '	for i := 0; i < len(neighbors); i++ {
		if neighbors[i].Word == "" {
			k = i
			break
		}
	}

	return neighbors[:k], nil' '	return trim(neighbors), nil' $S 'func (s *Searcher) Search(' 'func trim(ns Neighbors) Neighbors {
	for i, n := range ns {
		if n.Word == "" {
			return ns[:i]
		}
	}
	return ns
}

func (s *Searcher) Search('
$M $S '	for i := 0; i < len(neighbors); i++ {
		if neighbors[i].Word == "" {
			k = i
			break
		}
	}
' '	for k > 0 && neighbors[k-1].Word == "" { k-- }
'
$M $S '		_, ok := ignoreWords[item.Word]
		if ok {
			continue
		}' '		if ignored(ignoreWords, item.Word) {
			continue
		}'  $S 'func (s *Searcher) Search(' 'func ignored(m map[string]int, w string) bool { _, ok := m[w]; return ok }
func (s *Searcher) Search('
$M $S 'make(map[string]int, len(ignoreWord))' 'make(map[string]bool, len(ignoreWord))' $S 'ignoreWords[word] = 0' 'ignoreWords[word] = true' $S '		_, ok := ignoreWords[item.Word]
		if ok {' '		if ignoreWords[item.Word] {' 
$M $S 'make(map[string]int, len(ignoreWord))' 'make(map[string]struct{})' $S 'ignoreWords[word] = 0' 'ignoreWords[word] = struct{}{}'
$M $S '		// ignore current word if it'"'"'s similarity is below the lowest score.
		if score > low {' '		if score <= low {
			continue
		}
		{' 
$M $S '					temp, neighbors[i] = neighbors[i], temp
' '					old := neighbors[i]
					neighbors[i] = temp
					temp = old
'
$M $S '			for i := 0; i < len(neighbors); i++ {
				if temp.Similarity > neighbors[i].Similarity {
					temp, neighbors[i] = neighbors[i], temp
					neighbors[i].Rank = uint(i) + 1
				}
			}' '			for i := range neighbors {
				if temp.Similarity <= neighbors[i].Similarity {
					continue
				}
				n := &neighbors[i]
				temp, *n = *n, temp
				n.Rank = uint(i) + 1
			}'
$M $S '	for _, word := range ignoreWord {
		ignoreWords[word] = 0
	}' '	for i := 0; i < len(ignoreWord); i++ {
		ignoreWords[ignoreWord[i]] = i
	}'
$M $S '	ignoreWords := make(map[string]int, len(ignoreWord))
	for _, word := range ignoreWord {
		ignoreWords[word] = 0
	}' '	ignoreWords := set(ignoreWord)'  $S 'func (s *Searcher) Search(' 'func set(ws []string) map[string]int { 
	m := make(map[string]int, len(ws))
	for _, word := range ws {
		m[word] = 0
	}
	return m
}
func (s *Searcher) Search('
$M $S 'temp := Neighbor{Word: item.Word, Similarity: score}' 'temp := newN(item.Word, score)'  $S 'func (s *Searcher) Search(' 'func newN(w string, s float64) Neighbor { return Neighbor{Word: w, Similarity: s} }
func (s *Searcher) Search('
$M $S 'neighbors, err := s.Search(q, k, word)' 'neighbors, err := s.Search(q, k, q.Word)'
$M $S '		_, ok := ignoreWords[item.Word]
		if ok {
			continue
		}' '		if has(ignoreWord, item.Word) {
			continue
		}'  $S 'func (s *Searcher) Search(' 'func has(ws []string, w string) bool { for _, x := range ws { if x == w { return true } } ; return false }
func (s *Searcher) Search('
