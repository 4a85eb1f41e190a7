M="$MUT C15"
S=pkg/search/search.go
$M $S 'if k <= 0 {' 'if k < 0 {' | head -4
$M $S 'uint(i) + 1' 'uint(i)'| head -4
$M $S 'if temp.Similarity > neighbors[i].Similarity {' 'if temp.Similarity < neighbors[i].Similarity {'| head -4
$M $S '				if temp.Similarity > neighbors[i].Similarity {
					temp, neighbors[i] = neighbors[i], temp
					neighbors[i].Rank = uint(i) + 1' '				if temp.Similarity > neighbors[i].Similarity {
					temp.Rank = uint(i) + 1
					neighbors[i] = temp
					break'| head -4
$M $S 'temp, neighbors[i] = neighbors[i], temp' 'neighbors[i] = temp'| head -4
$M $S '					neighbors[i].Rank = uint(i) + 1' '' $S 'Word: item.Word, Similarity: score' 'Word: item.Word, Rank: 1, Similarity: score'| head -4
$M $S '			k = i
			break' '			k = i + 1
			break'| head -4
$M $S 'if neighbors[i].Word == "" {' 'if neighbors[i].Similarity < 0 {'| head -4
$M $S 'for i := 0; i < len(neighbors); i++ {
		if neighbors[i].Word' 'for i := 1; i < len(neighbors); i++ {
		if neighbors[i].Word'| head -4
$M $S '	return neighbors[:k], nil' '	return neighbors, nil'| head -4
$M $S 's.Search(q, k, word)' 's.Search(q, k)'| head -4
$M $S '		_, ok := ignoreWords[item.Word]' '		_, ok := ignoreWords[query.Word]'| head -4
$M $S '		if ok {
			continue' '		if ok && len(ignoreWord) > 1 {
			continue'| head -4
$M $S 'for _, word := range ignoreWord {' 'for _, word := range ignoreWord[1:] {'| head -4
$M $S 'for i := 0; i < len(neighbors); i++ {
				if temp' 'for i := 0; i < len(neighbors)-1; i++ {
				if temp'| head -4
$M $S 'make(Neighbors, k)' 'make(Neighbors, k+1)' $S 'neighbors[:k], nil' 'neighbors[:k+1], nil'| head -4
$M pkg/search/console/console.go 'c.cursor.w2 = yi.Word' 'c.cursor.w2 = xi.Word'| head -4
$M $S 'temp := Neighbor{Word: item.Word, Similarity: score}' 'temp := Neighbor{Word: query.Word, Similarity: score}'| head -4
$M $S '// Guard too' 'neighbors[0].Similarity = 1
	// Guard too' | head -4
$M $S '					temp, neighbors[i] = neighbors[i], temp
' '					temp, neighbors[i] = neighbors[i], temp
					neighbors[i].Similarity = score
' | head -4
