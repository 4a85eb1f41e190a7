M="$MUT C13"
S=pkg/corpus/dictionary/dictionary.go
$M $S 'if id >= d.maxid {
		return ""' 'if id > d.maxid {
		return ""' | head -4
$M $S 'if id >= d.maxid {
		return 0' 'if id > d.maxid {
		return 0' | head -4
$M $S 'd.cfs[id]++' 'd.cfs[id] = id+1' | head -4
$M $S 'd.cfs = append(d.cfs, 1)' 'd.cfs = append(d.cfs, 0)' | head -4
$M $S 'd.word2id[word] = d.maxid' 'd.word2id[word] = d.maxid + 1' | head -4
$M $S 'd.id2word = append(d.id2word, word)' 'd.id2word = append(d.id2word, words[0])' | head -4
$M $S '	for _, word := range words {' '	for _, word := range words {
		if word == "" { continue }' | head -4
$M $S '	for _, word := range words {' '	for i, word := range words {
		if i > 100 { return }' | head -4
$M $S '	if !ok {
		return 0
	}
' '' $S 'id, ok := d.word2id[word]
	return d' 'id, _ := d.word2id[word]
	return d' | head -4
$M $S '			d.maxid++' '			if len(word) < 100 { d.maxid++ }' | head -4
$M $S '	return d.maxid' '	return len(d.word2id)+1' | head -4
$M $S '	id, ok := d.word2id[word]
	return id, ok' '	id, ok := d.word2id[word]
	return id + 1, ok' | head -4
$M $S '; ok {
			d.cfs[id]++' '; ok && id > 0 {
			d.cfs[id]++' | head -4
$M $S 'func (d *Dictionary) Len' 'func (d *Dictionary) Drop(i int) { d.cfs[i] = 0 }
func (d *Dictionary) Len'  | head -4
echo REF
$M $S 'if id >= d.maxid {
		return ""' 'if id >= d.Len() {
		return ""' | head -4
$M $S 'if id >= d.maxid {
		return ""' 'if id >= len(d.id2word) {
		return ""' | head -4
$M $S '		if id, ok := d.word2id[word]; ok {
			d.cfs[id]++
		} else {
			d.word2id[word] = d.maxid
			d.id2word = append(d.id2word, word)
			d.cfs = append(d.cfs, 1)
			d.maxid++
		}
	}
}' '		d.add(word)
	}
}
func (d *Dictionary) add(word string) {
		id, ok := d.word2id[word]
		if !ok {
			id := d.maxid
			d.id2word = append(d.id2word, word)
			d.cfs = append(d.cfs, 1)
			d.word2id[word] = id
			d.maxid = id+1
			return
		}
		d.cfs[id] += 1
}' | head -14
$M $S '	for _, word := range words {
		if id, ok := d.word2id[word]; ok {
			d.cfs[id]++
		} else {' '	for i := 0; i < len(words); i++ { word := words[i]
		if id, ok := d.ID(word); ok {
			d.cfs[id]++
			continue
		}
		{' | head -14
$M $S 'return d.cfs[id]
}

func (d *Dictionary) Word(' 'return d.IDFreq(id)
}

func (d *Dictionary) Word(' | head -14
$M $S '	if id >= d.maxid {
		return "", false
	}
	return d.id2word[id], true' '	if id < d.maxid {
		return d.id2word[id], true
	}
	return "", false' | head -4
