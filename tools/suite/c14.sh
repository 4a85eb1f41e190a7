M="$MUT C14"
S=pkg/corpus/cooccurrence/encode/encode.go
C=pkg/corpus/cooccurrence/cooccurrence.go
$M $S 'l2 << 32' 'l2 << 31' | head -4
$M $S 'return encode(l2, l1)' 'return encode(l1, l2)' | head -4
$M $S 'f := pid >> 32' 'f := pid >> 31' | head -4
$M $S 'return pid - (f << 32), f' 'return uint64(uint16(pid)), f' | head -4
$M $C '] += val' '] = val' | head -4
$M $C 'val = 1
' 'val = 2
' | head -4
$M $C 'uint64(left), uint64(right)' 'uint64(left), uint64(uint16(right))' | head -4
$M $C '	c.ma[enc] += val' '	if left < right { c.ma[enc] += val }' | head -4
$M pkg/model/lexvec/lexvec.go 'uint64(sample)' 'uint64(uint16(sample))' | head -4
$M $S 'l1 < l2' 'l1 < l2 && l2 > 1000' | head -4
$M $S 'l1 < l2' 'uint16(l1) < uint16(l2)' | head -4
echo REF
$M $S 'l1 | (l2 << 32)' 'l1 + l2<<32' | head -4
$M $S 'l1 < l2' 'l2 > l1' | head -4
$M $S '	if l1 < l2 {
		return encode(l1, l2)
	} else {
		return encode(l2, l1)
	}' '	if l1 > l2 {
		l1, l2 = l2, l1
	}
	return encode(l1, l2)' | head -4
$M $S 'return pid - (f << 32), f' 'return pid & 0xffffffff, f' | head -4
$M $S 'return pid - (f << 32), f' 'return uint64(uint32(pid)), f' | head -4
$M $C 'c.ma[enc] += val' 'n := c.ma[enc]
	c.ma[enc] = n + val' | head -4
$M $C '	c.ma[enc] += val' '	c.count(enc, val)' $C 'func (c *Cooccurrence) Add' 'func (c *Cooccurrence) count(k uint64, v float64) { if old, ok := c.ma[k]; ok { c.ma[k] = old + v } else { c.ma[k] = v } }
func (c *Cooccurrence) Add' | head -4
$M $C '	switch c.typ {
	case Increment:
		val = 1' '	switch c.typ {
	case Increment:
		val = weight(left, right)' $C 'func (c *Cooccurrence) Add' 'func weight(a, b int) float64 { return 1.0 }
func (c *Cooccurrence) Add' | head -4
