C=pkg/corpus/cooccurrence/cooccurrence.go
M=pkg/corpus/memory/memory.go
F=pkg/corpus/fs/fs.go
U=pkg/corpus/cpsutil/cpsutil.go
m() { echo "MUT $1 $2 $3"; $MUT C40 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C40 "$@"; }
m $C 'val = 1. / math.Abs(float64(distance))' 'val = 1. / math.Abs(float64(distance*distance))'
m $C 'val = 1. / math.Abs(float64(distance))' 'val = 1. / math.Abs(float64(left-right))'
m $C 'val = 1. / math.Abs(float64(distance))' 'val = float64(1 / distance)\n\t\t_ = math.Abs'
m $C 'val = 1. / math.Abs(float64(distance))' 'val = 1. / (1 + math.Abs(float64(distance)))'
m $C 'val = 1. / math.Abs(float64(distance))' 'val = math.Max(0.1, 1. / math.Abs(float64(distance)))'
m $C 'if distance == 0 {' 'if distance == 0 || left == right {'
m $C 'if distance == 0 {' 'if distance > 10 {'
m $C 'c.ma[enc] += val' 'if c.ma[enc] < 1e6 { c.ma[enc] += val }'
m $C 'c.ma[enc] += val' 'c.ma[enc] += val\n\tif left == right { c.ma[enc] += val }'
m $C 'c.ma[enc] += val' 'c.ma[enc] = math.Max(c.ma[enc], val)'
m $C 'c.ma[enc] += val' 'c.ma[enc] = float64(float32(c.ma[enc])) + val'
m $C 'return c.AddWithDistance(left, right, 1)' 'return c.AddWithDistance(left, right, right-left)'
m $C 'val = 1\n' 'val = 1 / float64(distance)\n'
m $C 'val = 1\n' 'val = 1\n\t\tif distance > 1 { return nil }\n'
m $C 'val = 1\n' 'val = 1\n\t\tif distance < 0 { val = 0 }\n\t\tif left == 0 { val = 2 }\n'
m $M 'c.idoc[j], j-i)' 'c.idoc[j], j-i+1)'
m $M 'c.idoc[j], j-i)' 'c.idoc[j], c.idoc[j]-c.idoc[i])'
m $M 'c.idoc[j], j-i)' 'c.idoc[j], with.Window)'
m $M 'c.idoc[j], j-i)' 'c.idoc[j], j)'
m $M 'c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i)' 'c.cooc.Add(c.idoc[i], c.idoc[j])'
m $F 'c.cooc.AddWithDistance(id1, id2, distance)' 'c.cooc.AddWithDistance(id1, id2, id2-id1+0*distance)'
m $F 'c.cooc.AddWithDistance(id1, id2, distance)' 'c.cooc.AddWithDistance(id1, id2, distance+1)'
m $F 'c.cooc.AddWithDistance(id1, id2, distance)' 'c.cooc.AddWithDistance(id1, id2, with.Window-distance+1)'
m $U 'fn(ws[0], w, i+1)' 'fn(ws[0], w, i)'
m $U 'fn(ws[0], w, i+1)' 'fn(ws[0], w, len(ws)-i)'
m $U 'fn(ws[0], w, i+1)' 'fn(ws[0], w, n-i)'
r $C 'val = 1. / math.Abs(float64(distance))' 'val = math.Abs(1. / float64(distance))'
r $C 'val = 1. / math.Abs(float64(distance))' 'if distance < 0 {\n\t\t\tdistance = -distance\n\t\t}\n\t\tval = 1. / float64(distance)\n\t\t_ = math.Abs'
r $C 'val = 1. / math.Abs(float64(distance))' 'val = 1. / float64(distance)\n\t\t_ = math.Abs'
r $C 'val = 1. / math.Abs(float64(distance))' 'val = math.Pow(math.Abs(float64(distance)), -1)'
r $C 'if distance == 0 {' 'if distance <= 0 {'
r $C 'c.ma[enc] += val' 'old, ok := c.ma[enc]\n\tif !ok {\n\t\tc.ma[enc] = val\n\t} else {\n\t\tc.ma[enc] = old + val\n\t}'
r $C 'c.ma[enc] += val' 'm := c.ma\n\tm[enc] = m[enc] + val'
r $C '	var val float64
	switch c.typ {
	case Increment:
		val = 1
	case Proximity:
		if distance == 0 {
			return errors.Errorf("Divide by zero on counting co-occurrence")
		}
		val = 1. / math.Abs(float64(distance))
	default:
		return invalidCountTypeError(c.typ)
	}
	c.ma[enc] += val
	return nil
' '	val, err := c.weight(distance)
	if err != nil {
		return err
	}
	c.ma[enc] += val
	return nil
' $C '// Add counts' 'func (c *Cooccurrence) weight(distance int) (float64, error) {
	switch c.typ {
	case Increment:
		return 1, nil
	case Proximity:
		if distance == 0 {
			return 0, errors.Errorf("Divide by zero on counting co-occurrence")
		}
		return 1. / math.Abs(float64(distance)), nil
	}
	return 0, invalidCountTypeError(c.typ)
}

// Add counts'
r $C '	switch c.typ {
	case Increment:
		val = 1
	case Proximity:
		if distance == 0 {
			return errors.Errorf("Divide by zero on counting co-occurrence")
		}
		val = 1. / math.Abs(float64(distance))
	default:
		return invalidCountTypeError(c.typ)
	}
' '	if c.typ == Increment {
		val = 1
	} else {
		if distance == 0 {
			return errors.Errorf("Divide by zero on counting co-occurrence")
		}
		val = 1. / math.Abs(float64(distance))
	}
'
r $C '	switch c.typ {
	case Increment:
		val = 1
	case Proximity:
		if distance == 0 {
			return errors.Errorf("Divide by zero on counting co-occurrence")
		}
		val = 1. / math.Abs(float64(distance))
	default:
		return invalidCountTypeError(c.typ)
	}
	c.ma[enc] += val
' '	switch c.typ {
	case Increment:
		c.ma[enc]++
		return nil
	case Proximity:
		if distance == 0 {
			return errors.Errorf("Divide by zero on counting co-occurrence")
		}
		val = 1
		val /= math.Abs(float64(distance))
		c.ma[enc] += val
	default:
		return invalidCountTypeError(c.typ)
	}
'
r $M 'c.idoc[j], j-i)' 'c.idoc[j], i-j)'
r $M 'if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i)' 'd := j - i\n\t\t\t\tif err = c.cooc.AddWithDistance(c.idoc[j], c.idoc[i], d)'
r $M '			for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {\n' '			for d := 1; d <= with.Window && i+d < len(c.idoc); d++ {\n\t\t\t\tj := i + d\n'
r $U 'for i, w := range ws[1:] {' 'for i := 0; i+1 < len(ws); i++ {\n\t\t\tw := ws[i+1]'
r $U 'fn(ws[0], w, i+1)' 'fn(ws[0], w, 1+i)'
r $U 'for i, w := range ws[1:] {\n\t\t\tif err := fn(ws[0], w, i+1)' 'for i := 1; i < len(ws); i++ {\n\t\t\tif err := fn(ws[0], ws[i], i)'
r $U 'for i, w := range ws[1:] {\n\t\t\tif err := fn(ws[0], w, i+1)' 'd := 0\n\t\tfor _, w := range ws[1:] {\n\t\t\td++\n\t\t\tif err := fn(ws[0], w, d)'
m $U 'for i, w := range ws[1:] {\n\t\t\tif err := fn(ws[0], w, i+1)' 'd := 0\n\t\tfor _, w := range ws[1:] {\n\t\t\tif w != ws[0] {\n\t\t\t\td++\n\t\t\t}\n\t\t\tif err := fn(ws[0], w, d)'
