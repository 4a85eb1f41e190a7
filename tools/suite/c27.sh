MO=pkg/model/word2vec/model.go; O=pkg/model/word2vec/optimizer.go

echo MUT
$MUT C27 $MO 'for i := 0; i < len(tmp); i++ {\n\t\t\ttmp[i] = 0\n\t\t}\n' ''
$MUT C27 $MO 'for i := 0; i < len(tmp); i++ {\n\t\t\ttmp[i] = 0' 'for i := 1; i < len(tmp); i++ {\n\t\t\ttmp[i] = 0'
$MUT C27 $MO 'agg[i], tmp[i] = 0, 0' 'agg[i] = 0'
$MUT C27 $MO 'agg[i], tmp[i] = 0, 0' 'tmp[i] = 0'
$MUT C27 $MO 'for i := 0; i < len(tmp); i++ {\n\t\t\ttmp[i] = 0\n\t\t}\n' '' $MO 'for a := del; a < mod.window*2+1-del; a++ {' 'for i := 0; i < len(tmp); i++ {\n\t\ttmp[i] = 0\n\t}\n\tfor a := del; a < mod.window*2+1-del; a++ {'
$MUT C27 $MO 'for i := 0; i < len(tmp); i++ {\n\t\t\ttmp[i] = 0\n\t\t}\n\t\tctxID' 'if a == del {\n\t\t\tfor i := 0; i < len(tmp); i++ {\n\t\t\t\ttmp[i] = 0\n\t\t\t}\n\t\t}\n\t\tctxID'
$MUT C27 $MO 'for i := 0; i < len(tmp); i++ {\n\t\t\ttmp[i] = 0' 'for i := 0; i < len(tmp)-1; i++ {\n\t\t\ttmp[i] = 0'
$MUT C27 $MO '	for i := 0; i < len(agg); i++ {\n\t\tagg[i], tmp[i] = 0, 0\n\t}\n' '' $MO '	defer func() {\n\t\ttoken := cbowToken{agg, tmp}' '	defer func() {\n\t\tfor i := 0; i < len(agg); i++ {\n\t\t\tagg[i] = 0\n\t\t}\n\t\ttoken := cbowToken{agg, tmp}'
$MUT C27 $MO 'optimizer.optim(doc[pos], lr, agg, tmp)\n' 'optimizer.optim(doc[pos], lr, agg, tmp)\n\tmod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)\n'
$MUT C27 $MO 'tmp[i] = 0\n' 'tmp[i] *= 0.5\n'
$MUT C27 $MO 'for i := 0; i < len(agg); i++ {' 'for i := 0; i < mod.window; i++ {'
echo REF
$MUT C27 $MO 'for i := 0; i < len(tmp); i++ {\n\t\t\ttmp[i] = 0\n\t\t}\n' 'zero(tmp)\n' $MO 'type cbowToken' 'func zero(v []float64) {\n\tfor i := range v {\n\t\tv[i] = 0\n\t}\n}\n\ntype cbowToken'
$MUT C27 $MO 'for i := 0; i < len(agg); i++ {\n\t\tagg[i], tmp[i] = 0, 0\n\t}\n' 'zero(agg)\n\tzero(tmp)\n' $MO 'type cbowToken' 'func zero(v []float64) {\n\tfor i := range v {\n\t\tv[i] = 0\n\t}\n}\n\ntype cbowToken'
$MUT C27 $MO 'for i := 0; i < len(agg); i++ {' 'for i := len(agg) - 1; i >= 0; i-- {'
$MUT C27 $MO '	for i := 0; i < len(ctx); i++ {\n\t\tagg[i] += ctx[i]' '	for i := range ctx {\n\t\tagg[i] = agg[i] + ctx[i]'

$MUT C27 $MO '	tmp := <-mod.ch\n\tdefer func() {\n\t\tmod.ch <- tmp\n\t}()' '	tmp := make([]float64, param.Col())' $MO 'for i := 0; i < len(tmp); i++ {\n\t\t\ttmp[i] = 0\n\t\t}\n\t\tctxID' 'for i := range tmp {\n\t\t\ttmp[i] = 0\n\t\t}\n\t\tctxID'
$MUT C27 $MO '	agg, tmp := token.agg, token.tmp\n\tdefer func() {\n\t\ttoken := cbowToken{agg, tmp}\n\t\tmod.ch <- token\n\t}()\n\tfor i := 0; i < len(agg); i++ {\n\t\tagg[i], tmp[i] = 0, 0\n\t}' '	defer func() { mod.ch <- token }()\n\ttoken.reset()\n\tagg, tmp := token.agg, token.tmp' $MO 'type cbow struct' 'func (t cbowToken) reset() {\n\tfor i := range t.agg {\n\t\tt.agg[i] = 0\n\t\tt.tmp[i] = 0\n\t}\n}\n\ntype cbow struct'
$MUT C27 $O '			tmp[i] += g * rnd[i]\n\t\t\trnd[i] += g * ctx[i]' '			old := rnd[i]\n\t\t\trnd[i] = old + g*ctx[i]\n\t\t\ttmp[i] += g * old'
$MUT C27 $O '		for i := 0; i < dim; i++ {\n\t\t\ttmp[i] += g * rnd[i]\n\t\t\trnd[i] += g * ctx[i]\n\t\t}' '		step(g, ctx, tmp, rnd)' $O 'type hierarchicalSoftmax' 'func step(g float64, ctx, tmp, rnd []float64) {\n\tfor i := range ctx {\n\t\ttmp[i] += g * rnd[i]\n\t\trnd[i] += g * ctx[i]\n\t}\n}\n\ntype hierarchicalSoftmax' 
