m() { echo "MUT $1 $2 $3"; $MUT C37 "$@"; }
r() { echo "REF $1 $2 $3"; $MUT C37 "$@"; }
M=pkg/model/word2vec/model.go; L=pkg/model/lexvec/lexvec.go
HS='for a := del; a < mod.window*2+1-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n'
HL='for a := del; a < l.opts.Window*2+1-del; a++ {\n\t\tif a == l.opts.Window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - l.opts.Window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n'
m $M 'for a := del; a < mod.window*2+1-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor i' 'for a := del; a < mod.window*2-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor i'
m $M 'c := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {' 'c := pos - mod.window + a\n\t\tif c <= 0 || c >= len(doc) {'
m $M 'c := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {' 'c := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc)-1 {'
m $M 'c := pos - mod.window + a\n' 'c := pos - mod.window + a\n\t\tif c > pos+3 {\n\t\t\tcontinue\n\t\t}\n'
m $M 'c := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue' 'c := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tbreak'
m $M 'for a := del;' 'for a := 0;'
m $M 'for a := del;' 'for a := del + 1;'
m $M 'del := modelutil.NextRandom(mod.window)' 'del := modelutil.NextRandom(mod.window) / 2'
m $L 'for a := del; a < l.opts.Window*2+1-del' 'for a := del; a < l.opts.Window*2+1'
m $L 'if a == l.opts.Window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - l.opts.Window + a\n' 'c := pos - l.opts.Window + a\n\t\tif a == l.opts.Window || doc[c] == doc[pos] {\n\t\t\tcontinue\n\t\t}\n'
m $L 'for a := del; a < l.opts.Window*2+1-del; a++ {\n\t\tif a == l.opts.Window {\n\t\t\tcontinue\n\t\t}\n' 'for a := del; a < l.opts.Window; a++ {\n'
r $M "${HS}\t\tfor i" 'for c := pos - mod.window + del; c <= pos+mod.window-del; c++ {\n\t\tif c == pos || c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tfor i'
r $L "${HL}" 'radius := l.opts.Window - del\n\tlo, hi := pos-radius, pos+radius\n\tif lo < 0 {\n\t\tlo = 0\n\t}\n\tif hi > len(doc)-1 {\n\t\thi = len(doc) - 1\n\t}\n\tfor c := lo; c <= hi; c++ {\n\t\tif c == pos {\n\t\t\tcontinue\n\t\t}\n'
r $L "${HL}" 'radius := 1 + del\n\tfor off := -radius; off <= radius; off++ {\n\t\tc := pos + off\n\t\tif off == 0 || c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n'
r $L "${HL}" 'for c := pos + l.opts.Window - del; c >= pos-l.opts.Window+del; c-- {\n\t\tif c == pos || c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n'
r $L 'del := modelutil.NextRandom(l.opts.Window)' 'size := l.opts.Window\n\tdel := modelutil.NextRandom(size)'
r $L "${HL}" 'for a := del; a < l.opts.Window*2+1-del; a++ {\n\t\tc := pos - l.opts.Window + a\n\t\tif a == l.opts.Window || c < 0 {\n\t\t\tcontinue\n\t\t}\n\t\tif c >= len(doc) {\n\t\t\tbreak\n\t\t}\n'
r $M 'for a := del; a < mod.window*2+1-del; a++ {\n\t\tif a == mod.window {\n\t\t\tcontinue\n\t\t}\n\t\tc := pos - mod.window + a\n\t\tif c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctxID := doc[c]\n\t\tctx := param.Slice(ctxID)\n\t\tfn(' 'for a := del - mod.window; a <= mod.window-del; a++ {\n\t\tc := pos + a\n\t\tif a == 0 || c < 0 || c >= len(doc) {\n\t\t\tcontinue\n\t\t}\n\t\tctx := param.Slice(doc[c])\n\t\tfn('
