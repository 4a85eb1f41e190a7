#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that entries stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

W='pkg/model/word2vec/word2vec.go'; L='pkg/model/lexvec/lexvec.go'; G='pkg/model/glove/glove.go'
FS='pkg/corpus/fs/fs.go'; MEM='pkg/corpus/memory/memory.go'; CU='pkg/corpus/cpsutil/cpsutil.go'
TRAIN=[W,L,G]
p('C01','Train reports every failure to read the corpus',
  'If rewinding or reading the corpus fails in any pass that Train makes over it (building the vocabulary, counting co-occurrences, delivering training batches), for any model and either corpus mode, Train returns a non-nil error. It never reports success for a model trained on a truncated corpus.',
  ['fault_sequences','inputs'],'every read or seek of every pass over the corpus failing, for each model and corpus mode',
  'No test reads from a failing reader, and none calls Train at all.',
  [CU,FS,MEM]+TRAIN,[('errors of Seek, Scanner.Err and of the per-word callback are returned','pkg/corpus/cpsutil/cpsutil.go ReadWord, ReadWordWithForwardContext'),('the batch reader hands its error to the trainer','batchTrain in word2vec.go, lexvec.go')],
  observe=['result of Model.Train'])
p('C02','Save reports every failure to write the vectors',
  'If the destination rejects any part of the output, Save returns a non-nil error, for every model; when Save returns nil everything was handed to the destination and nothing is left in a buffer. A training command whose Save fails exits unsuccessfully.',
  ['fault_sequences'],'every write to the destination failing, at every point of the output',
  'No test calls Save.',
  ['pkg/model/modelutil/vector/vector.go']+TRAIN+['cmd/model/word2vec/word2vec.go','cmd/model/glove/glove.go','cmd/model/lexvec/lexvec.go'],
  [('the buffered writer is flushed and the errors of writing and flushing are returned','pkg/model/modelutil/vector/vector.go Save')],observe=['result of Model.Save'])
p('C03','Loading and querying never swallow an error',
  'A failure while loading a vector file (unreadable, malformed number, missing vector), building the searcher, searching, or evaluating a console expression (unknown word, unsupported operator or expression) is returned by the library call, and is returned or printed by the query and console commands. None is silently treated as an empty success.',
  ['inputs','fault_sequences'],'every malformed or failing input of the load, search and console paths',
  'The tests discard the errors of Load and Search, and none evaluates a console expression.',
  ['pkg/embedding/embedding.go','pkg/search/search.go','pkg/search/console/console.go','pkg/search/console/op.go','cmd/query/query.go','cmd/query/console/console.go'],
  [('each error is checked and returned, or printed by the console','parse, parseLine, Load, New, Search*, eval*, execute')],observe=['result of embedding.Load, search.*, console output'])
p('C04','Train never deadlocks',
  'Train returns, with or without an error, for every corpus, every interleaving of its goroutines and every failing read: workers always signal completion, channels that are ranged over are always closed by their producer, channels that are sent to always have a receiver that drains them, pooled buffers and semaphore slots are always given back.',
  ['schedules','fault_sequences','inputs'],'all interleavings of reader, workers and observer, including a read error at any word',
  'Deadlocks depend on scheduling and faults; no test runs a training goroutine.',
  TRAIN+[FS,MEM,'pkg/model/word2vec/model.go'],
  [('WaitGroup Add/Done/Wait pairing, close after Wait, deferred close of the batch channel, deferred return of pooled buffers, paired semaphore','train, batchTrain, trainPerThread, observe, BatchWords, trainOne')])
p('C05','Training is free of data races except on vector elements',
  'While training, the only memory that goroutines access concurrently without synchronisation is the numeric elements of the parameter vectors (HogWild). Every other piece of shared state - learning rate, random generator, Huffman paths, dictionary, co-occurrence table, batch buffers - is read-only, owned by one goroutine, or accessed with synchronisation.',
  ['schedules'],'all interleavings of the goroutines of Train',
  'Races need particular interleavings and no test starts a training goroutine.',
  TRAIN+['pkg/model/word2vec/model.go','pkg/model/word2vec/optimizer.go','pkg/model/modelutil/modelutil.go','pkg/corpus/dictionary/node/node.go',FS],
  [('atomics for learning rate and generator, once for the path cache, fresh batch buffer after each send, pooled scratch buffers','observe, NextRandom, GetPath, BatchWords, trainOne')])
p('C06','No goroutine outlives Train',
  'When Train returns, with or without an error, every goroutine it started has finished, and none of an iteration is still running when the next iteration starts.',
  ['schedules','fault_sequences'],'all interleavings, successful and failing runs',
  'Needs a particular schedule to be observed; no test runs Train.',
  TRAIN,[('Wait for workers, then close the progress channel, then wait for the observer and the reader','train, batchTrain')])
p('C07','Lower-casing is applied alike in every pass',
  'With lower-casing requested, words that differ only in case are one word everywhere - vocabulary, frequencies, co-occurrences and training text - in both corpus modes; without it no word is altered.',
  ['inputs','configurations'],'every corpus text, both corpus modes, lower-casing on or off',
  'No test loads a corpus through either corpus mode.',
  [FS,MEM]+TRAIN,[('each word read is lower-cased before it reaches the dictionary','Load and BatchWords of both corpora')])
p('C08','Co-occurrence counts cover exactly the pairs within the window',
  'Both corpus modes count each pair of words at distance 1 to window exactly once per occurrence, including pairs at the end of the corpus and in corpora shorter than the window. Nothing that is not a word of the corpus is ever paired.',
  ['inputs','configurations'],'every corpus length and window size, both corpus modes',
  'One test covers the forward context with window 2 and five words; the two corpus modes are not compared.',
  [CU,FS,MEM],[('nested loops over the indexed document','memory Load'),('sliding window drained at the end of the input','ReadWordWithForwardContext')])
p('C09','Numeric options that cannot be trained with are rejected',
  'Creating a model with a dimension, window, number of goroutines, batch size or logging / learning-rate interval that is zero or negative, where training uses it, returns an error. No accepted combination of numeric options makes Train divide by zero, allocate a negative size or block on an empty semaphore or pool.',
  ['configurations'],'every value of every numeric option',
  'No test sets an option.',
  ['pkg/model/word2vec/options.go','pkg/model/lexvec/options.go','pkg/model/glove/options.go']+TRAIN,[('validation before the model is created','NewForOptions')])
p('C10','Unknown choices are rejected and known ones are honoured',
  'For each setting that selects among named alternatives (word2vec model and optimizer, GloVe solver, co-occurrence count type, LexVec relation, vector type to save) a value outside its documented set leads to an error rather than to some default, and each documented value is accepted and selects its own algorithm.',
  ['configurations'],'every string as value of each such setting',
  'Only an invalid count type is tested.',
  TRAIN+['pkg/model/lexvec/item.go','pkg/corpus/cooccurrence/cooccurrence.go','pkg/model/modelutil/vector/vector.go'],[('switches with an error default, validation','Train, New, Save, calculateRelation')])
p('C11','Flags and functional options set, and only set, what they name',
  'Each command-line flag and each functional option of a model changes exactly the hyperparameter it names, a model created without options and a command run without flags use the same defaults, and each hyperparameter reaches the part of training it is documented for and no other.',
  ['configurations'],'every flag, option and hyperparameter of the three models',
  'No test uses options or flags.',
  ['pkg/model/word2vec/options.go','pkg/model/lexvec/options.go','pkg/model/glove/options.go']+TRAIN,[('LoadForCmd, DefaultOptions, ModelOption functions','options.go of each model')])
p('C12','single and agg vectors mean the same for every model',
  "For every model the 'single' vector of a word is the word's own trained vector, and the 'agg' vector is the element-wise sum of its word and its context vector (for hierarchical softmax, which has no context vectors, it is the word's own). The returned matrix has one row per vocabulary word in vocabulary order, the configured dimension, and is independent of the model's parameters.",
  ['configurations','inputs'],'each model, vector type, word and element',
  'No test asks for word vectors.',
  TRAIN,[('row closures over the parameter matrices','WordVector of each model')])
p('C13','The vocabulary is a dense bijection with exact counts',
  'Word ids are 0..n-1 in order of first occurrence, id and word map to each other, and the frequency of a word is the number of times it was added. Ids at or beyond the size of the vocabulary have no word and frequency zero.',
  ['histories'],'every sequence of additions and lookups',
  'The dictionary has no test.',
  ['pkg/corpus/dictionary/dictionary.go'],[('coupled update of the maps, slices and counter','Dictionary.Add')],
  state=[('word2id, id2word, cfs, maxid','word to id, id to word, id to count, number of words','pkg/corpus/dictionary/dictionary.go')])
p('C14','Pair codes are symmetric and invertible, and counts accumulate',
  'Encoding a pair of word ids gives the same code in either order and decoding it gives back the two ids, for all ids below 2^32; distinct pairs have distinct codes. Counting a pair adds to what was counted for it before: one for increment counting.',
  ['inputs','histories'],'all pairs of ids below 2^32, every sequence of additions',
  'One pair is added in the tests and none is decoded.',
  ['pkg/corpus/cooccurrence/encode/encode.go','pkg/corpus/cooccurrence/cooccurrence.go'],[('ordered packing into two halves of a 64 bit code','EncodeBigram, DecodeBigram'),('accumulation','Cooccurrence.Add')])
p('C15','Search results are ranked, non-blank and free of excluded words',
  'A search for the k nearest words returns at most k entries, ordered by descending similarity and ranked 1, 2, 3, ..., without blank entries and without the query word (nor, in the console, any operand word). A k that is not positive is an error, not a panic.',
  ['inputs'],'every set of vectors, query and k',
  'Both search tests use k=1 with four vectors.',
  ['pkg/search/search.go','pkg/search/console/console.go'],[('insertion into a bounded sorted list, exclusion set, truncation at the first unused slot','Searcher.Search')])
p('C16','Vectors of different dimension are never compared or combined',
  'A searcher cannot be created from vectors of different dimensions, and searching with a query of another dimension than the stored vectors or combining vectors of different lengths in the console returns an error. It neither panics nor compares a prefix.',
  ['inputs'],'every combination of vector lengths',
  'All tests use equal lengths.',
  ['pkg/search/search.go','pkg/search/searchutil/searchutil.go','pkg/search/console/op.go','pkg/embedding/embedding.go'],[('length checks before the dot product and the element-wise operation','Search, New, Validate, elementWise')])
p('C17','Training commands never overwrite an existing output file',
  'The word2vec, glove and lexvec commands refuse to run, without touching it, when the output path already exists, and create no output when the input file does not exist. They train on the file given as input and write to the file given as output.',
  ['configurations','histories'],'every state of the input and output paths when a command starts',
  'No test runs a command.',
  ['cmd/model/word2vec/word2vec.go','cmd/model/glove/glove.go','cmd/model/lexvec/lexvec.go'],[('existence checks before the output is created','execute')])
p('C18','The learning rate never falls below its lower limit',
  'Every learning rate that training computes during a run is at least the configured minimum, at every moment any worker can observe it, however many words were trained.',
  ['inputs','schedules'],'every corpus size, update interval, progress count and moment of observation',
  'No test trains.',
  [W,L],[('clamped before it is published','observe')])
p('C19','Training never indexes outside the document or the sigmoid table',
  'No position of a word in its document, no window size and no vector value, including infinities and NaN, makes training access a context position outside the document or an entry outside the precomputed sigmoid table.',
  ['inputs'],'every document, position, window and inner product',
  'The sigmoid test looks up one value.',
  ['pkg/model/word2vec/model.go','pkg/model/word2vec/sigmoid_table.go',L],[('range checks of the context position, clamped table index','trainOne, dowith, sigmoid')])
p('C20','Hierarchical softmax uses the whole path unless a depth limits it',
  'For every word the path used by hierarchical softmax is cut to the configured maximum depth only when that is positive and smaller than the path; a maximum depth of zero or less means the full path, and no depth causes a panic. Every word of the vocabulary has its own leaf, and the two children of every inner node carry different branch codes and the same parent.',
  ['inputs','configurations'],'every vocabulary with its frequencies and every maximum depth',
  'No test builds a Huffman tree.',
  ['pkg/corpus/dictionary/node/node.go','pkg/corpus/dictionary/huffman.go'],[('bounded slicing of the path','GetPath'),('merging the two rarest nodes','HuffnamTree')])
p('C21','Only words within the count limits are trained on',
  'In both corpus modes the text given to word2vec, LexVec and GloVe training contains a word if and only if it occurs at least min-count and at most max-count times (a max-count that is not positive and a negative min-count impose no limit).',
  ['inputs','configurations'],'every corpus and every pair of limits',
  'No test uses count limits.',
  [CU,FS,MEM]+TRAIN,[('filters applied to each word before it is delivered','Filters.Any, MinCount, MaxCount, IndexedDoc, BatchWords')])
p('C22','Workers partition the training data',
  'In each iteration of in-memory training every item of the training data is handed to exactly one worker, for every number of items and workers, including fewer items than workers.',
  ['inputs','configurations'],'every number of items and goroutines',
  'The partition has no test.',
  ['pkg/model/modelutil/modelutil.go']+TRAIN,[('increasing interval bounds from 0 to the number of items, adjacent intervals','IndexPerThread, train')])
p('C23','CBOW updates the context it aggregated',
  'For each trained word one window is drawn; in CBOW the context words that receive the update are exactly the ones that were aggregated into the prediction, and the word itself is never its own context.',
  ['inputs','schedules'],'every document, position and random draw',
  'No test trains; the effect is hidden in random draws.',
  ['pkg/model/word2vec/model.go'],[('one shrink value for both traversals','cbow.trainOne, skipGram.trainOne')])
p('C24','What Save writes, Load reads back',
  'For every vocabulary and dimension, each line that Save writes is one word followed by its own vector in a form that Load parses back into that word and those values at the written precision (at least six decimals), in the same order; no line is too long to load.',
  ['inputs'],'every vocabulary, dimension and value',
  'Writer and reader are never tested together, the writer not at all.',
  ['pkg/model/modelutil/vector/vector.go','pkg/embedding/embedding.go'],[('agreement of the written and the parsed line format','Save, parse, parseLine')])
p('C25','Every pass over the corpus starts at its beginning',
  'Each of the passes that Train makes over the corpus, in every iteration, rewinds the input to its first byte before it reads, whatever position earlier passes or the caller left it at.',
  ['histories','configurations'],'every sequence of passes and iterations',
  'The readers are tested on one fresh reader each.',
  [CU],[('Seek to the start before scanning','ReadWord, ReadWordWithForwardContext')])
p('C26','Parameter rows exist for, and belong to, the word they are used for',
  'Every row of a parameter matrix that training or WordVector accesses lies within the matrix for every vocabulary; where word and context vectors share a matrix, context vectors are the second half and no code mixes up the halves, so no word is trained on another row.',
  ['inputs'],'every vocabulary and pair of words',
  'No test trains.',
  TRAIN+['pkg/model/glove/solver.go','pkg/model/word2vec/optimizer.go','pkg/model/modelutil/matrix/matrix.go'],[('matrices sized from the vocabulary, context rows offset by its size','Train, trainPerThread, trainOne')])
p('C27','Gradient accumulators start from zero',
  'The scratch vectors in which word2vec accumulates the context sum and the gradient are zero whenever an accumulation starts, for every word and every context, so that nothing of one training step leaks into another.',
  ['inputs','histories','schedules'],'every sequence of training steps and reuse of pooled buffers',
  'No test trains.',
  ['pkg/model/word2vec/model.go'],[('zeroing before each accumulation','skipGram.trainOne, cbow.trainOne')])
p('C28','Console expressions compute what they say',
  'The expression a + b searches with the element-wise sum of the two vectors and a - b with the first minus the second, both words are excluded from the result, and any other operator is an error.',
  ['inputs'],'every pair of words and every operator',
  'The console has no test.',
  ['pkg/search/console/console.go','pkg/search/console/op.go'],[('operator dispatch and element-wise operation','evalBinaryExpr, arithmetic, elementWise')])
p('C29','The console ends when its input ends',
  'When reading the next line fails, at the end of the input or for any other reason, the console command stops; it never prompts again after a failed read.',
  ['inputs','fault_sequences'],'every sequence of input lines, ended at any point',
  'The console has no test.',
  ['pkg/search/console/console.go'],[('leaving the loop on an error of the prompt','Console.Run')])
p('C30','Saving an untrained model is an error',
  'Calling Save on a model whose Train was never called, or failed before its parameters existed, returns an error for every model instead of panicking or writing anything.',
  ['histories'],'every call sequence of New, Train and Save',
  'No test calls Save.',
  TRAIN,[('check before the vectors are assembled','Save of each model')])
p('C31','Verbose mode changes nothing but the progress output',
  'Turning verbose mode on or off changes only what is printed: the counts, learning rates, vocabulary, co-occurrences and vectors that are computed do not depend on it.',
  ['configurations'],'every run, verbose or not',
  'No test runs anything in both modes.',
  TRAIN+[FS,MEM,'pkg/model/glove/item.go','pkg/model/lexvec/item.go','pkg/model/modelutil/vector/vector.go'],[('progress code writes no state that other code reads','closures passed to verbose.Do')])
p('C32','Batches deliver every word exactly once',
  'In each iteration the batches delivered to the workers contain every word of the filtered corpus once and in order, whatever the batch size, including the last incomplete batch; and each worker visits each word of its batch and reports its progress exactly once.',
  ['inputs','configurations'],'every corpus length and batch size',
  'No test delivers batches.',
  [FS,MEM]+TRAIN,[('batches sent when full and once at the end','BatchWords'),('one progress signal per word','trainPerThread')])
p('C33','Similarity is the cosine of the two vectors',
  'The similarity that a search reports for a word is the cosine of the query vector and the stored vector: the sum of the products of all their elements divided by the product of their lengths, or 0 if one of them is the zero vector. The norm kept with an embedding is that of its own vector, wherever an embedding is made: on loading, for a query by vector, and for a console expression.',
  ['inputs'],'every pair of vectors of the same dimension',
  'The tests compare a few vectors of ones and zeros, for which other formulas give the same values.',
  ['pkg/search/search.go','pkg/search/searchutil/searchutil.go','pkg/embedding/embedding.go','pkg/embedding/embutil/embutil.go','pkg/search/console/console.go'],[('the similarity is computed from the vectors and their stored norms','Searcher.Search, searchutil.Cosine'),('the norm is computed where the embedding is made','parseLine, SearchVector, Console.eval')],
  observe=['Similarity of the neighbours that Search returns'])
p('C34','GloVe descends its weighted least-squares objective',
  'GloVe trains on one item for each counted pair of words: the two ids, the logarithm of the count, and the weight, which is (count/Xmax)^Alpha below Xmax and 1 from Xmax on. In each iteration a worker trains every item of its part once as (word, context) and once as (context, word). One such step changes the two vectors and the two biases, and nothing else of the parameters, by the gradient of weight * (inner product + biases - log count)^2 times the learning rate, taken at the values before the step; with AdaGrad each element is divided by the square root of the sum of its own squared gradients.',
  ['inputs','configurations'],'every count, option value and parameter value, in exact arithmetic and without interference by other workers',
  'No test checks a training step; the only test of GloVe checks that there are as many items as pairs.',
  ['pkg/model/glove/glove.go','pkg/model/glove/item.go','pkg/model/glove/solver.go'],[('items from counted pairs','makeItems'),('both directions of each item','trainPerThread'),('the two gradient steps','stochastic.trainOne, adaGrad.trainOne')],
  observe=['the trained parameters'])
p('C35','LexVec moves towards the chosen association measure',
  'The measure of a counted pair is that of RelationType: the count, its logarithm, the pointwise mutual information log(count) - log(freq) - Smooth*log(freq of the other) + Smooth*log(number of words), or that value with negative ones raised to 0; pairs that were not counted have measure 0. For each word of the window of a trained word the row of the word and the row of the context word move by the learning rate times the gradient of the squared difference of their inner product and the measure of exactly this pair, taken at the values before the step; it is followed by NegativeSampleSize further steps of the trained word with words each drawn at random from the whole vocabulary and the measures of those pairs. No other parameters change.',
  ['inputs','configurations'],'every count, frequency, option value and parameter value, in exact arithmetic and without interference by other workers',
  'No test checks a training step or the value of a measure.',
  ['pkg/model/lexvec/lexvec.go','pkg/model/lexvec/item.go'],[('the measures of counted pairs','makeItems, calculateRelation'),('window, samples and steps','trainOne, update')],
  observe=['the trained parameters'])
p('C36','word2vec descends the loss of the chosen optimizer',
  'For a word to predict and an input vector, negative sampling trains the word itself once with label 1 and NegativeSampleSize words, each drawn at random from the whole vocabulary, with label 0 (a draw of the word itself may be left out); hierarchical softmax trains every inner node of the path to the word, cut at MaxDepth, with label 1 minus the code of the next node (a node at which the sigmoid is saturated, at 4 or beyond, may be left out, and what is below it). One such step changes the output vector by (label - sigmoid(inner product)) * rate * input and the gradient by the same factor times the output vector as it was before the step; nothing else is changed. The tabulated sigmoid is the logistic function up to the width of one entry, and 0 or 1 only where it is within 0.02 of that. Skip-gram predicts the trained word from each word of its window and adds to the row of that word the whole gradient that the optimizer left; CBOW predicts it from the sum of the rows of the window and adds the whole gradient to each of them.',
  ['inputs','configurations'],'every vector, draw, tree, option value and position, in exact arithmetic and without interference by other workers',
  'No test checks a training step; the one test of the sigmoid accepts every value.',
  ['pkg/model/word2vec/optimizer.go','pkg/model/word2vec/sigmoid_table.go','pkg/model/word2vec/model.go'],[('the two optimizers','negativeSampling.optim, hierarchicalSoftmax.optim'),('the sigmoid table','newSigmoidTable, sigmoidTable.sigmoid'),('input rows and gradients','skipGram.trainOne, cbow.trainOne')],
  observe=['the trained parameters'])
p('C37','The context of a word is its window',
  'The context that skip-gram, CBOW and LexVec train a word with is every other position of the text that is at most Window - d positions away from it, on either side and on both sides alike, where d is one random draw from 0 to Window-1 for this word; no position of the window is left out, whatever word is there and wherever the text begins and ends, and none outside is trained.',
  ['inputs','configurations'],'every text, position, window size and draw',
  'No test trains a word with its context.',
  ['pkg/model/word2vec/model.go','pkg/model/lexvec/lexvec.go'],[('window loops','skipGram.trainOne, cbow.dowith, lexvec.trainOne')],
  observe=['the words that are trained together'])
p('C38','Subsampling keeps frequent words less often than rare ones',
  'For word2vec and LexVec, for each occurrence of a word in the text one random trial, independent of the other occurrences and drawn anew each time the occurrence is reached, decides whether it is trained; it is trained with probability min(1, sqrt(SubsampleThreshold / relative frequency of the word in the corpus)), and always when the threshold is not positive. So the share of the occurrences that is trained falls as a word gets more frequent, and words below the threshold are always trained.',
  ['inputs','configurations'],'every frequency, corpus size and threshold, in exact arithmetic',
  'Subsampling has no test.',
  ['pkg/model/modelutil/subsample/subsample.go','pkg/model/word2vec/word2vec.go','pkg/model/lexvec/lexvec.go'],[('share of a word and the trial','subsample.New, Subsampler.Trial'),('the worker loops','word2vec.trainPerThread, lexvec.trainPerThread')],
  observe=['how often each occurrence is trained'])
p('C39','Search returns the true nearest neighbours',
  'Searcher.Search(query, k) returns the k stored items, other than the excluded words, that have the highest positive cosine similarity to the query (all of them if there are fewer): an item is left out only when its word is excluded, its similarity is not positive, or k items at least as similar are returned; duplicates of a word are items of their own; nothing that was inserted is lost other than by falling off the end of the list.',
  ['inputs'],'every set of items, query and k, and every order of the items',
  'Both search tests use k=1.',
  ['pkg/search/search.go','pkg/search/searchutil/searchutil.go'],[('loop over the items and bounded insertion','Searcher.Search')],
  observe=['the returned neighbours'])
p('C40','A pair counts 1, or the inverse of its distance',
  'Each co-occurring pair that a corpus counts adds, once, to the entry of its two words: 1 with the count type "inc", and 1/d with "prox", where d is the number of positions between the two words in the text (1 for neighbours), whichever corpus is used. Every pair can be counted with both count types, also that of a word with itself.',
  ['inputs','configurations'],'every text, window and count type, in exact arithmetic',
  'No test counts by proximity; the one test of the table adds one pair and looks at the number of entries only.',
  ['pkg/corpus/cooccurrence/cooccurrence.go','pkg/corpus/cpsutil/cpsutil.go','pkg/corpus/fs/fs.go','pkg/corpus/memory/memory.go'],[('weight of a pair','Cooccurrence.AddWithDistance, Add'),('distance of the words','ReadWordWithForwardDistance, Corpus.Load of both corpora')],
  observe=['the co-occurrence matrix'])
# not claimed by a check (see MANIFEST not_applicable)
p('N01','Trained vectors capture word similarity',
  'After training on a natural corpus, words used in similar contexts have a higher cosine similarity than unrelated words, for each model and its default options.',
  ['inputs','schedules'],'every corpus and schedule','Only the end-to-end script, which is no test, trains; it checks nothing.',
  TRAIN,[('the optimisation steps','trainOne, optim, update')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
