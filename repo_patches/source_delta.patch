From 00a9a7a667569529c9b87ccd42eb2e23a64cb86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 01/29] fix: report failures to rewind the corpus

---
 pkg/corpus/cpsutil/cpsutil.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 020b098..dde1dbe 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -28,7 +28,9 @@ func scanner(r io.Reader) *bufio.Scanner {
 }
 
 func ReadWord(r io.ReadSeeker, fn func(string) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	for scanner.Scan() {
 		if err := fn(scanner.Text()); err != nil {
@@ -44,7 +46,9 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 }
 
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	var (
 		axis string
-- 
2.43.0


From 46ca18a326c156ab0e37ef89bfd06302de339d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 02/29] fix: count every co-occurring pair of a streamed
 corpus, and no pair without two words

The forward context was padded with empty words when the corpus is shorter
than the window, and the pairs among the last window-1 words were dropped.
---
 pkg/corpus/cpsutil/cpsutil.go | 39 +++++++++++------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index dde1dbe..270ebc8 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -50,45 +50,30 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 		return err
 	}
 	scanner := scanner(r)
-	var (
-		axis string
-		ws   []string = make([]string, n)
-	)
+	// ws holds the axis word followed by the (at most n) words after it.
+	ws := make([]string, 0)
 	postFn := func() error {
-		for _, w := range ws {
-			if err := fn(axis, w); err != nil {
+		for _, w := range ws[1:] {
+			if err := fn(ws[0], w); err != nil {
 				return err
 			}
 		}
+		ws = ws[1:]
 		return nil
 	}
-	for {
-		if axis == "" {
-			if !scanner.Scan() {
-				break
-			}
-			axis = scanner.Text()
-			for i := 0; i < n; i++ {
-				if !scanner.Scan() {
-					break
-				}
-				ws[i] = scanner.Text()
-			}
-		} else {
-			axis = ws[0]
-			ws = ws[1:]
-			if !scanner.Scan() {
-				break
+	for scanner.Scan() {
+		ws = append(ws, scanner.Text())
+		if len(ws) > n {
+			if err := postFn(); err != nil {
+				return err
 			}
-			ws = append(ws, scanner.Text())
 		}
+	}
+	for len(ws) > 0 {
 		if err := postFn(); err != nil {
 			return err
 		}
 	}
-	if err := postFn(); err != nil {
-		return err
-	}
 
 	if err := scanner.Err(); err != nil && err != io.EOF {
 		return err
-- 
2.43.0


From 3e77cf09da31f433e62d95e5d20398a947738136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 03/29] fix: lowercase the words of a streamed corpus when
 counting co-occurrences too

---
 pkg/corpus/fs/fs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index c28860b..48fca89 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -131,6 +131,10 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 		}
 
 		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+			if c.toLower {
+				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
+			}
+
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
 			if err := c.cooc.Add(id1, id2); err != nil {
-- 
2.43.0


From 6a33d3762b59ee72728c69a716fc37a878c33889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 04/29] fix: return the error of reading a batch from Train
 instead of waiting forever

---
 pkg/corpus/fs/fs.go            | 4 +++-
 pkg/model/lexvec/lexvec.go     | 8 +++++++-
 pkg/model/word2vec/word2vec.go | 8 +++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 48fca89..960f313 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -56,6 +56,9 @@ func (c *Corpus) IndexedDoc() []int {
 }
 
 func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
+	// the receiver ranges over ch, so that ch must be closed on errors too.
+	defer close(ch)
+
 	cursor, ids := 0, make([]int, batchSize)
 	if err := cpsutil.ReadWord(c.doc, func(word string) error {
 		if c.toLower {
@@ -80,7 +83,6 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 
 	// send left words
 	ch <- ids[:cursor]
-	close(ch)
 	return nil
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 09004e7..24fbbba 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -158,7 +158,10 @@ func (l *lexvec) batchTrain() error {
 		wg := &sync.WaitGroup{}
 
 		in := make(chan []int, l.opts.Goroutines)
-		go l.corpus.BatchWords(in, l.opts.BatchSize)
+		read := make(chan error, 1)
+		go func() {
+			read <- l.corpus.BatchWords(in, l.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go l.trainPerThread(doc, items, trained, sem, wg)
@@ -166,6 +169,9 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		if err := <-read; err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index fa84d9c..41b8384 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -167,7 +167,10 @@ func (w *word2vec) batchTrain() error {
 		wg := &sync.WaitGroup{}
 
 		in := make(chan []int, w.opts.Goroutines)
-		go w.corpus.BatchWords(in, w.opts.BatchSize)
+		read := make(chan error, 1)
+		go func() {
+			read <- w.corpus.BatchWords(in, w.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go w.trainPerThread(doc, trained, sem, wg)
@@ -175,6 +178,9 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		if err := <-read; err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From b1af2a6af7dc4c6619c3a89a65985dcb698b8d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 05/29] fix: deliver the words of an in-memory corpus in
 batches and close the channel

A receiver that ranges over the channel waited forever.
---
 pkg/corpus/memory/memory.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/corpus/memory/memory.go b/pkg/corpus/memory/memory.go
index 41c5f2e..21d74e8 100644
--- a/pkg/corpus/memory/memory.go
+++ b/pkg/corpus/memory/memory.go
@@ -64,7 +64,15 @@ func (c *Corpus) IndexedDoc() []int {
 	return res
 }
 
-func (c *Corpus) BatchWords(chan []int, int) error {
+func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
+	defer close(ch)
+
+	doc := c.IndexedDoc()
+	for len(doc) > batchSize {
+		ch <- doc[:batchSize]
+		doc = doc[batchSize:]
+	}
+	ch <- doc
 	return nil
 }
 
-- 
2.43.0


From a8a941587597834390494c130193260f08c420f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 06/29] fix: wait for the observer of an iteration before the
 next one starts

Train returned, or went on to the next iteration, while the observer still
updated the learning rate and printed.
---
 pkg/model/glove/glove.go       |  7 ++++++-
 pkg/model/lexvec/lexvec.go     | 14 ++++++++++++--
 pkg/model/word2vec/word2vec.go | 14 ++++++++++++--
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index f3b0d18..8bc8443 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -117,7 +117,11 @@ func (g *glove) train() error {
 
 	for i := 0; i < g.opts.Iter; i++ {
 		trained, clk := make(chan struct{}), clock.New()
-		go g.observe(trained, clk)
+		observed := make(chan struct{})
+		go func() {
+			defer close(observed)
+			g.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(g.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -130,6 +134,7 @@ func (g *glove) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 24fbbba..2191316 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -127,7 +127,11 @@ func (l *lexvec) train() error {
 
 	for i := 1; i <= l.opts.Iter; i++ {
 		trained, clk := make(chan struct{}), clock.New()
-		go l.observe(trained, clk)
+		observed := make(chan struct{})
+		go func() {
+			defer close(observed)
+			l.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -140,6 +144,7 @@ func (l *lexvec) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
@@ -152,7 +157,11 @@ func (l *lexvec) batchTrain() error {
 
 	for i := 1; i <= l.opts.Iter; i++ {
 		trained, clk := make(chan struct{}), clock.New()
-		go l.observe(trained, clk)
+		observed := make(chan struct{})
+		go func() {
+			defer close(observed)
+			l.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -169,6 +178,7 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 		if err := <-read; err != nil {
 			return err
 		}
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 41b8384..fa4fa99 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -141,7 +141,11 @@ func (w *word2vec) train() error {
 
 	for i := 1; i <= w.opts.Iter; i++ {
 		trained, clk := make(chan struct{}), clock.New()
-		go w.observe(trained, clk)
+		observed := make(chan struct{})
+		go func() {
+			defer close(observed)
+			w.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -154,6 +158,7 @@ func (w *word2vec) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
@@ -161,7 +166,11 @@ func (w *word2vec) train() error {
 func (w *word2vec) batchTrain() error {
 	for i := 1; i <= w.opts.Iter; i++ {
 		trained, clk := make(chan struct{}), clock.New()
-		go w.observe(trained, clk)
+		observed := make(chan struct{})
+		go func() {
+			defer close(observed)
+			w.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -178,6 +187,7 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 		if err := <-read; err != nil {
 			return err
 		}
-- 
2.43.0


From d9ff2876f0db7d882c864d53c63cb7667b036f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 07/29] fix: report failures to write the word vectors from
 Save

---
 pkg/model/modelutil/vector/vector.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/model/modelutil/vector/vector.go b/pkg/model/modelutil/vector/vector.go
index ebc580d..327c34e 100644
--- a/pkg/model/modelutil/vector/vector.go
+++ b/pkg/model/modelutil/vector/vector.go
@@ -43,7 +43,6 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 		return fmt.Errorf("different for length of dic and row of matrix: %d, %d", dic.Len(), mat.Row())
 	}
 	writer := bufio.NewWriter(f)
-	defer writer.Flush()
 
 	var buf bytes.Buffer
 	clk := clock.New()
@@ -60,7 +59,12 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 			}
 		})
 	}
-	writer.WriteString(fmt.Sprintf("%v", buf.String()))
+	if _, err := writer.WriteString(fmt.Sprintf("%v", buf.String())); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	verbose.Do(func() {
 		fmt.Printf("saved %d words %v\r\n", dic.Len(), clk.AllElapsed())
 	})
-- 
2.43.0


From 84ff3180a94d73489555cfe8eeb89dfc7a62d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 08/29] fix: return no blank neighbors when fewer than k words
 are similar

---
 pkg/search/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index ed5c89a..0dd49dc 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -129,6 +129,7 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 	for i := 0; i < len(neighbors); i++ {
 		if neighbors[i].Word == "" {
 			k = i
+			break
 		}
 	}
 
-- 
2.43.0


From c4d5bd047f54107a6deaff3beec283dd2bc37b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 09/29] fix: reject a search for no or a negative number of
 neighbors instead of panicking

---
 pkg/search/search.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index 0dd49dc..3e44d83 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -92,6 +92,9 @@ func (s *Searcher) SearchVector(query []float64, k int) (Neighbors, error) {
 }
 
 func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string) (Neighbors, error) {
+	if k <= 0 {
+		return nil, errors.Errorf("number of neighbors must be positive, got %d", k)
+	}
 	neighbors := make(Neighbors, k)
 
 	// Map to quickly check if a word is to be ignored.
-- 
2.43.0


From 91ec66d445c3914d397542c7ba5b625b4076c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 10/29] fix: reject a query whose dimension differs from the
 searched vectors

A longer query panicked and a shorter one was compared with a prefix.
---
 pkg/search/search.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index 3e44d83..df300fd 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -112,6 +112,9 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 			continue
 		}
 
+		if len(query.Vector) != len(item.Vector) {
+			return nil, errors.Errorf("dimension of query must be the same as %s: %d but got %d", item.Word, len(item.Vector), len(query.Vector))
+		}
 		score := searchutil.Cosine(query.Vector, item.Vector, query.Norm, item.Norm)
 		// ignore current word if it's similarity is below the lowest score.
 		if score > low {
-- 
2.43.0


From 74c187e8613174dc1bc41e7b1c341f2bc96f34fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 11/29] fix: report an unknown second word of a console
 expression

---
 pkg/search/console/console.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 54fe785..bae4c2a 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -136,7 +136,7 @@ func (c *Console) evalBinaryExpr(expr *ast.BinaryExpr) error {
 	}
 	yi, err := c.evalAsEmbedding(expr.Y)
 	if err != nil {
-		return nil
+		return err
 	}
 	c.cursor.w1 = xi.Word
 	c.cursor.w2 = yi.Word
-- 
2.43.0


From 2f8146db8b59f6c4033c5a659d9ef259b93677fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 12/29] fix: leave the console at the end of its input instead
 of prompting forever

---
 pkg/search/console/console.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index bae4c2a..45b749e 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -19,6 +19,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io"
 
 	"github.com/peterh/liner"
 	"github.com/pkg/errors"
@@ -65,8 +66,10 @@ func (c *Console) Run() error {
 	defer c.Close()
 	for {
 		l, err := c.Prompt(">> ")
-		if err != nil {
-			fmt.Println("error: ", err)
+		if err == io.EOF {
+			return nil
+		} else if err != nil {
+			return err
 		}
 		switch l {
 		case "exit":
-- 
2.43.0


From 85095d8a0d68d431ea4db32613db8231b7462850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 13/29] fix: return aggregated vectors of GloVe and LexVec for
 agg, and word vectors for single

The two vector types were swapped compared with their names and Word2Vec.
---
 pkg/model/glove/glove.go   | 2 +-
 pkg/model/lexvec/lexvec.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 8bc8443..1aeb56a 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -186,7 +186,7 @@ func (g *glove) Save(f io.Writer, typ vector.Type) error {
 func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
 	dic := g.corpus.Dictionary()
-	if typ == vector.Agg {
+	if typ != vector.Agg {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < g.opts.Dim; i++ {
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 2191316..4fe0a51 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -276,7 +276,7 @@ func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
 func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
 	dic := l.corpus.Dictionary()
-	if typ == vector.Agg {
+	if typ != vector.Agg {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < l.opts.Dim; i++ {
-- 
2.43.0


From a7aef4e464eedceb84f001e1aef22e90496a4ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 14/29] fix: reject unknown vector types instead of saving
 single vectors

---
 cmd/model/glove/glove.go             | 3 +++
 cmd/model/lexvec/lexvec.go           | 3 +++
 cmd/model/word2vec/word2vec.go       | 3 +++
 pkg/model/glove/glove.go             | 3 +++
 pkg/model/lexvec/lexvec.go           | 3 +++
 pkg/model/modelutil/vector/vector.go | 8 ++++++++
 pkg/model/word2vec/word2vec.go       | 3 +++
 7 files changed, 26 insertions(+)

diff --git a/cmd/model/glove/glove.go b/cmd/model/glove/glove.go
index fb73414..cab2fc8 100644
--- a/cmd/model/glove/glove.go
+++ b/cmd/model/glove/glove.go
@@ -67,6 +67,9 @@ func execute(opts glove.Options) error {
 		defer pprof.StopCPUProfile()
 	}
 
+	if err := vector.ValidateType(vectorType); err != nil {
+		return err
+	}
 	if fileExists(outputFile) {
 		return errors.Errorf("%s is already existed", outputFile)
 	} else if !fileExists(inputFile) {
diff --git a/cmd/model/lexvec/lexvec.go b/cmd/model/lexvec/lexvec.go
index 97f369c..8644409 100644
--- a/cmd/model/lexvec/lexvec.go
+++ b/cmd/model/lexvec/lexvec.go
@@ -67,6 +67,9 @@ func execute(opts lexvec.Options) error {
 		defer pprof.StopCPUProfile()
 	}
 
+	if err := vector.ValidateType(vectorType); err != nil {
+		return err
+	}
 	if fileExists(outputFile) {
 		return errors.Errorf("%s is already existed", outputFile)
 	} else if !fileExists(inputFile) {
diff --git a/cmd/model/word2vec/word2vec.go b/cmd/model/word2vec/word2vec.go
index d6c6ae6..d7317c8 100644
--- a/cmd/model/word2vec/word2vec.go
+++ b/cmd/model/word2vec/word2vec.go
@@ -67,6 +67,9 @@ func execute(opts word2vec.Options) error {
 		defer pprof.StopCPUProfile()
 	}
 
+	if err := vector.ValidateType(vectorType); err != nil {
+		return err
+	}
 	if fileExists(outputFile) {
 		return errors.Errorf("%s is already existed", outputFile)
 	} else if !fileExists(inputFile) {
diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 1aeb56a..4f99f09 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -180,6 +180,9 @@ func (g *glove) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (g *glove) Save(f io.Writer, typ vector.Type) error {
+	if err := vector.ValidateType(typ); err != nil {
+		return err
+	}
 	return vector.Save(f, g.corpus.Dictionary(), g.WordVector(typ), g.verbose, g.opts.LogBatch)
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 4fe0a51..65b84f1 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -270,6 +270,9 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
+	if err := vector.ValidateType(typ); err != nil {
+		return err
+	}
 	return vector.Save(f, l.corpus.Dictionary(), l.WordVector(typ), l.verbose, l.opts.LogBatch)
 }
 
diff --git a/pkg/model/modelutil/vector/vector.go b/pkg/model/modelutil/vector/vector.go
index 327c34e..eb49268 100644
--- a/pkg/model/modelutil/vector/vector.go
+++ b/pkg/model/modelutil/vector/vector.go
@@ -38,6 +38,14 @@ const (
 	Agg    Type = "agg"
 )
 
+// ValidateType returns an error unless typ is one of the types above.
+func ValidateType(typ Type) error {
+	if typ != Single && typ != Agg {
+		return InvalidTypeError(typ)
+	}
+	return nil
+}
+
 func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *verbose.Verbose, logBatch int) error {
 	if dic.Len() != mat.Row() {
 		return fmt.Errorf("different for length of dic and row of matrix: %d, %d", dic.Len(), mat.Row())
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index fa4fa99..19a521a 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -243,6 +243,9 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (w *word2vec) Save(f io.Writer, typ vector.Type) error {
+	if err := vector.ValidateType(typ); err != nil {
+		return err
+	}
 	return vector.Save(f, w.corpus.Dictionary(), w.WordVector(typ), w.verbose, w.opts.LogBatch)
 }
 
-- 
2.43.0


From 7aec1dcfcc539d579704e90d9022a31dbdf29ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 15/29] fix: keep the learning rate at or above its lower limit

---
 pkg/model/lexvec/lexvec.go     | 8 ++++----
 pkg/model/word2vec/word2vec.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 65b84f1..91d99d7 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -252,11 +252,11 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%l.opts.UpdateLRBatch == 0 {
-			if l.currentlr < l.opts.MinLR {
-				l.currentlr = l.opts.MinLR
-			} else {
-				l.currentlr = l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			lr := l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			if lr < l.opts.MinLR {
+				lr = l.opts.MinLR
 			}
+			l.currentlr = lr
 		}
 		l.verbose.Do(func() {
 			if cnt%l.opts.LogBatch == 0 {
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 19a521a..06c5eeb 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -225,11 +225,11 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%w.opts.UpdateLRBatch == 0 {
-			if w.currentlr < w.opts.MinLR {
-				w.currentlr = w.opts.MinLR
-			} else {
-				w.currentlr = w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			lr := w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			if lr < w.opts.MinLR {
+				lr = w.opts.MinLR
 			}
+			w.currentlr = lr
 		}
 		w.verbose.Do(func() {
 			if cnt%w.opts.LogBatch == 0 {
-- 
2.43.0


From 0c543d3e15a04336cc0b132187de43761e140432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 16/29] fix: update the learning rate atomically while the
 workers read it

---
 pkg/model/lexvec/lexvec.go     | 18 +++++++++---------
 pkg/model/word2vec/word2vec.go | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 91d99d7..f0ab9a6 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	"math/rand"
 	"sync"
+	"sync/atomic"
 
 	"golang.org/x/sync/semaphore"
 
@@ -44,7 +45,7 @@ type lexvec struct {
 
 	param      *matrix.Matrix
 	subsampler *subsample.Subsampler
-	currentlr  float64
+	currentlr  atomic.Value // float64, updated by the observer while training
 
 	verbose *verbose.Verbose
 }
@@ -60,14 +61,13 @@ func New(opts ...ModelOption) (model.Model, error) {
 
 func NewForOptions(opts Options) (model.Model, error) {
 	// TODO: validate Options
-	v := verbose.New(opts.Verbose)
-	return &lexvec{
+	l := &lexvec{
 		opts: opts,
 
-		currentlr: opts.Initlr,
-
-		verbose: v,
-	}, nil
+		verbose: verbose.New(opts.Verbose),
+	}
+	l.currentlr.Store(opts.Initlr)
+	return l, nil
 }
 
 func (l *lexvec) Train(r io.ReadSeeker) error {
@@ -238,7 +238,7 @@ func (l *lexvec) update(l1, l2 int, f float64) {
 	for i := 0; i < l.opts.Dim; i++ {
 		diff += l.param.Slice(l1)[i] * l.param.Slice(l2)[i]
 	}
-	diff = (diff - f) * l.currentlr
+	diff = (diff - f) * l.currentlr.Load().(float64)
 	for i := 0; i < l.opts.Dim; i++ {
 		t1 := diff * l.param.Slice(l2)[i]
 		t2 := diff * l.param.Slice(l1)[i]
@@ -256,7 +256,7 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 			if lr < l.opts.MinLR {
 				lr = l.opts.MinLR
 			}
-			l.currentlr = lr
+			l.currentlr.Store(lr)
 		}
 		l.verbose.Do(func() {
 			if cnt%l.opts.LogBatch == 0 {
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 06c5eeb..03e1108 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	"math/rand"
 	"sync"
+	"sync/atomic"
 
 	"golang.org/x/sync/semaphore"
 
@@ -43,7 +44,7 @@ type word2vec struct {
 
 	param      *matrix.Matrix
 	subsampler *subsample.Subsampler
-	currentlr  float64
+	currentlr  atomic.Value // float64, updated by the observer while training
 	mod        mod
 	optimizer  optimizer
 
@@ -61,14 +62,13 @@ func New(opts ...ModelOption) (model.Model, error) {
 
 func NewForOptions(opts Options) (model.Model, error) {
 	// TODO: validate Options
-	v := verbose.New(opts.Verbose)
-	return &word2vec{
+	w := &word2vec{
 		opts: opts,
 
-		currentlr: opts.Initlr,
-
-		verbose: v,
-	}, nil
+		verbose: verbose.New(opts.Verbose),
+	}
+	w.currentlr.Store(opts.Initlr)
+	return w, nil
 }
 
 func (w *word2vec) Train(r io.ReadSeeker) error {
@@ -212,7 +212,7 @@ func (w *word2vec) trainPerThread(
 
 	for pos, id := range doc {
 		if w.subsampler.Trial(id) {
-			w.mod.trainOne(doc, pos, w.currentlr, w.param, w.optimizer)
+			w.mod.trainOne(doc, pos, w.currentlr.Load().(float64), w.param, w.optimizer)
 		}
 		trained <- struct{}{}
 	}
@@ -229,7 +229,7 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 			if lr < w.opts.MinLR {
 				lr = w.opts.MinLR
 			}
-			w.currentlr = lr
+			w.currentlr.Store(lr)
 		}
 		w.verbose.Do(func() {
 			if cnt%w.opts.LogBatch == 0 {
-- 
2.43.0


From a3ebbb226af06afc852cfe3b21c3afd9d912c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 17/29] fix: draw random numbers atomically, the workers share
 the generator

---
 pkg/model/modelutil/modelutil.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/model/modelutil/modelutil.go b/pkg/model/modelutil/modelutil.go
index d0207db..4b58e38 100644
--- a/pkg/model/modelutil/modelutil.go
+++ b/pkg/model/modelutil/modelutil.go
@@ -16,6 +16,7 @@ package modelutil
 
 import (
 	"math"
+	"sync/atomic"
 )
 
 var (
@@ -24,8 +25,13 @@ var (
 
 // NextRandom is linear congruential generator (rand.Intn).
 func NextRandom(value int) int {
-	next = next*uint64(25214903917) + 11
-	return int(next % uint64(value))
+	for {
+		cur := atomic.LoadUint64(&next)
+		n := cur*uint64(25214903917) + 11
+		if atomic.CompareAndSwapUint64(&next, cur, n) {
+			return int(n % uint64(value))
+		}
+	}
 }
 
 // IndexPerThread creates interval of indices per thread.
-- 
2.43.0


From 656eaf8307ea949926e9b0ad71ef74227baa1130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 18/29] fix: build the path of a word in the Huffman tree once,
 the workers share it

A worker could use a path that another one was still building or reversing.
---
 pkg/corpus/dictionary/node/node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 506f48b..288fe52 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -14,7 +14,10 @@
 
 package node
 
+import "sync"
+
 type Node struct {
+	once   sync.Once
 	cache  []*Node
 	Parent *Node
 	Val    int
@@ -24,7 +27,7 @@ type Node struct {
 }
 
 func (n *Node) GetPath(depth int) []*Node {
-	if n.cache == nil {
+	n.once.Do(func() {
 		re := func(nodes []*Node) {
 			for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {
 				nodes[i], nodes[j] = nodes[j], nodes[i]
@@ -35,7 +38,7 @@ func (n *Node) GetPath(depth int) []*Node {
 			n.cache = append(n.cache, p)
 		}
 		re(n.cache)
-	}
+	})
 	if depth > len(n.cache) {
 		depth = len(n.cache)
 	}
-- 
2.43.0


From 7e9f60b3e39bdcc59d54e21e88d783f22967e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 19/29] fix: track the full path from root to word with
 max-depth=0, as its flag says

---
 pkg/corpus/dictionary/node/node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 288fe52..e8dff7d 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -39,7 +39,8 @@ func (n *Node) GetPath(depth int) []*Node {
 		}
 		re(n.cache)
 	})
-	if depth > len(n.cache) {
+	// depth=0 means the full path.
+	if depth <= 0 || depth > len(n.cache) {
 		depth = len(n.cache)
 	}
 	return n.cache[:depth]
-- 
2.43.0


From b4f401dff709d3c7454fde1496ba820a4e1ae74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 20/29] fix: log loading the corpus of LexVec every LogBatch
 words, not BatchSize

---
 pkg/model/lexvec/lexvec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index f0ab9a6..7314b50 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -82,7 +82,7 @@ func (l *lexvec) Train(r io.ReadSeeker) error {
 			CountType: co.Increment,
 			Window:    l.opts.Window,
 		},
-		l.verbose, l.opts.BatchSize,
+		l.verbose, l.opts.LogBatch,
 	); err != nil {
 		return err
 	}
-- 
2.43.0


From 0ce705f9c0e2c1bfb0aacdebe977fbf400979317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 21/29] fix: update the very context words that CBOW aggregated

The shrunken window was drawn again for the update.
---
 pkg/model/word2vec/model.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/model/word2vec/model.go b/pkg/model/word2vec/model.go
index 818d9ef..1ea9ba7 100644
--- a/pkg/model/word2vec/model.go
+++ b/pkg/model/word2vec/model.go
@@ -117,19 +117,20 @@ func (mod *cbow) trainOne(
 	for i := 0; i < len(agg); i++ {
 		agg[i], tmp[i] = 0, 0
 	}
-	mod.dowith(doc, pos, param, agg, tmp, mod.aggregate)
+	del := modelutil.NextRandom(mod.window)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)
 	optimizer.optim(doc[pos], lr, agg, tmp)
-	mod.dowith(doc, pos, param, agg, tmp, mod.update)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.update)
 }
 
 func (mod *cbow) dowith(
 	doc []int,
 	pos int,
+	del int,
 	param *matrix.Matrix,
 	agg, tmp []float64,
 	fn func(ctx, agg, tmp []float64),
 ) {
-	del := modelutil.NextRandom(mod.window)
 	for a := del; a < mod.window*2+1-del; a++ {
 		if a == mod.window {
 			continue
-- 
2.43.0


From 5efd0986f50ec3923c5451150eb4235cb9a6cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 22/29] fix: keep lookups of the sigmoid table within the table

Values next to max_exp round to the index behind its end, and NaN, to which a
too large learning rate leads, has no index at all.
---
 pkg/model/word2vec/sigmoid_table.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/model/word2vec/sigmoid_table.go b/pkg/model/word2vec/sigmoid_table.go
index 2727236..5eb563d 100644
--- a/pkg/model/word2vec/sigmoid_table.go
+++ b/pkg/model/word2vec/sigmoid_table.go
@@ -39,7 +39,13 @@ func newSigmoidTable() *sigmoidTable {
 }
 
 // sigmoid returns: f(x) = (x + max_exp) * (exp_table_size / max_exp / 2)
-// If you set x to over |max_exp|, it raises index out of range error.
+// If you set x to over |max_exp| or NaN, it returns an end of the table.
 func (s *sigmoidTable) sigmoid(x float64) float64 {
-	return s.expTable[int((x+s.maxExp)*s.cache)]
+	i := int((x + s.maxExp) * s.cache)
+	if i < 0 {
+		i = 0
+	} else if i >= len(s.expTable) {
+		i = len(s.expTable) - 1
+	}
+	return s.expTable[i]
 }
-- 
2.43.0


From 5fe918d10f5de871298bbea9f6a60dd7a0442ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 23/29] fix: load vectors whose line is longer than 64 KiB

---
 pkg/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/embedding/embedding.go b/pkg/embedding/embedding.go
index 0752cc0..86eed6d 100644
--- a/pkg/embedding/embedding.go
+++ b/pkg/embedding/embedding.go
@@ -17,6 +17,7 @@ package embedding
 import (
 	"bufio"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 
@@ -86,6 +87,8 @@ func Load(r io.Reader) (Embeddings, error) {
 
 func parse(r io.Reader, op func(Embedding) error) error {
 	s := bufio.NewScanner(r)
+	// a line grows with the dimension of the vectors.
+	s.Buffer(nil, math.MaxInt)
 	for s.Scan() {
 		line := s.Text()
 		if strings.HasPrefix(line, " ") {
-- 
2.43.0


From f2ebdfe285d05c4ba1491345733d908c363f5347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 24/29] fix: reject options that make Train panic or wait
 forever

Train divided by zero, made slices of negative size or waited for a semaphore
of size zero.
---
 pkg/model/glove/glove.go       |  4 +++-
 pkg/model/glove/options.go     | 18 ++++++++++++++++++
 pkg/model/lexvec/lexvec.go     |  4 +++-
 pkg/model/lexvec/options.go    | 25 +++++++++++++++++++++++++
 pkg/model/word2vec/options.go  | 24 ++++++++++++++++++++++++
 pkg/model/word2vec/word2vec.go |  4 +++-
 6 files changed, 76 insertions(+), 3 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 4f99f09..48dfd02 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -56,7 +56,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	v := verbose.New(opts.Verbose)
 	return &glove{
 		opts: opts,
diff --git a/pkg/model/glove/options.go b/pkg/model/glove/options.go
index a39aa90..51c1af0 100644
--- a/pkg/model/glove/options.go
+++ b/pkg/model/glove/options.go
@@ -17,6 +17,7 @@ import (
 	"fmt"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
 )
@@ -90,6 +91,23 @@ func DefaultOptions() Options {
 	}
 }
 
+// validate returns an error for options that Train can not work with.
+func (opts Options) validate() error {
+	if opts.Dim <= 0 {
+		return errors.Errorf("Dim must be positive, got %d", opts.Dim)
+	}
+	if opts.Goroutines <= 0 {
+		return errors.Errorf("Goroutines must be positive, got %d", opts.Goroutines)
+	}
+	if opts.LogBatch <= 0 {
+		return errors.Errorf("LogBatch must be positive, got %d", opts.LogBatch)
+	}
+	if opts.Window <= 0 {
+		return errors.Errorf("Window must be positive, got %d", opts.Window)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().Float64Var(&opts.Alpha, "alpha", defaultAlpha, "exponent of weighting function")
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 7314b50..d1046ff 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -60,7 +60,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	l := &lexvec{
 		opts: opts,
 
diff --git a/pkg/model/lexvec/options.go b/pkg/model/lexvec/options.go
index 3e0cf7d..0966576 100644
--- a/pkg/model/lexvec/options.go
+++ b/pkg/model/lexvec/options.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 )
 
@@ -94,6 +95,30 @@ func DefaultOptions() Options {
 		Window:             defaultWindow,
 	}
 }
+
+// validate returns an error for options that Train can not work with.
+func (opts Options) validate() error {
+	if opts.BatchSize <= 0 {
+		return errors.Errorf("BatchSize must be positive, got %d", opts.BatchSize)
+	}
+	if opts.Dim <= 0 {
+		return errors.Errorf("Dim must be positive, got %d", opts.Dim)
+	}
+	if opts.Goroutines <= 0 {
+		return errors.Errorf("Goroutines must be positive, got %d", opts.Goroutines)
+	}
+	if opts.LogBatch <= 0 {
+		return errors.Errorf("LogBatch must be positive, got %d", opts.LogBatch)
+	}
+	if opts.UpdateLRBatch <= 0 {
+		return errors.Errorf("UpdateLRBatch must be positive, got %d", opts.UpdateLRBatch)
+	}
+	if opts.Window <= 0 {
+		return errors.Errorf("Window must be positive, got %d", opts.Window)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
 	cmd.Flags().IntVarP(&opts.Dim, "dim", "d", defaultDim, "dimension for word vector")
diff --git a/pkg/model/word2vec/options.go b/pkg/model/word2vec/options.go
index 34e1583..c4b1af9 100644
--- a/pkg/model/word2vec/options.go
+++ b/pkg/model/word2vec/options.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 )
 
@@ -103,6 +104,29 @@ func DefaultOptions() Options {
 	}
 }
 
+// validate returns an error for options that Train can not work with.
+func (opts Options) validate() error {
+	if opts.BatchSize <= 0 {
+		return errors.Errorf("BatchSize must be positive, got %d", opts.BatchSize)
+	}
+	if opts.Dim <= 0 {
+		return errors.Errorf("Dim must be positive, got %d", opts.Dim)
+	}
+	if opts.Goroutines <= 0 {
+		return errors.Errorf("Goroutines must be positive, got %d", opts.Goroutines)
+	}
+	if opts.LogBatch <= 0 {
+		return errors.Errorf("LogBatch must be positive, got %d", opts.LogBatch)
+	}
+	if opts.UpdateLRBatch <= 0 {
+		return errors.Errorf("UpdateLRBatch must be positive, got %d", opts.UpdateLRBatch)
+	}
+	if opts.Window <= 0 {
+		return errors.Errorf("Window must be positive, got %d", opts.Window)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
 	cmd.Flags().IntVarP(&opts.Dim, "dim", "d", defaultDim, "dimension for word vector")
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 03e1108..0d99fe3 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -61,7 +61,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	w := &word2vec{
 		opts: opts,
 
-- 
2.43.0


From 6bf171813b6fb7584b5fd86bcc9c641208030ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 25/29] fix: reject unknown relation types of LexVec for every
 corpus

A corpus without any pair of words was trained with an unknown relation type.
---
 pkg/model/lexvec/options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/model/lexvec/options.go b/pkg/model/lexvec/options.go
index 0966576..5363e9d 100644
--- a/pkg/model/lexvec/options.go
+++ b/pkg/model/lexvec/options.go
@@ -116,6 +116,11 @@ func (opts Options) validate() error {
 	if opts.Window <= 0 {
 		return errors.Errorf("Window must be positive, got %d", opts.Window)
 	}
+	switch opts.RelationType {
+	case PPMI, PMI, Collocation, LogCollocation:
+	default:
+		return errors.Errorf("invalid relation: %s not in %s|%s|%s|%s", opts.RelationType, PPMI, PMI, Collocation, LogCollocation)
+	}
 	return nil
 }
 
-- 
2.43.0


From c1c1710453516037f1c70391c2a60fcfac5981ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 26/29] fix: return an error from Save of a model that is not
 trained, instead of panicking

---
 pkg/model/glove/glove.go       | 3 +++
 pkg/model/lexvec/lexvec.go     | 4 ++++
 pkg/model/word2vec/word2vec.go | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 48dfd02..dfdf457 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -185,6 +185,9 @@ func (g *glove) Save(f io.Writer, typ vector.Type) error {
 	if err := vector.ValidateType(typ); err != nil {
 		return err
 	}
+	if g.param == nil {
+		return errors.New("train the model before saving its word vectors")
+	}
 	return vector.Save(f, g.corpus.Dictionary(), g.WordVector(typ), g.verbose, g.opts.LogBatch)
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index d1046ff..f0a751c 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -24,6 +24,7 @@ import (
 
 	"golang.org/x/sync/semaphore"
 
+	"github.com/pkg/errors"
 	"github.com/ynqa/wego/pkg/corpus"
 	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
 	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
@@ -275,6 +276,9 @@ func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
 	if err := vector.ValidateType(typ); err != nil {
 		return err
 	}
+	if l.param == nil {
+		return errors.New("train the model before saving its word vectors")
+	}
 	return vector.Save(f, l.corpus.Dictionary(), l.WordVector(typ), l.verbose, l.opts.LogBatch)
 }
 
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 0d99fe3..84b9a92 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -248,6 +248,9 @@ func (w *word2vec) Save(f io.Writer, typ vector.Type) error {
 	if err := vector.ValidateType(typ); err != nil {
 		return err
 	}
+	if w.param == nil {
+		return errors.New("train the model before saving its word vectors")
+	}
 	return vector.Save(f, w.corpus.Dictionary(), w.WordVector(typ), w.verbose, w.opts.LogBatch)
 }
 
-- 
2.43.0


From ea64423507f84f08c53b257595c1534d7d6592c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 27/29] fix: train the context vectors of LexVec on the words
 of the window

The pairs of the window updated the word vectors of both words, so that
the second half of the parameters, the context vectors, was trained on
negative samples only.
---
 pkg/model/lexvec/lexvec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index f0a751c..c7419f3 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -227,7 +227,7 @@ func (l *lexvec) trainOne(doc []int, pos int, items map[uint64]float64) {
 			continue
 		}
 		enc := encode.EncodeBigram(uint64(doc[pos]), uint64(doc[c]))
-		l.update(doc[pos], doc[c], items[enc])
+		l.update(doc[pos], doc[c]+dic.Len(), items[enc])
 		for n := 0; n < l.opts.NegativeSampleSize; n++ {
 			sample := modelutil.NextRandom(dic.Len())
 			enc := encode.EncodeBigram(uint64(doc[pos]), uint64(sample))
-- 
2.43.0


From 7fbb9d3d2ed10ac75891c3d201dd903172b325d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:00 +0000
Subject: [PATCH 28/29] fix: subsample the frequent words, not the rare ones

---
 pkg/model/modelutil/subsample/subsample.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/model/modelutil/subsample/subsample.go b/pkg/model/modelutil/subsample/subsample.go
index 9510cbd..da68dcf 100644
--- a/pkg/model/modelutil/subsample/subsample.go
+++ b/pkg/model/modelutil/subsample/subsample.go
@@ -29,11 +29,21 @@ func New(
 	dic *dictionary.Dictionary,
 	threshold float64,
 ) *Subsampler {
+	var total float64
+	for i := 0; i < dic.Len(); i++ {
+		total += float64(dic.IDFreq(i))
+	}
+
+	// samples are the probabilities to train on an occurrence of the word:
+	// they fall as its relative frequency exceeds the threshold.
 	samples := make([]float64, dic.Len())
 	for i := 0; i < dic.Len(); i++ {
-		z := 1. - math.Sqrt(threshold/float64(dic.IDFreq(i)))
-		if z < 0 {
-			z = 0
+		z := 1.
+		if threshold > 0 {
+			z = math.Sqrt(threshold * total / float64(dic.IDFreq(i)))
+		}
+		if z > 1 {
+			z = 1
 		}
 		samples[i] = z
 	}
-- 
2.43.0


From 2727a0fb7e29290eb2bcac9d65357a2624f274cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:31 +0000
Subject: [PATCH 29/29] fix: weigh pairs by their distance in the corpus with
 proximity counting, not by their ids

---
 pkg/corpus/cooccurrence/cooccurrence.go | 11 ++++++++---
 pkg/corpus/cpsutil/cpsutil.go           | 11 +++++++++--
 pkg/corpus/fs/fs.go                     |  4 ++--
 pkg/corpus/memory/memory.go             |  2 +-
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/corpus/cooccurrence/cooccurrence.go b/pkg/corpus/cooccurrence/cooccurrence.go
index 6cd2449..79f1b33 100644
--- a/pkg/corpus/cooccurrence/cooccurrence.go
+++ b/pkg/corpus/cooccurrence/cooccurrence.go
@@ -55,18 +55,23 @@ func (c *Cooccurrence) EncodedMatrix() map[uint64]float64 {
 	return c.ma
 }
 
+// Add counts two words that are next to each other.
 func (c *Cooccurrence) Add(left, right int) error {
+	return c.AddWithDistance(left, right, 1)
+}
+
+// AddWithDistance counts two words that are distance positions apart.
+func (c *Cooccurrence) AddWithDistance(left, right, distance int) error {
 	enc := encode.EncodeBigram(uint64(left), uint64(right))
 	var val float64
 	switch c.typ {
 	case Increment:
 		val = 1
 	case Proximity:
-		div := left - right
-		if div == 0 {
+		if distance == 0 {
 			return errors.Errorf("Divide by zero on counting co-occurrence")
 		}
-		val = 1. / math.Abs(float64(div))
+		val = 1. / math.Abs(float64(distance))
 	default:
 		return invalidCountTypeError(c.typ)
 	}
diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 270ebc8..47c78f4 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -46,6 +46,13 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 }
 
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
+	return ReadWordWithForwardDistance(r, n, func(w1, w2 string, _ int) error {
+		return fn(w1, w2)
+	})
+}
+
+// ReadWordWithForwardDistance gives fn the number of positions between the words, too.
+func ReadWordWithForwardDistance(r io.ReadSeeker, n int, fn func(string, string, int) error) error {
 	if _, err := r.Seek(0, io.SeekStart); err != nil {
 		return err
 	}
@@ -53,8 +60,8 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 	// ws holds the axis word followed by the (at most n) words after it.
 	ws := make([]string, 0)
 	postFn := func() error {
-		for _, w := range ws[1:] {
-			if err := fn(ws[0], w); err != nil {
+		for i, w := range ws[1:] {
+			if err := fn(ws[0], w, i+1); err != nil {
 				return err
 			}
 		}
diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 960f313..a2b7a58 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -132,14 +132,14 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 			return err
 		}
 
-		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+		if err = cpsutil.ReadWordWithForwardDistance(c.doc, with.Window, func(w1, w2 string, distance int) error {
 			if c.toLower {
 				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
 			}
 
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
-			if err := c.cooc.Add(id1, id2); err != nil {
+			if err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {
 				return err
 			}
 			cursor++
diff --git a/pkg/corpus/memory/memory.go b/pkg/corpus/memory/memory.go
index 21d74e8..df7493d 100644
--- a/pkg/corpus/memory/memory.go
+++ b/pkg/corpus/memory/memory.go
@@ -126,7 +126,7 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 
 		for i := 0; i < len(c.idoc); i++ {
 			for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {
-				if err = c.cooc.Add(c.idoc[i], c.idoc[j]); err != nil {
+				if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {
 					return err
 				}
 				cursor++
-- 
2.43.0

