From 59e945d6034a3dbaa9ddfe5481a9dffe22425328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 01/22] fix: read the last dictionary row without a newline,
 keep rows apart

Without DictSep a last row "word freq" that is not followed by a newline was
dropped, and a one-field row took over the tag of the row before it.
---
 dict_util.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 58bf42c..600caeb 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -316,10 +316,8 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 // Reader load dictionary from io.Reader
 func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	var (
-		file           string
-		text, freqText string
-		freq           float64
-		pos            string
+		file string
+		freq float64
 	)
 
 	if len(files) > 0 {
@@ -330,7 +328,10 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	line := 0
 	for {
 		line++
+		// a row never sees the fields of the row before it
 		var (
+			text, freqText, pos string
+
 			size  int
 			fsErr error
 		)
@@ -342,8 +343,8 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 
 		if fsErr != nil {
 			if fsErr == io.EOF {
-				// End of file
-				if seg.DictSep == "" {
+				// End of file, the last row may have no newline
+				if seg.DictSep == "" && size == 0 {
 					break
 				}
 
-- 
2.43.0


From 00f140e749e64242a14753cbafc81de8314d8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 02/22] fix: do not keep the newline in the word of a one-field
 dictionary row

With DictSep and LoadNoFreq a row that only has the word was stored with its
line ending ("word\n"), so the word was never found.
---
 dict_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index 600caeb..8f16a2f 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -302,7 +302,7 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 	parts := strings.Split(txt, seg.DictSep+" ")
 	size = len(parts)
 
-	text = parts[0]
+	text = strings.TrimSpace(parts[0])
 	if size > 1 {
 		freqText = strings.TrimSpace(parts[1])
 	}
-- 
2.43.0


From e12c3d4d085b5752e5ed4b0fde7143a63a70b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 03/22] fix: do not count empty dictionary rows as words

The trie does not store an empty key, but every empty row (LoadNoFreq, or
AddToken with an empty text) was appended to the tokens and to the total
frequency.
---
 dictionary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 31a85bb..88353c4 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -50,6 +50,11 @@ func (dict *Dictionary) TotalFreq() float64 {
 // AddToken add a token to the dictionary
 func (dict *Dictionary) AddToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if len(bytes) == 0 {
+		// an empty row is not a word
+		return nil
+	}
+
 	val, err := dict.trie.Get(bytes)
 	if err == nil || val > 0 {
 		return nil
-- 
2.43.0


From 3228814c533b84d14b875af570455d702b15c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 04/22] fix: return dictionary read errors

A read error other than the end of file made Reader loop for ever (or, if it
did not last, add a row that was cut short) and was never returned.
---
 dict_util.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index 8f16a2f..17975f3 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -313,6 +313,22 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 	return
 }
 
+// errReader remembers the first reading error other than the end of file
+type errReader struct {
+	*bufio.Reader
+	err error
+}
+
+// ReadRune reads a single rune
+func (r *errReader) ReadRune() (c rune, size int, err error) {
+	c, size, err = r.Reader.ReadRune()
+	if err != nil && err != io.EOF && r.err == nil {
+		r.err = err
+	}
+
+	return
+}
+
 // Reader load dictionary from io.Reader
 func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	var (
@@ -325,6 +341,7 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	}
 
 	// Read the word segmentation line by line
+	rd := &errReader{Reader: reader}
 	line := 0
 	for {
 		line++
@@ -336,9 +353,17 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 			fsErr error
 		)
 		if seg.DictSep == "" {
-			size, fsErr = fmt.Fscanln(reader, &text, &freqText, &pos)
+			size, fsErr = fmt.Fscanln(rd, &text, &freqText, &pos)
 		} else {
 			size, text, freqText, pos, fsErr = seg.ReadN(reader)
+			if fsErr != nil && fsErr != io.EOF {
+				rd.err = fsErr
+			}
+		}
+
+		if rd.err != nil {
+			// the row may be cut short
+			return rd.err
 		}
 
 		if fsErr != nil {
-- 
2.43.0


From ff3cfce4e8592002d44e3946d99a2cb03578c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 05/22] fix: return stop word read errors

LoadStop took a read error or a too long line for the end of the file.
---
 stop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stop.go b/stop.go
index 4166f09..3bae291 100644
--- a/stop.go
+++ b/stop.go
@@ -74,6 +74,10 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 				seg.StopWordMap[text] = true
 			}
 		}
+
+		if err := scanner.Err(); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 7acf93b89ee27b2ca9da1102dc0830b594f96303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 06/22] fix: AddStop on a new or emptied stop word list

It panicked with an assignment to a nil map.
---
 stop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stop.go b/stop.go
index 3bae291..4028441 100644
--- a/stop.go
+++ b/stop.go
@@ -85,6 +85,10 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 
 // AddStop add a token to the StopWord dictionary.
 func (seg *Segmenter) AddStop(text string) {
+	if seg.StopWordMap == nil {
+		seg.StopWordMap = make(map[string]bool)
+	}
+
 	seg.StopWordMap[text] = true
 }
 
-- 
2.43.0


From 4a0d3da263d22bce14a289f4b43b694bf8db7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 07/22] fix: guard the HMM model against concurrent loads and
 cuts

LoadModel writes a package level map while cuts in other goroutines read it:
a data race that ends in "concurrent map read and map write", and a cut could
mix two models. Every segmenter that loads its first dictionary loads the
model.
---
 hmm/hmm_seg.go | 7 +++++++
 hmm/viterbi.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index 1d63329..81abeb3 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -19,6 +19,7 @@ package hmm
 
 import (
 	"regexp"
+	"sync"
 )
 
 var (
@@ -26,12 +27,18 @@ var (
 	regSkip = regexp.MustCompile(`(\d+\.\d+|[a-zA-Z0-9]+)`)
 )
 
+// modelMu guards the model, a cut must not see a model that is half loaded
+var modelMu sync.RWMutex
+
 // func LoadFile(filePath string) map[rune]float64 {
 //
 // }
 
 // LoadModel load the HMM model
 func LoadModel(prob ...map[rune]float64) {
+	modelMu.Lock()
+	defer modelMu.Unlock()
+
 	if len(prob) > 3 {
 		probEmit['B'] = prob[0]
 		probEmit['E'] = prob[1]
diff --git a/hmm/viterbi.go b/hmm/viterbi.go
index 7db8d54..f092e20 100644
--- a/hmm/viterbi.go
+++ b/hmm/viterbi.go
@@ -66,6 +66,9 @@ func (ps probStates) Swap(i, j int) {
 
 // Viterbi write viterbi algorithm by go
 func Viterbi(obs []rune, states []byte) (float64, []byte) {
+	modelMu.RLock()
+	defer modelMu.RUnlock()
+
 	path := make(map[byte][]byte)
 	vtb := make([]map[byte]float64, len(obs))
 	vtb[0] = make(map[byte]float64)
-- 
2.43.0


From 6451eeb31c9bd2c8945f7d8584b0896673a34024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 08/22] fix: give every idf StopWord its own stop words

All of them used and changed the package level StopWordMap, so one extracter's
stop words were applied to all others (and loading them while another one cut
was a concurrent map access). Loading a dictionary no longer drops the stop
words that were loaded before it.
---
 hmm/idf/stop_words.go    | 18 +++++++-----------
 hmm/idf/tag_extracker.go |  8 ++++++--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/hmm/idf/stop_words.go b/hmm/idf/stop_words.go
index 202dd90..8a6a350 100644
--- a/hmm/idf/stop_words.go
+++ b/hmm/idf/stop_words.go
@@ -59,7 +59,11 @@ func (s *StopWord) RemoveStop(text string) {
 // NewStopWord create a new StopWord with the default stop words.
 func NewStopWord() *StopWord {
 	s := new(StopWord)
-	s.stopWordMap = StopWordMap
+	s.stopWordMap = make(map[string]bool, len(StopWordMap))
+	for k, v := range StopWordMap {
+		s.stopWordMap[k] = v
+	}
+
 	return s
 }
 
@@ -71,14 +75,6 @@ func (s *StopWord) IsStopWord(word string) bool {
 
 // LoadDict load the idf stop dictionary
 func (s *StopWord) LoadDict(files ...string) error {
-	err := s.seg.LoadStop(files...)
-	if err != nil {
-		return err
-	}
-
-	for k, v := range s.seg.StopWordMap {
-		StopWordMap[k] = v
-	}
-
-	return nil
+	s.seg.StopWordMap = s.stopWordMap
+	return s.seg.LoadStop(files...)
 }
diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 4603b74..50bf3a7 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -19,13 +19,17 @@ type TagExtracter struct {
 
 // WithGse register the gse segmenter
 func (t *TagExtracter) WithGse(segs gse.Segmenter) {
-	t.stopWord = NewStopWord()
+	if t.stopWord == nil {
+		t.stopWord = NewStopWord()
+	}
 	t.seg = segs
 }
 
 // LoadDict load and create a new dictionary from the file
 func (t *TagExtracter) LoadDict(fileName ...string) error {
-	t.stopWord = NewStopWord()
+	if t.stopWord == nil {
+		t.stopWord = NewStopWord()
+	}
 	return t.seg.LoadDict(fileName...)
 }
 
-- 
2.43.0


From 426e9e5b2097725d090746d56198d42e36bdbda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 09/22] fix: serve concurrent requests of the segmentation
 server safely

/add changed the dictionary while /json requests read it, a data race that
could crash the server or mix two dictionaries in one response.
---
 tools/server/server.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/server/server.go b/tools/server/server.go
index 0fde819..778f356 100755
--- a/tools/server/server.go
+++ b/tools/server/server.go
@@ -33,6 +33,7 @@ import (
 	"log"
 	"runtime"
 	"strconv"
+	"sync"
 
 	"encoding/json"
 	"net/http"
@@ -42,6 +43,8 @@ import (
 
 var (
 	seg = gse.Segmenter{}
+	// segMu guards the seg dictionary, requests are served concurrently
+	segMu sync.RWMutex
 
 	host = flag.String("host", "", "HTTP服务器主机名")
 	port = flag.Int("port", 8080, "HTTP服务器端口")
@@ -83,7 +86,10 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 	}
 
 	if *hmm {
+		segMu.RLock()
 		segs := seg.Cut(text, true)
+		segMu.RUnlock()
+
 		response, _ := json.Marshal(&JsonResp{Seg: segs})
 
 		w.Header().Set("Content-Type", "application/json")
@@ -93,6 +99,7 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 	}
 
 	// 分词
+	segMu.RLock()
 	segs := seg.Segment([]byte(text))
 
 	// 整理为输出格式
@@ -101,6 +108,8 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 		ss = append(ss, &Segment{
 			Text: segment.Token().Text(), Pos: segment.Token().Pos()})
 	}
+	segMu.RUnlock()
+
 	response, _ := json.Marshal(&JsonResponse{Segments: ss})
 
 	w.Header().Set("Content-Type", "application/json")
@@ -111,7 +120,9 @@ func addToken(w http.ResponseWriter, req *http.Request) {
 	text := req.URL.Query().Get("text")
 	freq, _ := strconv.ParseFloat(req.URL.Query().Get("freq"), 64)
 	pos := req.URL.Query().Get("pos")
+	segMu.Lock()
 	seg.AddTokenForce(text, freq, pos)
+	segMu.Unlock()
 
 	response, _ := json.Marshal(&Resp{Code: 200, Text: "ok"})
 	w.Header().Set("Content-Type", "application/json")
-- 
2.43.0


From a0302bad3d799df50f555ad19648933cf578d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 10/22] fix: make the text rank independent of the map
 iteration order

The edges were added in map order, so the floating point sums differed from
call to call, and the largest rank was missed when it was seen first.
---
 hmm/idf/textrank.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 5fa64a0..d97b4a7 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -120,7 +120,9 @@ func (u *undirectWeightedGraph) rank() segment.Segments {
 	for _, w := range ws {
 		if w < minRank {
 			minRank = w
-		} else if w > maxRank {
+		}
+
+		if w > maxRank {
 			maxRank = w
 		}
 	}
@@ -146,6 +148,8 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 
 	g := newUndirectWeightedGraph()
 	cm := make(map[[2]string]float64)
+	// the pairs in order of appearance, the map has no fixed order
+	var order [][2]string
 	span := 5
 
 	var pairs []gse.SegPos
@@ -161,6 +165,7 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 
 				if _, ok := cm[[2]string{pairs[i].Text, pairs[j].Text}]; !ok {
 					cm[[2]string{pairs[i].Text, pairs[j].Text}] = 1.0
+					order = append(order, [2]string{pairs[i].Text, pairs[j].Text})
 				} else {
 					cm[[2]string{pairs[i].Text, pairs[j].Text}] += 1.0
 				}
@@ -168,8 +173,8 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 		}
 	}
 
-	for startEnd, weight := range cm {
-		g.addEdge(startEnd[0], startEnd[1], weight)
+	for _, startEnd := range order {
+		g.addEdge(startEnd[0], startEnd[1], cm[startEnd])
 	}
 
 	tags := g.rank()
-- 
2.43.0


From f2e710df6162da4ac457f2460e8514620b782d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 11/22] fix: new and emptied segmenters work like fresh ones

Lookups, cuts and edits of a segmenter without a dictionary ended in a nil
pointer panic, LoadDict after Empty too, and LoadDict threw away the words
that were added or loaded by other means before it.
---
 dag.go        |  4 ++--
 dict_util.go  | 15 ++++++++++++++-
 dictionary.go | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/dag.go b/dag.go
index dd15cb9..f3c1254 100644
--- a/dag.go
+++ b/dag.go
@@ -173,7 +173,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 	rs[n] = route{freq: 0.0, index: 0}
 	var r route
 
-	logT := math.Log(seg.Dict.totalFreq)
+	logT := math.Log(seg.Dict.TotalFreq())
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
@@ -377,7 +377,7 @@ func (seg *Segmenter) cutForSearch(str string, hmm ...bool) []string {
 // return a suggested frequency of a word cutted to short words.
 func (seg *Segmenter) SuggestFreq(words ...string) float64 {
 	freq := 1.0
-	total := seg.Dict.totalFreq
+	total := seg.Dict.TotalFreq()
 
 	if len(words) > 1 {
 		for _, word := range words {
diff --git a/dict_util.go b/dict_util.go
index 17975f3..d084896 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -73,6 +73,11 @@ func (seg *Segmenter) ToToken(text string, freq float64, pos ...string) Token {
 
 // AddToken add a new text to the token
 func (seg *Segmenter) AddToken(text string, freq float64, pos ...string) error {
+	if seg.Dict == nil {
+		seg.Dict = NewDict()
+		seg.Init()
+	}
+
 	token := seg.ToToken(text, freq, pos...)
 	return seg.Dict.AddToken(token)
 }
@@ -148,8 +153,12 @@ func (seg *Segmenter) LoadDictMap(dict []map[string]string) error {
 // When a participle appears both in the user dictionary and
 // in the `common dictionary`, the `user dictionary` is given priority.
 func (seg *Segmenter) LoadDict(files ...string) error {
-	if !seg.Load {
+	if seg.Dict == nil {
 		seg.Dict = NewDict()
+		seg.Load = false
+	}
+
+	if !seg.Load {
 		seg.Load = true
 		seg.Init()
 	}
@@ -478,6 +487,10 @@ func IsJp(segText string) bool {
 
 // CalcToken calc the segmenter token
 func (seg *Segmenter) CalcToken() {
+	if seg.Dict == nil {
+		return
+	}
+
 	// Calculate the path value of each word segment.
 	// For the meaning of the path value, see the notes of the Token structure
 	logTotalFreq := float32(math.Log2(seg.Dict.totalFreq))
diff --git a/dictionary.go b/dictionary.go
index 88353c4..f42d840 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -14,9 +14,15 @@
 package gse
 
 import (
+	"errors"
+
 	"github.com/vcaesar/cedar"
 )
 
+// errNoDict is returned by the lookups and edits of a segmenter
+// without a dictionary
+var errNoDict = errors.New("gse: no dictionary is loaded")
+
 // Dictionary struct implements a string double array trie.
 // one segment maybe in leaf node or not
 type Dictionary struct {
@@ -34,16 +40,28 @@ func NewDict() *Dictionary {
 
 // MaxTokenLen the maximum length of the dictionary
 func (dict *Dictionary) MaxTokenLen() int {
+	if dict == nil {
+		return 0
+	}
+
 	return dict.maxTokenLen
 }
 
 // NumTokens the number of tokens in the dictionary
 func (dict *Dictionary) NumTokens() int {
+	if dict == nil {
+		return 0
+	}
+
 	return len(dict.Tokens)
 }
 
 // TotalFreq the total frequency of the dictionary
 func (dict *Dictionary) TotalFreq() float64 {
+	if dict == nil {
+		return 0
+	}
+
 	return dict.totalFreq
 }
 
@@ -77,6 +95,10 @@ func (dict *Dictionary) AddToken(token Token) error {
 
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
+	if dict == nil {
+		return errNoDict
+	}
+
 	bytes := textSliceToBytes(token.text)
 
 	return dict.trie.Delete(bytes)
@@ -86,6 +108,10 @@ func (dict *Dictionary) RemoveToken(token Token) error {
 // and returns the number of tokens
 func (dict *Dictionary) LookupTokens(
 	words []Text, tokens []*Token) (numOfTokens int) {
+	if dict == nil {
+		return 0
+	}
+
 	var (
 		id, value int
 		err       error
@@ -110,6 +136,10 @@ func (dict *Dictionary) LookupTokens(
 // Find find the word in the dictionary is non-existent
 // and the word's frequency and pos
 func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
+	if dict == nil {
+		return 0, "", false
+	}
+
 	var (
 		id, value int
 		freq      float64
@@ -138,6 +168,10 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 // Value find word in the dictionary
 // return the word's value and id
 func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
+	if dict == nil {
+		return 0, 0, errNoDict
+	}
+
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
 		return 0, id, err
-- 
2.43.0


From a0797df06082acfe89aa4cde55db7bbe4607afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 12/22] fix: keep the word count and total frequency in step
 with removals

A removed word still counted, and weighed on the distances of all others.
---
 dictionary.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index f42d840..559776f 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -31,6 +31,7 @@ type Dictionary struct {
 	maxTokenLen int     // the maximum length of the dictionary
 	Tokens      []Token // the all tokens in the dictionary, to traverse
 	totalFreq   float64 // the total number of tokens in the dictionary
+	removed     int     // the number of Tokens that were removed again
 }
 
 // NewDict a new dictionary trie
@@ -53,7 +54,7 @@ func (dict *Dictionary) NumTokens() int {
 		return 0
 	}
 
-	return len(dict.Tokens)
+	return len(dict.Tokens) - dict.removed
 }
 
 // TotalFreq the total frequency of the dictionary
@@ -78,7 +79,7 @@ func (dict *Dictionary) AddToken(token Token) error {
 		return nil
 	}
 
-	err = dict.trie.Insert(bytes, dict.NumTokens())
+	err = dict.trie.Insert(bytes, len(dict.Tokens))
 	if err != nil {
 		return err
 	}
@@ -100,8 +101,19 @@ func (dict *Dictionary) RemoveToken(token Token) error {
 	}
 
 	bytes := textSliceToBytes(token.text)
+	val, err := dict.trie.Get(bytes)
+	if err != nil {
+		return err
+	}
 
-	return dict.trie.Delete(bytes)
+	err = dict.trie.Delete(bytes)
+	if err != nil {
+		return err
+	}
+
+	dict.totalFreq -= dict.Tokens[val].freq
+	dict.removed++
+	return nil
 }
 
 // LookupTokens finds tokens and words in the dictionary, matching the given pattern
-- 
2.43.0


From ed3a811d27a6515e49f8a04941245339537d0f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 13/22] fix: TrimPosPunct must not change the slice it is given

It blanked the text of the stop words in the caller's slice.
---
 trim.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trim.go b/trim.go
index e9958ff..770ef10 100644
--- a/trim.go
+++ b/trim.go
@@ -51,12 +51,13 @@ func (seg *Segmenter) TrimPunct(s []string) (r []string) {
 // TrimPosPunct trim SegPos not space and punct
 func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 	for i := 0; i < len(se); i++ {
-		if !seg.NotStop && seg.IsStop(se[i].Text) {
-			se[i].Text = ""
+		text := se[i].Text
+		if !seg.NotStop && seg.IsStop(text) {
+			text = ""
 		}
 
-		if se[i].Text != "" && len(se[i].Text) > 0 {
-			ru := []rune(se[i].Text)[0]
+		if text != "" {
+			ru := []rune(text)[0]
 			if !unicode.IsSpace(ru) && !unicode.IsPunct(ru) {
 				re = append(re, se[i])
 			}
-- 
2.43.0


From 241beb2902ad18dc509feef3f6b0ce4d913d242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 14/22] fix: segments must not change with the caller's input
 buffer

Words that are not lower-cased pointed into the []byte given to Segment, so
reusing the buffer changed the segments that were returned before.
---
 segmenter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segmenter.go b/segmenter.go
index 0cd1125..e3495e0 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -206,6 +206,9 @@ func SplitWords(text Text) []Text {
 
 // SplitTextToWords splits a string to token words
 func (seg *Segmenter) SplitTextToWords(text Text) []Text {
+	// the words outlive the call and must not change with the caller's buffer
+	text = append(Text(nil), text...)
+
 	output := make([]Text, 0, len(text)/3)
 	current, alphanumericStart := 0, 0
 	inAlphanumeric := true
-- 
2.43.0


From 2ed4eb9bcc065f46fd82ab03dd4941dca49a0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 15/22] fix: return the tag of the first dictionary word

Its index is 0, which Pos took for an unknown word.
---
 hmm/pos/dict.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmm/pos/dict.go b/hmm/pos/dict.go
index cde3159..3ef9c89 100644
--- a/hmm/pos/dict.go
+++ b/hmm/pos/dict.go
@@ -51,8 +51,8 @@ func (d *Dict) Freq(key string) (float64, string, bool) {
 
 // Pos find the key return the POS and existence
 func (d *Dict) Pos(key string) (string, bool) {
-	value, _, _ := d.Seg.Value(key)
-	if value == 0 {
+	value, _, err := d.Seg.Value(key)
+	if err != nil {
 		return "", false
 	}
 
-- 
2.43.0


From e5ac73394f6013ec9beb541edf26f23010d4c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 16/22] fix: words with a NUL byte

The trie ends its keys with a NUL. Adding such a word replaced another word or
panicked later, and looking up or removing "word\x00" found "word".
---
 dictionary.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 559776f..4726b84 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -14,6 +14,7 @@
 package gse
 
 import (
+	"bytes"
 	"errors"
 
 	"github.com/vcaesar/cedar"
@@ -23,6 +24,13 @@ import (
 // without a dictionary
 var errNoDict = errors.New("gse: no dictionary is loaded")
 
+// errNul is returned for words with a NUL byte, the trie ends its keys with it
+var errNul = errors.New("gse: a word must not contain a NUL byte")
+
+func hasNul(word []byte) bool {
+	return bytes.IndexByte(word, 0) >= 0
+}
+
 // Dictionary struct implements a string double array trie.
 // one segment maybe in leaf node or not
 type Dictionary struct {
@@ -73,6 +81,9 @@ func (dict *Dictionary) AddToken(token Token) error {
 		// an empty row is not a word
 		return nil
 	}
+	if hasNul(bytes) {
+		return errNul
+	}
 
 	val, err := dict.trie.Get(bytes)
 	if err == nil || val > 0 {
@@ -101,6 +112,10 @@ func (dict *Dictionary) RemoveToken(token Token) error {
 	}
 
 	bytes := textSliceToBytes(token.text)
+	if hasNul(bytes) {
+		return errNul
+	}
+
 	val, err := dict.trie.Get(bytes)
 	if err != nil {
 		return err
@@ -130,6 +145,10 @@ func (dict *Dictionary) LookupTokens(
 	)
 
 	for _, word := range words {
+		if hasNul(word) {
+			break
+		}
+
 		id, err = dict.trie.Jump(word, id)
 		if err != nil {
 			break
@@ -151,6 +170,9 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 	if dict == nil {
 		return 0, "", false
 	}
+	if hasNul(word) {
+		return 0, "", false
+	}
 
 	var (
 		id, value int
@@ -183,6 +205,9 @@ func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
 	if dict == nil {
 		return 0, 0, errNoDict
 	}
+	if hasNul(word) {
+		return 0, 0, errNul
+	}
 
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
-- 
2.43.0


From e20c1e5bf7a36a377a028f882fbbbe263814cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 17/22] fix: do not add a stop word that a read error cut short

---
 stop.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stop.go b/stop.go
index 4028441..c9773cb 100644
--- a/stop.go
+++ b/stop.go
@@ -67,17 +67,22 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 		}
 		defer file.Close()
 
+		text := ""
 		scanner := bufio.NewScanner(file)
 		for scanner.Scan() {
-			text := scanner.Text()
 			if text != "" {
 				seg.StopWordMap[text] = true
 			}
+			text = scanner.Text()
 		}
 
+		// after a read error the last line may be cut short
 		if err := scanner.Err(); err != nil {
 			return err
 		}
+		if text != "" {
+			seg.StopWordMap[text] = true
+		}
 	}
 
 	return nil
-- 
2.43.0


From 3faf73e825a0999d624831f9605496eca1b696a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 18/22] fix: Read and Reader on a new or emptied segmenter

They panicked with a nil dictionary.
---
 dict_util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dict_util.go b/dict_util.go
index d084896..966ceec 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -349,6 +349,11 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 		file = files[0]
 	}
 
+	if seg.Dict == nil {
+		seg.Dict = NewDict()
+		seg.Init()
+	}
+
 	// Read the word segmentation line by line
 	rd := &errReader{Reader: reader}
 	line := 0
-- 
2.43.0


From 1c1bee52d4df64865e85bffc0441f99d00e116b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 19/22] fix: FindAllOccs with an empty search text looped for
 ever

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index f3c1254..c7a41f3 100644
--- a/dag.go
+++ b/dag.go
@@ -50,6 +50,10 @@ func FindAllOccs(data []byte, searches []string) map[string][]int {
 	results := make(map[string][]int, 0)
 	tmp := data
 	for _, search := range searches {
+		if search == "" {
+			continue
+		}
+
 		index := len(data)
 		for {
 			match := bytes.LastIndex(tmp[0:index], []byte(search))
-- 
2.43.0


From d7d3483add94ca58cc44de52dc2c68ea0ef359c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 20/22] fix: the segmentation counts a path of zero weight as a
 path
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A word that is the whole dictionary has weight zero (its probability is
one). updateJumper took a zero weight for a place not reached yet, so the
word lost to any other split: with the one entry 中国, 中国人 gave 中 国 人.
---
 segmenter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index e3495e0..fef4845 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -184,7 +184,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 // updateJumper Update the jump information:
 //  1. When the location has never been visited
-//     (the case where jumper.minDistance is zero), or
+//     (the case where jumper.token is nil), or
 //  2. When the current shortest path at the location
 //     is greater than the new shortest path
 //
@@ -192,7 +192,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 // add the probability of the new split
 func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
 	newDistance := baseDistance + token.distance
-	if jumper.minDistance == 0 || jumper.minDistance > newDistance {
+	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
 	}
-- 
2.43.0


From 6375f31ae97a74274fe6e0bb733b8db002c48203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 21/22] fix: a character that only begins words counts as
 frequency one in the cuts

The lookup reports such a character as present with frequency zero, and the
dictionary cuts took the logarithm of that zero: every path through it had
probability zero, so the text to its left was no longer cut by probability
but by the longest word.
---
 dag.go             | 2 +-
 hmm/pos/pos_seg.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index c7a41f3..c2605d7 100644
--- a/dag.go
+++ b/dag.go
@@ -182,7 +182,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
 
-			if ok {
+			if ok && freq > 0 {
 				f := math.Log(freq) - logT + rs[i+1].freq
 				r = route{freq: f, index: i}
 			} else {
diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index a3ff13d..534ae8e 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -160,7 +160,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
-			if freq, _, ok := seg.dict.Freq(string(runes[idx : i+1])); ok {
+			if freq, _, ok := seg.dict.Freq(string(runes[idx : i+1])); ok && freq > 0 {
 				r = route{
 					freq:  math.Log(freq) - seg.dict.logTotal + rs[i+1].freq,
 					index: i}
-- 
2.43.0


From 6a7c1643d32c7e13a80054bc5d3aa7af511bf5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 22/22] fix: a name without a bundled dictionary no longer
 loads the one before it again

DictPaths kept the path of the name before for en, ko, ti: "/a,en" gave /a
twice.
---
 dict_util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 966ceec..6536c75 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -424,8 +424,6 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 
 // DictPaths get the dict's paths
 func DictPaths(dictDir, filePath string) (files []string) {
-	var dictPath string
-
 	if filePath == "en" {
 		return
 	}
@@ -438,6 +436,7 @@ func DictPaths(dictDir, filePath string) (files []string) {
 	}
 
 	for i := 0; i < len(fileName); i++ {
+		var dictPath string
 		if fileName[i] == "ja" || fileName[i] == "jp" {
 			dictPath = path.Join(dictDir, "dict/jp/dict.txt")
 		}
-- 
2.43.0

