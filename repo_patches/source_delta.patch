From f4c498b7866646610c83b167dcc5e7aa32159562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:17 +0000
Subject: [PATCH 01/18] fix: do not follow a transition into a leaf unit

dictLabel truncated the leaf flag, so a value whose low byte equals the
followed label was taken for a transition: lookups of keys that were never
inserted could succeed or panic (e.g. {apple: 256}, ContainsString("apple\x00")).
---
 dictionary.go      | 2 +-
 dictionary_unit.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 3a05b8e..e68ec7e 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -146,7 +146,7 @@ func (dict *Dictionary) FindStringLenValue(key string, length sizeType, value *v
 // Follows a transition.
 func (dict *Dictionary) Follow(label ucharType, index *baseType) bool {
 	var nextIndex baseType = *index ^ dictOffset(dict.units[*index]) ^ baseType(label)
-	if dictLabel(dict.units[nextIndex]) != label {
+	if dictLabel(dict.units[nextIndex]) != baseType(label) {
 		return false
 	}
 	*index = nextIndex
diff --git a/dictionary_unit.go b/dictionary_unit.go
index 5cbdf12..b8d5990 100644
--- a/dictionary_unit.go
+++ b/dictionary_unit.go
@@ -50,8 +50,8 @@ func dictValue(base DictionaryUnit) valueType {
 }
 
 // Reads a label with a leaf flag from a non-leaf unit.
-func dictLabel(base DictionaryUnit) ucharType {
-	return ucharType(base & (isLeafBit | 0xff))
+func dictLabel(base DictionaryUnit) baseType {
+	return base & (isLeafBit | 0xff)
 }
 
 // Reads an offset to child units from a non-leaf unit.
-- 
2.43.0


From f68934b439e4d6617f73d0eb033d7de113cf874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:18 +0000
Subject: [PATCH 02/18] fix: let a DawgBuilder be reused after Finish

clear left a one-element hash table behind, so the builder was considered
initialized and the next Insert or Finish panicked.
---
 dawg_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dawg_builder.go b/dawg_builder.go
index 385dc93..26df3f5 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -252,7 +252,7 @@ func (db *DawgBuilder) clear() {
 	db.flagPool.clear()
 	db.unitPool = db.unitPool[:0]
 
-	db.hashTable = []baseType{0}
+	db.hashTable = []baseType{}
 	db.unfixedUnits = db.unfixedUnits[:0]
 	db.unusedUnits = db.unusedUnits[:0]
 
-- 
2.43.0


From 2b5dcdc100a9c004b06dc99a892d7f062335db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:18 +0000
Subject: [PATCH 03/18] fix: reject keys with a null character and negative
 values

As in dawgdic, label 0 marks the end of a key and values have 31 bits. Such
insertions were accepted and stored something else ("a\x00b" made "a" a
key with a garbage value, -5 read back as 2147483643).
---
 dawg_builder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index 26df3f5..dbcf605 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -262,6 +262,16 @@ func (db *DawgBuilder) clear() {
 }
 
 func (db *DawgBuilder) InsertKeyValue(key []ucharType, length sizeType, value valueType) bool {
+	// Keys cannot contain a null character and values cannot be negative.
+	if value < 0 {
+		return false
+	}
+	for _, label := range key[:length] {
+		if label == 0 {
+			return false
+		}
+	}
+
 	// Initializes a builder if not initialized.
 	if len(db.hashTable) == 0 {
 		db.init()
-- 
2.43.0


From bb0b6308ff2f6808a915fc91ab18bde873d46a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 04/18] fix: complete past the empty key

Completer recognised its first step by lastIndex being the root, so with the
empty key in a dictionary it returned that key forever.
---
 completer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/completer.go b/completer.go
index 7099901..bf8c4bc 100644
--- a/completer.go
+++ b/completer.go
@@ -14,6 +14,7 @@ type Completer struct {
 	path       []ucharType
 	indexStack []baseType
 	lastIndex  baseType
+	started    bool
 }
 
 func NewCompleter(dict *Dictionary, guide *Guide) *Completer {
@@ -52,6 +53,7 @@ func (c *Completer) StartStringLen(index baseType, prefix string, length sizeTyp
 	if c.guide.size != 0 {
 		c.indexStack = append(c.indexStack, index)
 		c.lastIndex = c.dict.Root()
+		c.started = false
 	}
 }
 
@@ -62,7 +64,7 @@ func (c *Completer) Next() bool {
 	}
 	var index baseType = c.indexStack[len(c.indexStack)-1]
 
-	if c.lastIndex != c.dict.Root() {
+	if c.started {
 		var childLabel ucharType = c.guide.Child(index)
 		if childLabel != 0 {
 			// Follows a transition to the first child.
@@ -125,5 +127,6 @@ func (c *Completer) FindTerminal(index baseType) bool {
 	}
 
 	c.lastIndex = index
+	c.started = true
 	return true
 }
-- 
2.43.0


From fb0f28e7024707899584509283c451e06628c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:20 +0000
Subject: [PATCH 05/18] fix: return a fresh buffer from UtfcEncode

All results shared one buffer and one encoder state: the next call overwrote
the previous result (dawgtool -s -u compared a key with itself and could not
sort), and a nested or concurrent call corrupted both.
---
 utfc.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/utfc.go b/utfc.go
index 1952b9d..92c4142 100644
--- a/utfc.go
+++ b/utfc.go
@@ -123,12 +123,6 @@ func getAuxOffset(offs int) int {
 	return offs
 }
 
-// Note: thread-unsafe
-var sharedState UtfcState
-var sharedBuffer = &byteBuffer{
-	buf: make([]byte, 0, 1024),
-}
-
 func NewUtfcState() *UtfcState {
 	return &UtfcState{
 		offs:    0,
@@ -289,9 +283,9 @@ func (st *UtfcState) Follow(ch rune, f UtfcFollower) bool {
 // Returns true if process was completed successfully, false otherwise
 // Allows to abort encoding early and prevent unneeded memory allocations
 func UtfcFollow(str string, f UtfcFollower) bool {
-	sharedState.Clear()
+	state := NewUtfcState()
 	for _, ch := range str {
-		if !sharedState.Follow(ch, f) {
+		if !state.Follow(ch, f) {
 			return false
 		}
 	}
@@ -300,9 +294,11 @@ func UtfcFollow(str string, f UtfcFollower) bool {
 
 // UtfcEncode converts string to an UTF-C byte array
 func UtfcEncode(str string) []byte {
-	sharedBuffer.buf = sharedBuffer.buf[:0]
-	UtfcFollow(str, sharedBuffer)
-	return sharedBuffer.buf
+	bb := &byteBuffer{
+		buf: make([]byte, 0, len(str)),
+	}
+	UtfcFollow(str, bb)
+	return bb.buf
 }
 
 // UtfcDecode converts UTF-C byte array to a string
-- 
2.43.0


From eca02a70334f80d218981e4f7e9b504c8660b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:21 +0000
Subject: [PATCH 06/18] fix: decode zero marker in 21-bit mode

The first character of a 21-bit window (U+A600, U+2A600, ...) is encoded as a
lone marker, but the decoder also consumed the following byte.
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 92c4142..43167c1 100644
--- a/utfc.go
+++ b/utfc.go
@@ -369,7 +369,7 @@ func UtfcDecode(buf []byte) string {
 			is21Bit = false
 		} else if is21Bit {
 			hi := 0
-			if zm != marker10 {
+			if zm != marker10 && zm != marker0 {
 				hi = int(buf[i])
 				i++
 			}
-- 
2.43.0


From c0698789d56543357fac3d7c1529a22f0bc94f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:22 +0000
Subject: [PATCH 07/18] fix: keep an Index unchanged when Read fails

Unlike Dictionary and Guide, Index replaced its units before the stream was
read completely.
---
 index.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index 49185d1..40d10b2 100644
--- a/index.go
+++ b/index.go
@@ -59,11 +59,13 @@ func (index *Index) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	index.units = make([]IndexUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &index.units)
+	var unitsBuf = make([]IndexUnit, size)
+	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
 	if err != nil {
 		return false
 	}
+
+	index.units = unitsBuf
 	return true
 }
 
-- 
2.43.0


From a4552eac6741f920b327d3101d3a1d9defdc44e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:51 +0000
Subject: [PATCH 08/18] fix: build and query the index of an empty dictionary

The guide of an empty dictionary has no units; BuildIndex and Indexer
panicked on it (dawgtool -b -g -i with an empty lexicon).
---
 index_builder.go | 3 +++
 indexer.go       | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/index_builder.go b/index_builder.go
index 752b717..bb909b8 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -24,6 +24,9 @@ func BuildIndex(dict *Dictionary, guide SomeGuide) *Index {
 
 func (ib *IndexBuilder) Build() bool {
 	ib.index.units = make([]IndexUnit, len(ib.dict.units))
+	if ib.guide.Size() == 0 {
+		return true
+	}
 	return ib.buildIndices(ib.guide.Root())
 }
 
diff --git a/indexer.go b/indexer.go
index 1fd698a..46fd628 100644
--- a/indexer.go
+++ b/indexer.go
@@ -30,6 +30,10 @@ func (idx *Indexer) IndexToString(i baseType) string {
 }
 
 func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
+	if idx.guide.Size() == 0 {
+		return NotFound
+	}
+
 	var index baseType = idx.dict.Root()
 	var result baseType = 0
 	for i := 0; i < len(bytes); i++ {
@@ -66,6 +70,10 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 }
 
 func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
+	if idx.guide.Size() == 0 {
+		return nil
+	}
+
 	var index baseType = idx.dict.Root()
 	var cur baseType = 0
 	var buf []ucharType = make([]ucharType, 0)
-- 
2.43.0


From 19bb76fbfaa5b67fa632361537e2cb51d487b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:52 +0000
Subject: [PATCH 09/18] fix: index all keys when using a ranked guide

A ranked guide orders children by value and keeps the end of a key among them
as label 0. BuildIndex and Indexer took that for the end of the list and
assumed ascending labels, so keys were lost (dawgtool -r -i).
---
 index_builder.go | 15 +++++++++++++--
 indexer.go       | 12 +++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/index_builder.go b/index_builder.go
index bb909b8..143225b 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -35,7 +35,8 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 		ib.index.units[index]++
 	}
 
-	var child ucharType = ib.guide.Child(index)
+	var skipped bool
+	var child ucharType = skipTerminal(ib.dict, ib.guide, index, ib.guide.Child(index), &skipped)
 	for child != 0 {
 		var childIndex baseType = index
 		if !ib.dict.Follow(child, &childIndex) {
@@ -47,8 +48,18 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 			}
 		}
 		ib.index.units[index] += ib.index.units[childIndex]
-		child = ib.guide.Sibling(childIndex)
+		child = skipTerminal(ib.dict, ib.guide, index, ib.guide.Sibling(childIndex), &skipped)
 	}
 
 	return true
 }
+
+// Skips the end of a key among children of a given index. A ranked guide
+// orders it (as label 0) along with other children, so it is not always the last.
+func skipTerminal(dict *Dictionary, guide SomeGuide, index baseType, label ucharType, skipped *bool) ucharType {
+	if label != 0 || *skipped || !dict.HasValue(index) {
+		return label
+	}
+	*skipped = true
+	return guide.Sibling(index ^ dictOffset(dict.units[index]))
+}
diff --git a/indexer.go b/indexer.go
index 46fd628..fbd34ab 100644
--- a/indexer.go
+++ b/indexer.go
@@ -41,14 +41,15 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 			result++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
-		for childLabel < bytes[i] && childLabel != 0 {
+		var skipped bool
+		var childLabel ucharType = skipTerminal(idx.dict, idx.guide, index, idx.guide.Child(index), &skipped)
+		for childLabel != bytes[i] && childLabel != 0 {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
 				return Failed
 			}
 			result += idx.index.ChildCount(childIndex)
-			childLabel = idx.guide.Sibling(childIndex)
+			childLabel = skipTerminal(idx.dict, idx.guide, index, idx.guide.Sibling(childIndex), &skipped)
 		}
 
 		if childLabel == 0 {
@@ -85,7 +86,8 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 			cur++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
+		var skipped bool
+		var childLabel ucharType = skipTerminal(idx.dict, idx.guide, index, idx.guide.Child(index), &skipped)
 		for childLabel != 0 {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
@@ -98,7 +100,7 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 				break
 			} else {
 				cur += count
-				childLabel = idx.guide.Sibling(childIndex)
+				childLabel = skipTerminal(idx.dict, idx.guide, index, idx.guide.Sibling(childIndex), &skipped)
 			}
 		}
 
-- 
2.43.0


From 3d9f9f13d697752767d319a6a954c5befe1822d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:53 +0000
Subject: [PATCH 10/18] fix: do not follow transitions from the root of an
 empty dictionary

Unused units were labelled for the very offset that the root of an empty
dictionary keeps, so Follow succeeded with any label.
---
 dictionary_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary_builder.go b/dictionary_builder.go
index b08e717..b7bf57e 100644
--- a/dictionary_builder.go
+++ b/dictionary_builder.go
@@ -73,6 +73,9 @@ func (db *DictionaryBuilder) BuildDictionary() bool {
 		if !db.buildDictionaryIndices(db.dawg.Root(), 0) {
 			return false
 		}
+	} else {
+		// Reserves the offset of the root, as it has no child nodes.
+		db.extra(1).setIsUsed()
 	}
 
 	db.fixAllBlocks()
-- 
2.43.0


From 77d4205bb3172b7314e10514e835a2e5f69c1508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:20 +0000
Subject: [PATCH 11/18] fix: report a failed read of the lexicon in dawgtool

An I/O error or a line over 64 KB ended the scan like the end of the file, and
a dictionary of the keys read so far was written with exit status 0.
---
 cmd/dawgtool/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index f07fb5d..d581802 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -122,6 +122,10 @@ func handleBuildDict() {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		log.Fatalf("error: failed to read lexicon: %v\n", err)
+	}
+
 	d := dawg.NewDawg()
 	builder.Finish(d)
 
@@ -265,6 +269,9 @@ func handleLoadDict() {
 		}
 		fmt.Println()
 	}
+	if err := scanner.Err(); err != nil {
+		log.Fatalf("error: failed to read lexicon: %v\n", err)
+	}
 
 	if optIndex {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
-- 
2.43.0


From 0780cc1c1027e49ffc3ddb5b8d6481bc645160fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:20 +0000
Subject: [PATCH 12/18] fix: report a failed close of the dictionary in
 dawgtool

Errors of delayed writes surface when the file is closed.
---
 cmd/dawgtool/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index d581802..c6af04a 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -323,6 +323,9 @@ func main() {
 
 	if optBuild {
 		handleBuildDict()
+		if err := fileDictionary.Close(); err != nil {
+			log.Fatalf("error: failed to write dictionary file: %v\n", err)
+		}
 	} else {
 		handleLoadDict()
 	}
-- 
2.43.0


From bde1731cef0118fec85b2694eaa3d681b5bae7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:21 +0000
Subject: [PATCH 13/18] fix: sort the lexicon by keys only in dawgtool

With -t the value took part in the comparison, so a key and a longer key that
starts with it could end up in the wrong order (always possible with -u, as
the tab itself gets encoded) and building failed.
---
 cmd/dawgtool/main.go | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index c6af04a..3efd8fe 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -70,6 +70,18 @@ func processLine(line string) bool {
 	return true
 }
 
+// Gets the bytes a line is sorted by: the same as inserted into the builder.
+func sortKey(line string) string {
+	var key string = line
+	if optTab {
+		key = strings.Split(line, "\t")[0]
+	}
+	if optUtfc {
+		return string(dawg.UtfcEncode(key))
+	}
+	return key
+}
+
 func handleBuildDict() {
 	builder = dawg.NewDawgBuilder()
 
@@ -80,26 +92,7 @@ func handleBuildDict() {
 			buffer = append(buffer, scanner.Text())
 		}
 		sort.SliceStable(buffer, func(i int, j int) bool {
-			if !optUtfc {
-				return buffer[i] < buffer[j]
-			}
-			bytes1 := dawg.UtfcEncode(buffer[i])
-			bytes2 := dawg.UtfcEncode(buffer[j])
-			length := len(bytes1)
-			if len(bytes2) < length {
-				length = len(bytes2)
-			}
-			for i := 0; i < length; i++ {
-				if bytes1[i] < bytes2[i] {
-					return true
-				} else if bytes1[i] > bytes2[i] {
-					return false
-				}
-			}
-			if len(bytes1) < len(bytes2) {
-				return true
-			}
-			return false
+			return sortKey(buffer[i]) < sortKey(buffer[j])
 		})
 
 		for i := 0; i < len(buffer); i++ {
-- 
2.43.0


From 1357082692460d72e262f6890259b7a6e2eea254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:41 +0000
Subject: [PATCH 14/18] fix: do not include the terminator in a completed key

Key() of both completers returned the key with a trailing null byte, which did
not match Length() and ended up in the output of dawgtool.
---
 completer.go        | 4 +++-
 ranked_completer.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/completer.go b/completer.go
index bf8c4bc..7f3f035 100644
--- a/completer.go
+++ b/completer.go
@@ -1,5 +1,7 @@
 package dawg
 
+import "strings"
+
 type SomeCompleter interface {
 	Start(baseType)
 	Next() bool
@@ -29,7 +31,7 @@ func (c *Completer) Length() sizeType {
 	return len(c.path) - 1
 }
 func (c *Completer) Key() string {
-	return string(c.path)
+	return strings.TrimSuffix(string(c.path), "\x00")
 }
 func (c *Completer) Value() valueType {
 	return c.dict.Value(c.lastIndex)
diff --git a/ranked_completer.go b/ranked_completer.go
index 95c92c1..59f3e45 100644
--- a/ranked_completer.go
+++ b/ranked_completer.go
@@ -2,6 +2,7 @@ package dawg
 
 import (
 	"container/heap"
+	"strings"
 )
 
 type RankedCompleter struct {
@@ -27,7 +28,7 @@ func NewRankedCompleter(dict *Dictionary, guide *RankedGuide) *RankedCompleter {
 }
 
 func (rc *RankedCompleter) Key() string {
-	return string(rc.path)
+	return strings.TrimSuffix(string(rc.path), "\x00")
 }
 
 func (rc *RankedCompleter) Value() valueType {
-- 
2.43.0


From 1330c8c5fc4010a6637a3e4143089b0887e6dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:44 +0000
Subject: [PATCH 15/18] fix: report a failure to write the answers in dawgtool

The load mode printed its answers without looking at errors, so that a full
disk or a broken device on standard output went unnoticed and the tool ended
with status 0.
---
 cmd/dawgtool/main.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 3efd8fe..cc76437 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -225,27 +225,28 @@ func handleLoadDict() {
 		indexer = *dawg.NewIndexer(dict, guide, index)
 	}
 
+	out := bufio.NewWriter(os.Stdout)
 	for scanner.Scan() {
 		var key string = scanner.Text()
 
-		fmt.Printf("%s:", key)
+		fmt.Fprintf(out, "%s:", key)
 		var index uint32 = dict.Root()
 
 		if optRanked || optGuide {
 			if optIndex {
 				var idx = indexer.StringToIndex(key)
 				if idx == dawg.NotFound {
-					fmt.Printf(" (not found)")
+					fmt.Fprintf(out, " (not found)")
 				} else if idx == dawg.Failed {
-					fmt.Printf(" (failed)")
+					fmt.Fprintf(out, " (failed)")
 				} else {
-					fmt.Printf(" (#%d)", idx)
+					fmt.Fprintf(out, " (#%d)", idx)
 				}
 			}
 			if dict.FollowString(key, &index) {
 				completer.Start(index)
 				for completer.Next() {
-					fmt.Printf(" %s%s = %d;", key, completer.Key(), completer.Value())
+					fmt.Fprintf(out, " %s%s = %d;", key, completer.Key(), completer.Value())
 				}
 			}
 		} else {
@@ -256,23 +257,32 @@ func handleLoadDict() {
 
 				// Reads a value
 				if dict.HasValue(index) {
-					fmt.Printf(" %s = %d;", key[:i+1], dict.Value(index))
+					fmt.Fprintf(out, " %s = %d;", key[:i+1], dict.Value(index))
 				}
 			}
 		}
-		fmt.Println()
+		fmt.Fprintln(out)
+		flushAnswers(out)
 	}
 	if err := scanner.Err(); err != nil {
 		log.Fatalf("error: failed to read lexicon: %v\n", err)
 	}
 
 	if optIndex {
-		fmt.Printf("Total words: %d\n", indexer.TotalCount())
+		fmt.Fprintf(out, "Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-			fmt.Printf("%d: %s\n", i, indexer.IndexToString(uint32(i)))
+			fmt.Fprintf(out, "%d: %s\n", i, indexer.IndexToString(uint32(i)))
 		}
 	}
+	flushAnswers(out)
+}
+
+// Writes the answers out and reports a failure to do so.
+func flushAnswers(out *bufio.Writer) {
+	if err := out.Flush(); err != nil {
+		log.Fatalf("error: failed to write answers: %v\n", err)
+	}
 }
 
 func main() {
-- 
2.43.0


From fa566bf582dab58021a43199c45b31d15af414c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:56 +0000
Subject: [PATCH 16/18] fix: encode queries and decode answers in dawgtool -u

A dictionary built with -u holds keys in UTF-C, but the load mode looked up and
printed raw bytes, so that keys outside of ASCII were not found and came out
garbled.
---
 cmd/dawgtool/main.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index cc76437..38d0f34 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -82,6 +82,22 @@ func sortKey(line string) string {
 	return key
 }
 
+// Gets the bytes a key is stored as.
+func encodeKey(key string) string {
+	if optUtfc {
+		return string(dawg.UtfcEncode(key))
+	}
+	return key
+}
+
+// Gets the text of a stored key.
+func decodeKey(key string) string {
+	if optUtfc {
+		return dawg.UtfcDecode([]uint8(key))
+	}
+	return key
+}
+
 func handleBuildDict() {
 	builder = dawg.NewDawgBuilder()
 
@@ -230,6 +246,7 @@ func handleLoadDict() {
 		var key string = scanner.Text()
 
 		fmt.Fprintf(out, "%s:", key)
+		key = encodeKey(key)
 		var index uint32 = dict.Root()
 
 		if optRanked || optGuide {
@@ -246,7 +263,7 @@ func handleLoadDict() {
 			if dict.FollowString(key, &index) {
 				completer.Start(index)
 				for completer.Next() {
-					fmt.Fprintf(out, " %s%s = %d;", key, completer.Key(), completer.Value())
+					fmt.Fprintf(out, " %s = %d;", decodeKey(key+completer.Key()), completer.Value())
 				}
 			}
 		} else {
@@ -257,7 +274,7 @@ func handleLoadDict() {
 
 				// Reads a value
 				if dict.HasValue(index) {
-					fmt.Fprintf(out, " %s = %d;", key[:i+1], dict.Value(index))
+					fmt.Fprintf(out, " %s = %d;", decodeKey(key[:i+1]), dict.Value(index))
 				}
 			}
 		}
@@ -272,7 +289,7 @@ func handleLoadDict() {
 		fmt.Fprintf(out, "Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-			fmt.Fprintf(out, "%d: %s\n", i, indexer.IndexToString(uint32(i)))
+			fmt.Fprintf(out, "%d: %s\n", i, decodeKey(indexer.IndexToString(uint32(i))))
 		}
 	}
 	flushAnswers(out)
-- 
2.43.0


From 38fbee6c42686d88e03313da2b4d6a304e91cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:23 +0000
Subject: [PATCH 17/18] fix: dawgtool -i without a guide no longer panics after
 the last answer

---
 cmd/dawgtool/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 38d0f34..b96a71c 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -285,7 +285,7 @@ func handleLoadDict() {
 		log.Fatalf("error: failed to read lexicon: %v\n", err)
 	}
 
-	if optIndex {
+	if optIndex && guide != nil {
 		fmt.Fprintf(out, "Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-- 
2.43.0


From 1440e3574e0a85e2c16983375a70b51a95ead386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:53 +0000
Subject: [PATCH 18/18] fix: building the guide of an empty automaton clears
 the guide it is built into

---
 guide_builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/guide_builder.go b/guide_builder.go
index f60be21..76bb4f0 100644
--- a/guide_builder.go
+++ b/guide_builder.go
@@ -31,6 +31,7 @@ func (gb *GuideBuilder) Build() bool {
 	gb.isFixedTable = make([]ucharType, gb.dict.size/8)
 
 	if gb.dawg.Size() <= 1 {
+		gb.guide.Clear()
 		return true
 	}
 
-- 
2.43.0

