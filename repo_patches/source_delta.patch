From b4e1c3e8657297bc2434a63f5019ba7f23e161e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 01/42] fix: releasing an unused dict iterator must not
 unbalance the iterator count

---
 datastruct/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index 0d9f611..c58f46a 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -63,7 +63,7 @@ func NewDictIterator(dict *Dict) *DictIterator {
 }
 
 func (di *DictIterator) Release() {
-	if di.index != -1 || di.dict.iterators != 0 {
+	if di.index != -1 {
 		di.dict.iterators--
 	}
 }
-- 
2.43.0


From ceb3f8ddcde582370e4f6513789b83a4f42c561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 02/42] fix: Set.GetRandom must not panic on an empty set

---
 datastruct/set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 64e4d6a..cd3cf4c 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -33,7 +33,12 @@ func (s *Set) Range() []any {
 }
 
 func (s *Set) GetRandom() any {
-	return s.dict.GetRandomKey().Key
+	entry := s.dict.GetRandomKey()
+	if entry == nil {
+		return nil
+	}
+
+	return entry.Key
 }
 
 func (s *Set) Contains(member any) bool {
-- 
2.43.0


From d1d29797fc571a7323ce2e2a43a9c9d8612eebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 03/42] fix: a deep copy of a dict must not share stored
 collections with the original

---
 datastruct/dict.go      | 18 +++++++++++++++++-
 datastruct/quicklist.go | 12 ++++++++++++
 datastruct/zset.go      | 10 ++++++++++
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index c58f46a..7be7800 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -276,12 +276,28 @@ func (d *Dict) DeepCopy() *Dict {
 
 	dict := NewDict(d.DictType)
 	for entry := iter.Next(); entry != nil; entry = iter.Next() {
-		dict.Set(entry.Key, entry.Value)
+		dict.Set(entry.Key, deepCopyValue(entry.Value))
 	}
 
 	return dict
 }
 
+// deepCopyValue copies a stored collection, other values are immutable.
+func deepCopyValue(value any) any {
+	switch v := value.(type) {
+	case *Dict:
+		return v.DeepCopy()
+	case *Set:
+		return &Set{dict: v.dict.DeepCopy()}
+	case *Zset:
+		return v.DeepCopy()
+	case *Quicklist:
+		return v.DeepCopy()
+	default:
+		return value
+	}
+}
+
 // keyIndex returns the index of a free slot that can be used to store the given key.
 // if the key already exists, -1 is returned.
 // Note that if it is in the process of rehashing, the index is always returned in the second (new) hash table.
diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 19ce289..9d32e08 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -227,6 +227,18 @@ func (q *Quicklist) Get(index int) any {
 	return iter.value()
 }
 
+// DeepCopy returns a copy that shares no page with the original.
+func (q *Quicklist) DeepCopy() *Quicklist {
+	list := NewQuicklist()
+	for node := q.data.Front(); node != nil; node = node.Next() {
+		for _, value := range node.Value.(quicklistPage) {
+			list.PushBack(value)
+		}
+	}
+
+	return list
+}
+
 func (q *Quicklist) Len() int {
 	return q.length
 }
diff --git a/datastruct/zset.go b/datastruct/zset.go
index 35b968f..63d71a9 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -139,6 +139,16 @@ func (z *Zset) RangeByScore(min, max float64, limit int64, reverse bool) []*Zset
 	return elements
 }
 
+// DeepCopy returns a copy that shares nothing with the original.
+func (z *Zset) DeepCopy() *Zset {
+	zset := NewZset(z.dict.DictType)
+	for node := z.skiplist.Head.Levels[0].Forward; node != nil; node = node.Levels[0].Forward {
+		zset.Add(node.Score, node.Member)
+	}
+
+	return zset
+}
+
 // Size returns the number of elements in the zset.
 func (z *Zset) Size() int64 {
 	return z.skiplist.Length
-- 
2.43.0


From 9b58e6121181629a5237bc25a52661c1876b585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 04/42] fix: Quicklist positions in the second half were
 computed from a shadowed page index

---
 datastruct/quicklist.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 9d32e08..f7c5968 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -118,10 +118,10 @@ func (q *Quicklist) Insert(index int, v any) bool {
 		return true
 	}
 
-	q.length++
-
 	iter := q.get(index)
 	page := iter.page()
+	q.length++
+
 	// if the page is not full, just insert the value
 	if len(page) < pageSize {
 		page = append(page[:iter.offset+1], page[iter.offset:]...)
@@ -265,7 +265,7 @@ func (q *Quicklist) get(index int) *QuicklistIterator {
 			pageIndex += pageLen
 		}
 	} else {
-		pageIndex := q.length
+		pageIndex = q.length
 		for node = q.data.Back(); node != nil; node = node.Prev() {
 			pageLen := node.Value.(quicklistPage).Len()
 			if pageIndex -= pageLen; pageIndex <= index {
-- 
2.43.0


From f3d0649b34096daf0f333b1a241e913272eb0179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 05/42] fix: Quicklist.Range must not allocate for elements
 beyond the end

---
 datastruct/quicklist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index f7c5968..b838702 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -201,6 +201,10 @@ func (q *Quicklist) Range(start, stop int) []any {
 		return nil
 	}
 
+	if stop >= q.length {
+		stop = q.length - 1
+	}
+
 	iter := q.get(start)
 	if iter == nil {
 		return nil
-- 
2.43.0


From a52a3a03e34edb28028556ef28d0f50d37901ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 06/42] fix: Zset.Add must remove the skiplist node under its
 old score

---
 datastruct/zset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/zset.go b/datastruct/zset.go
index 63d71a9..0d54154 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -27,9 +27,9 @@ func (z *Zset) Add(score float64, member string) bool {
 	element := z.Get(member)
 	if element != nil {
 		if score != element.Score {
-			element.Score = score
 			z.skiplist.Delete(element.Score, element.Member)
 			z.skiplist.Insert(score, member)
+			element.Score = score
 		}
 
 		return false
-- 
2.43.0


From d6485966964bb46c21f3f92b61885b06676164cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 07/42] fix: Skiplist.GetRank must not take the head for the
 empty member

---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 4e5b86e..fcc7a90 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -200,7 +200,7 @@ func (s *Skiplist) GetRank(score float64, member string) int64 {
 			x = x.Levels[i].Forward
 		}
 
-		if member == x.Member {
+		if x != s.Head && member == x.Member {
 			return rank
 		}
 	}
-- 
2.43.0


From 31246efd5185b9cadb1d20b1e75122f7250de5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 08/42] fix: Skiplist.Delete must return nil when no node
 matches

---
 datastruct/skiplist.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index fcc7a90..3c12496 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -120,9 +120,11 @@ func (s *Skiplist) Delete(score float64, member string) *SkiplistNode {
 	x = x.Levels[0].Forward
 	if x != nil && score == x.Score && member == x.Member {
 		s.deleteNode(x, update)
+
+		return x
 	}
 
-	return x
+	return nil
 }
 
 // DeleteRangeByScore deletes all the elements with score between min and max (inclusive).
-- 
2.43.0


From d4ad3025d4f0161d4087e931223c6e284560cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 09/42] fix: Skiplist.RangeByRank must clamp the range to the
 elements there are

---
 datastruct/skiplist.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 3c12496..6c98be1 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -236,6 +236,14 @@ func (s *Skiplist) RangeByRank(start, end int64, reverse bool) []*SkiplistNode {
 		return nil
 	}
 
+	if start > s.Length {
+		return nil
+	}
+
+	if end > s.Length {
+		end = s.Length
+	}
+
 	var node *SkiplistNode
 	if reverse {
 		node = s.Tail
-- 
2.43.0


From 8c6de79fe9e96bad952cabac5e084c247325c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 10/42] fix: Skiplist.DeleteRangeByRank must carry the rank
 down the levels

---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 6c98be1..84d05b1 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -162,9 +162,9 @@ func (s *Skiplist) DeleteRangeByRank(start, end int64) []*SkiplistNode {
 
 	update := make([]*SkiplistNode, maxLevel)
 	x := s.Head
+	rank := int64(0)
 
 	for i := s.Level - 1; i >= 0; i-- {
-		rank := int64(0)
 		for x.Levels[i].Forward != nil && (rank+x.Levels[i].Span) < start {
 			rank += x.Levels[i].Span
 			x = x.Levels[i].Forward
-- 
2.43.0


From 9b6890ad97a41ec68cf077e2550564a8ab0ca3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 11/42] fix: an empty inline line must not panic the server

---
 server/resp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/resp.go b/server/resp.go
index c781c6f..58c8e5d 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -67,9 +67,10 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
-	subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
-	client.args = make([]string, len(subs))
-	copy(client.args, subs)
+	// an empty line holds no command
+	if index > 0 {
+		client.args = strings.Split(string(client.queryBuf[1:index]), " ")
+	}
 
 	client.moveToNextLineInQueryBuffer(index)
 
-- 
2.43.0


From 3929f33a010296d12a4f37bdcaeaaaae9a192451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 12/42] fix: a length line without digits must be refused
 instead of panicking

---
 server/client.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/client.go b/server/client.go
index 664b77e..eea22a9 100644
--- a/server/client.go
+++ b/server/client.go
@@ -7,7 +7,6 @@ import (
 	"strconv"
 	"strings"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/IfanTsai/metis/ae"
 	"github.com/IfanTsai/metis/database"
 	"github.com/IfanTsai/metis/datastruct"
@@ -54,7 +53,7 @@ func (c *Client) getCRLFIndexFromQueryBuffer() int {
 }
 
 func (c *Client) getNumFromQueryBuffer(indexCRLF int) (int, error) {
-	return strconv.Atoi(byteutils.B2S(c.queryBuf[1:indexCRLF]))
+	return strconv.Atoi(string(c.queryBuf[1:indexCRLF]))
 }
 
 func (c *Client) moveToNextLineInQueryBuffer(indexCRLF int) {
-- 
2.43.0


From ea953dec048c023833bf7ad49f73438697515f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 13/42] fix: announced lengths must be validated, awaited with
 their CRLF and may be zero

---
 server/client.go |  2 ++
 server/resp.go   | 36 +++++++++++++++++++++++++++---------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/server/client.go b/server/client.go
index eea22a9..5e3653c 100644
--- a/server/client.go
+++ b/server/client.go
@@ -33,6 +33,7 @@ type Client struct {
 	args          []string
 	multiBulkLen  int
 	bulkLen       int
+	bulkLenKnown  bool       // the length line of the current bulk has been read into bulkLen
 	replayHead    *list.List // string
 	sentLen       int
 	authenticated bool // when server requirPassword is not empty, client must auth first
@@ -201,4 +202,5 @@ func (c *Client) reset() {
 	c.args = nil
 	c.multiBulkLen = 0
 	c.bulkLen = 0
+	c.bulkLenKnown = false
 }
diff --git a/server/resp.go b/server/resp.go
index 58c8e5d..2b4d4f7 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -3,11 +3,14 @@ package server
 import (
 	"strings"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/pkg/errors"
 )
 
-const MaxInlineSize = 1024 * 64
+const (
+	MaxInlineSize   = 1024 * 64
+	MaxBulkLen      = 1024 * 1024 * 512
+	MaxMultiBulkLen = 1024 * 1024
+)
 
 // https://redis.io/docs/reference/protocol-spec/
 func processInputBuffer(client *Client) error {
@@ -78,7 +81,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 }
 
 func processBulkBuffer(client *Client) (bool, error) {
-	if client.bulkLen == 0 {
+	if !client.bulkLenKnown {
 		index := client.getCRLFIndexFromQueryBuffer()
 		if index == -1 {
 			if client.queryLen > MaxInlineSize {
@@ -93,6 +96,10 @@ func processBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get bulk length")
 		}
 
+		if num < 0 || num > MaxBulkLen {
+			return false, errors.New("invalid bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
 		if num == 0 {
@@ -100,16 +107,18 @@ func processBulkBuffer(client *Client) (bool, error) {
 		}
 
 		client.bulkLen = num
+		client.bulkLenKnown = true
 	}
 
 	if client.queryLen < client.bulkLen+2 {
 		return false, nil
 	}
 
-	client.args = append(client.args, byteutils.B2S(client.queryBuf[0:client.bulkLen]))
+	client.args = append(client.args, string(client.queryBuf[0:client.bulkLen]))
 	client.moveToNextLineInQueryBuffer(client.bulkLen)
 
 	client.bulkLen = 0
+	client.bulkLenKnown = false
 
 	return true, nil
 }
@@ -132,16 +141,19 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 
 		client.moveToNextLineInQueryBuffer(index)
 
-		if num == 0 {
+		if num <= 0 {
 			return true, nil
 		}
 
+		if num > MaxMultiBulkLen {
+			return false, errors.New("invalid multi bulk length")
+		}
+
 		client.multiBulkLen = num
-		client.args = make([]string, num)
 	}
 
 	for client.multiBulkLen > 0 {
-		if client.bulkLen == 0 {
+		if !client.bulkLenKnown {
 			index := client.getCRLFIndexFromQueryBuffer()
 			if index == -1 {
 				if client.queryLen > MaxInlineSize {
@@ -160,11 +172,16 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 				return false, errors.Wrap(err, "failed to get multi bulk length")
 			}
 
+			if num < 0 || num > MaxBulkLen {
+				return false, errors.New("invalid bulk length")
+			}
+
 			client.bulkLen = num
+			client.bulkLenKnown = true
 			client.moveToNextLineInQueryBuffer(index)
 		}
 
-		if client.queryLen < client.bulkLen {
+		if client.queryLen < client.bulkLen+2 {
 			return false, nil
 		}
 
@@ -173,8 +190,9 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.New("expected CRLF for end of bulk string")
 		}
 
-		client.args[len(client.args)-client.multiBulkLen] = byteutils.B2S(client.queryBuf[:index])
+		client.args = append(client.args, string(client.queryBuf[:index]))
 		client.bulkLen = 0
+		client.bulkLenKnown = false
 		client.multiBulkLen--
 
 		client.moveToNextLineInQueryBuffer(index)
-- 
2.43.0


From a2d95054569f9ea48e1a0a57f0c48442fff00174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 14/42] fix: requests pipelined behind a processed one must not
 be dropped

---
 server/client.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/client.go b/server/client.go
index 5e3653c..3f91400 100644
--- a/server/client.go
+++ b/server/client.go
@@ -195,9 +195,8 @@ func (c *Client) free() {
 
 }
 
+// reset forgets the request just processed; further requests may be waiting in the query buffer.
 func (c *Client) reset() {
-	c.queryBuf = nil
-	c.queryLen = 0
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-- 
2.43.0


From 0a81552627fe19f246ad005a59b9f5dbf8f02471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 15/42] fix: a connection whose read fails must be closed

---
 server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/server.go b/server/server.go
index 03d4f50..6920da4 100644
--- a/server/server.go
+++ b/server/server.go
@@ -191,6 +191,7 @@ func readQueryFromClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 			nRead = 0
 		default:
 			log.Error("failed to read", zap.Error(err))
+			client.free()
 
 			return
 		}
-- 
2.43.0


From aeac8637e2f082288460411e70a3b9fb5f13dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 16/42] fix: SELECT must refuse negative indices

---
 server/commandconnection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/commandconnection.go b/server/commandconnection.go
index f3cbddc..ed66966 100644
--- a/server/commandconnection.go
+++ b/server/commandconnection.go
@@ -12,7 +12,7 @@ func selectCommand(client *Client) error {
 		return client.addReplyError(err.Error())
 	}
 
-	if dbIndex >= len(client.srv.dbs) {
+	if dbIndex < 0 || dbIndex >= len(client.srv.dbs) {
 		return client.addReplyError("invalid db index")
 	}
 
-- 
2.43.0


From 16ee6458b105f851204047677f610cd7748fee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 17/42] fix: CR and LF in an error message must not break the
 reply stream

---
 server/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/client.go b/server/client.go
index 3f91400..c219fcf 100644
--- a/server/client.go
+++ b/server/client.go
@@ -95,7 +95,8 @@ func (c *Client) addReplyInt(num int64) error {
 }
 
 func (c *Client) addReplyError(err string) error {
-	return c.addReplyStringf("-ERR %s\r\n", err)
+	// arguments echoed in an error must not end its line
+	return c.addReplyStringf("-ERR %s\r\n", strings.NewReplacer("\r", " ", "\n", " ").Replace(err))
 }
 
 func (c *Client) addReplyErrorf(format string, args ...any) error {
-- 
2.43.0


From 47a8634ab3a68f22f932f1fca35b0e5379010422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 18/42] fix: writing to an expired key and TTL must treat it as
 absent

---
 server/commandhash.go | 5 +++++
 server/commandkey.go  | 5 +++++
 server/commandlist.go | 5 +++++
 server/commandset.go  | 5 +++++
 server/commandzset.go | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/server/commandhash.go b/server/commandhash.go
index bc5bb8d..8da466a 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -130,6 +130,11 @@ func hLenCommand(client *Client) error {
 }
 
 func getHash(client *Client, key string) (*datastruct.Dict, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandkey.go b/server/commandkey.go
index b4f5b19..b0c02da 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -40,6 +40,11 @@ func expireAtCommand(client *Client) error {
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyErrorf("expireIfNeeded error: %v", err)
+	}
+
 	if client.db.Dict.Find(key) == nil {
 		return client.addReplyInt(-2)
 	}
diff --git a/server/commandlist.go b/server/commandlist.go
index d1a5a8e..bf91968 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -157,6 +157,11 @@ func lRangeCommand(client *Client) error {
 }
 
 func getQuickList(client *Client, key string) (*datastruct.Quicklist, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandset.go b/server/commandset.go
index 6c0a129..de95785 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -203,6 +203,11 @@ func sUnionCommand(client *Client) error {
 }
 
 func getSet(client *Client, key string) (*datastruct.Set, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandzset.go b/server/commandzset.go
index 7c61771..df51714 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -237,6 +237,11 @@ func zRemRangeByScoreCommand(client *Client) error {
 }
 
 func getZset(client *Client, key string) (*datastruct.Zset, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
-- 
2.43.0


From 56c9d0b9a82085cde8550b9c648c52823a8cec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 19/42] fix: an expiry that does not fit the clock must be
 refused instead of wrapping around

---
 server/commandkey.go    | 24 ++++++++++++++++++++++--
 server/commandstring.go |  6 +++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/server/commandkey.go b/server/commandkey.go
index b0c02da..7dd2dff 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"regexp"
 	"strconv"
 	"time"
@@ -16,7 +17,11 @@ func expireCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
-	when := time.Now().UnixMilli() + expireInt*1000
+	when, ok := getExpireTime(time.Now().UnixMilli(), expireInt)
+	if !ok {
+		return client.addReplyErrorf("invalid expire: %s", client.args[2])
+	}
+
 	client.db.Expire.Set(key, when)
 	client.srv.dirty++
 
@@ -31,12 +36,27 @@ func expireAtCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
-	client.db.Expire.Set(key, expireInt*1000)
+	when, ok := getExpireTime(0, expireInt)
+	if !ok {
+		return client.addReplyErrorf("invalid expire: %s", client.args[2])
+	}
+
+	client.db.Expire.Set(key, when)
 	client.srv.dirty++
 
 	return client.addReplyOK()
 }
 
+// getExpireTime returns the time in milliseconds that is the given number of seconds after base.
+// Returns false if that does not fit.
+func getExpireTime(base, seconds int64) (int64, bool) {
+	if seconds > (math.MaxInt64-base)/1000 || seconds < math.MinInt64/1000 {
+		return 0, false
+	}
+
+	return base + seconds*1000, true
+}
+
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
diff --git a/server/commandstring.go b/server/commandstring.go
index 7ee7178..9c809d4 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -23,7 +23,11 @@ func setExCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
-	when := time.Now().UnixMilli() + expireInt*1000
+	when, ok := getExpireTime(time.Now().UnixMilli(), expireInt)
+	if !ok {
+		return client.addReplyErrorf("invalid expire: %s", client.args[2])
+	}
+
 	client.db.Expire.Set(key, when)
 	client.db.Dict.Set(key, value)
 	client.srv.dirty++
-- 
2.43.0


From 40d8bf932699451c638e77c2dab41e8f1e0fb897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 20/42] fix: EXPIRE and EXPIREAT must leave no deadline on a
 key that does not exist

---
 server/commandkey.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/server/commandkey.go b/server/commandkey.go
index 7dd2dff..e08f53e 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -22,6 +22,12 @@ func expireCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s", client.args[2])
 	}
 
+	if exist, err := keyExists(client, key); err != nil {
+		return client.addReplyErrorf("expireIfNeeded error: %v", err)
+	} else if !exist {
+		return client.addReplyInt(0)
+	}
+
 	client.db.Expire.Set(key, when)
 	client.srv.dirty++
 
@@ -41,12 +47,27 @@ func expireAtCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s", client.args[2])
 	}
 
+	if exist, err := keyExists(client, key); err != nil {
+		return client.addReplyErrorf("expireIfNeeded error: %v", err)
+	} else if !exist {
+		return client.addReplyInt(0)
+	}
+
 	client.db.Expire.Set(key, when)
 	client.srv.dirty++
 
 	return client.addReplyOK()
 }
 
+// keyExists returns whether the key exists and has not expired.
+func keyExists(client *Client, key string) (bool, error) {
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return false, err
+	}
+
+	return client.db.Dict.Find(key) != nil, nil
+}
+
 // getExpireTime returns the time in milliseconds that is the given number of seconds after base.
 // Returns false if that does not fit.
 func getExpireTime(base, seconds int64) (int64, bool) {
-- 
2.43.0


From d3d4c9d9ed8b1b9d827755fcf35b1664109fb319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 21/42] fix: ZADD with an invalid score must not change
 anything

---
 server/commandzset.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index df51714..7b6c5f0 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -15,6 +15,17 @@ func zAddCommand(client *Client) error {
 
 	key := client.args[1]
 
+	// check all the scores before anything is changed
+	scores := make([]float64, 0, len(client.args)/2)
+	for i := 2; i < len(client.args); i += 2 {
+		score, err := strconv.ParseFloat(client.args[i], 64)
+		if err != nil {
+			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
+		}
+
+		scores = append(scores, score)
+	}
+
 	zset, err := getZset(client, key)
 	if err != nil {
 		return client.addReplyError(err.Error())
@@ -22,13 +33,8 @@ func zAddCommand(client *Client) error {
 
 	var created int64
 	for i := 2; i < len(client.args); i += 2 {
-		score, err := strconv.ParseFloat(client.args[i], 64)
-		if err != nil {
-			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
-		}
-
 		member := client.args[i+1]
-		if zset.Add(score, member) {
+		if zset.Add(scores[i/2-1], member) {
 			created++
 		}
 
-- 
2.43.0


From b05bd8bb8e30e81f86692a8cc11717340613e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 22/42] fix: ZADD must refuse a score that is not a number

---
 server/commandzset.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/commandzset.go b/server/commandzset.go
index 7b6c5f0..c337c0c 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/IfanTsai/metis/database"
@@ -23,6 +24,10 @@ func zAddCommand(client *Client) error {
 			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
 		}
 
+		if math.IsNaN(score) {
+			return client.addReplyErrorf("invalid score: %s", client.args[i])
+		}
+
 		scores = append(scores, score)
 	}
 
-- 
2.43.0


From 5c89acd9cd4630a137ba4f561d1ac434221ebd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 23/42] fix: SUNION must not be empty because its first set
 does not exist

---
 server/commandset.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/server/commandset.go b/server/commandset.go
index de95785..dc54743 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -177,16 +177,9 @@ func sInterCommand(client *Client) error {
 }
 
 func sUnionCommand(client *Client) error {
-	set, err := getSetIfExist(client, client.args[1])
-	if err != nil {
-		if errors.Is(err, errNotExist) {
-			return client.addReplyEmpty()
-		}
+	set := datastruct.NewSet(&database.DictType{})
 
-		return client.addReplyError(err.Error())
-	}
-
-	for i := 2; i < len(client.args); i++ {
+	for i := 1; i < len(client.args); i++ {
 		set2, err := getSetIfExist(client, client.args[i])
 		if err != nil {
 			if errors.Is(err, errNotExist) {
-- 
2.43.0


From fc44fad81849517c1f1455f7ba6c4f2fd2a22b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 24/42] fix: the first command logged after a start must select
 its database

---
 server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/server.go b/server/server.go
index 6920da4..4776ba6 100644
--- a/server/server.go
+++ b/server/server.go
@@ -79,6 +79,7 @@ func NewServer(config *config.Config) *Server {
 		aofRewritePercent: config.AofRewritePercent,
 		aofRewriteMinSize: config.AofRewriteMinSize,
 		aofRewriteDoneCh:  make(chan string, 1),
+		aofSelectDBID:     -1, // nothing is known about the database selected at the end of the log
 	}
 
 	server.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
-- 
2.43.0


From d27d04d5a2a23c2e9d7c316a48578741cfd66175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 25/42] fix: commands logged behind a rewritten log must select
 their database

---
 server/aof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 7955918..73374cb 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -225,6 +225,9 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 		tmpDBs[i] = db.DeepCopy()
 	}
 
+	// the commands accumulated for the new log follow a dump that ends in any database
+	srv.aofSelectDBID = -1
+
 	go rewriteAppendOnlyFile(tmpDBs, srv)
 }
 
-- 
2.43.0


From 19c9a945a18ac594e6fcb50e8f22f4d5c7e9229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 26/42] fix: commands buffered when a log rewrite completes
 must not be logged twice

---
 server/aof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 73374cb..1a761d7 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -372,6 +372,9 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 func aofRewriteDoneCallback(srv *Server) {
 	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
 
+	// what is still buffered is in the rewrite buffer too, it must not follow it once more
+	flushAppendOnlyFile(srv)
+
 	if srv.aofFile != nil {
 		srv.aofFile.Close()
 	}
-- 
2.43.0


From 05737df875bdb95a970767f54cd21c0f6b7302d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 27/42] fix: a log rewrite must keep the order of lists

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 1a761d7..268839c 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -304,7 +304,7 @@ func rewriteListObject(file *os.File, key string, value *datastruct.Quicklist) e
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)
 	for _, chunk := range itemsChunks {
-		aofStr := catAppendOnlyGenericCommand(append([]string{"lpush", key}, chunk...))
+		aofStr := catAppendOnlyGenericCommand(append([]string{"rpush", key}, chunk...))
 		if _, err := file.WriteString(aofStr); err != nil {
 			return errors.Wrapf(err, "failed to write qucik list to AOF file, key: %s, value: %v", key, chunk)
 		}
-- 
2.43.0


From f49f5893f08603d7fb2e52fa3703e6b48fdbc873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 28/42] fix: a log rewrite must write sorted sets with the
 score before the member

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 268839c..2a4ff04 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -354,7 +354,7 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 	items := make([]string, 0, value.Size())
 
 	for _, item := range value.RangeByRank(0, value.Size()-1, false) {
-		items = append(items, item.Member, strconv.FormatFloat(item.Score, 'f', -1, 64))
+		items = append(items, strconv.FormatFloat(item.Score, 'f', -1, 64), item.Member)
 	}
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)
-- 
2.43.0


From 9780d3bca10f46fe23e2f4c0f7cd22c4e23b0656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 29/42] fix: SPOP must log the member it removed instead of
 another random removal

---
 server/commandset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/commandset.go b/server/commandset.go
index dc54743..4f5c469 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -72,6 +72,9 @@ func sPopCommand(client *Client) error {
 
 	client.srv.dirty++
 
+	// the log must remove the same member when it is replayed
+	client.args = []string{"srem", key, randomMember.(string)}
+
 	return client.addReplyBulkString(randomMember.(string))
 }
 
-- 
2.43.0


From 689179f38e17acaed9632504988aa7f29ed909db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 30/42] fix: the log loader must read large and empty arguments
 completely

---
 server/aof.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 2a4ff04..84db724 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -10,7 +10,6 @@ import (
 	"strings"
 	"time"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/IfanTsai/metis/config"
 	"github.com/IfanTsai/metis/database"
 	"github.com/IfanTsai/metis/datastruct"
@@ -141,7 +140,7 @@ func loadAppendOnlyFile(srv *Server) {
 			return "", err
 		}
 
-		return byteutils.B2S(bytes.TrimRight(buf, "\r\n")), nil
+		return string(bytes.TrimRight(buf, "\r\n")), nil
 	}
 
 	aofFile, err := os.Open(srv.aofFilename)
@@ -164,7 +163,7 @@ func loadAppendOnlyFile(srv *Server) {
 			log.Panic("failed to read aof file", zap.Error(err))
 		}
 
-		if buf[0] != '*' {
+		if !strings.HasPrefix(buf, "*") {
 			log.Panic("invalid aof file format")
 		}
 
@@ -180,7 +179,7 @@ func loadAppendOnlyFile(srv *Server) {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
-			if buf[0] != '$' {
+			if !strings.HasPrefix(buf, "$") {
 				log.Panic("invalid aof file format")
 			}
 
@@ -190,16 +189,16 @@ func loadAppendOnlyFile(srv *Server) {
 			}
 
 			arg := make([]byte, argLen)
-			if _, err := reader.Read(arg); err != nil {
+			if _, err := io.ReadFull(reader, arg); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
 			// discard CRLF
-			if _, err := reader.Read(make([]byte, 2)); err != nil {
+			if _, err := io.ReadFull(reader, make([]byte, 2)); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
-			args[i] = byteutils.B2S(arg)
+			args[i] = string(arg)
 		}
 
 		cmd := lookupCommand(strings.ToLower(args[0]))
-- 
2.43.0


From 7b5164173bf0da6429c6ef6504707b67f479fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 31/42] fix: a log cut off within its last command must load
 instead of panicking

---
 server/aof.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 84db724..44d8948 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -133,13 +133,17 @@ func aofFileSync(srv *Server) {
 
 // loadAppendOnlyFile replays the AOF file.
 func loadAppendOnlyFile(srv *Server) {
+	// nRead counts the bytes read, nLoaded those of complete commands.
 	// readline is a helper function that reads a line from the AOF file.
+	var nRead, nLoaded int64
 	readLine := func(reader *bufio.Reader) (string, error) {
 		buf, err := reader.ReadBytes('\n')
 		if err != nil {
 			return "", err
 		}
 
+		nRead += int64(len(buf))
+
 		return string(bytes.TrimRight(buf, "\r\n")), nil
 	}
 
@@ -153,7 +157,10 @@ func loadAppendOnlyFile(srv *Server) {
 	defer fakeClient.free()
 
 	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
+load:
 	for {
+		nLoaded = nRead
+
 		buf, err := readLine(reader)
 		if err != nil {
 			if errors.Is(err, io.EOF) {
@@ -176,6 +183,10 @@ func loadAppendOnlyFile(srv *Server) {
 		for i := 0; i < argc; i++ {
 			buf, err = readLine(reader)
 			if err != nil {
+				if errors.Is(err, io.EOF) {
+					break load
+				}
+
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
@@ -188,17 +199,18 @@ func loadAppendOnlyFile(srv *Server) {
 				log.Panic("invalid aof file format", zap.Error(err))
 			}
 
-			arg := make([]byte, argLen)
-			if _, err := io.ReadFull(reader, arg); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
-			}
+			arg := make([]byte, argLen+2) // with CRLF
+			n, err := io.ReadFull(reader, arg)
+			if err != nil {
+				if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
+					break load
+				}
 
-			// discard CRLF
-			if _, err := io.ReadFull(reader, make([]byte, 2)); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
-			args[i] = string(arg)
+			nRead += int64(n)
+			args[i] = string(arg[:argLen])
 		}
 
 		cmd := lookupCommand(strings.ToLower(args[0]))
@@ -211,6 +223,16 @@ func loadAppendOnlyFile(srv *Server) {
 		_ = cmd.proc(fakeClient)
 	}
 
+	// a crash can cut off the last command, what is logged from now on must not follow its remains
+	if uint(nLoaded) < srv.aofCurrentSize {
+		log.Warn("aof file is truncated, ignore the incomplete last command", zap.Int64("size", nLoaded))
+
+		if err := os.Truncate(srv.aofFilename, nLoaded); err != nil {
+			log.Fatal("failed to truncate aof file", zap.Error(err))
+		}
+
+		srv.aofCurrentSize = uint(nLoaded)
+	}
 }
 
 // rewriteAppendOnlyFileBackground rewrites the AOF file in background.
-- 
2.43.0


From a8f6f3a923e43071ecb5d000f2707c53814418a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 32/42] fix: no reply may leave before the log records of its
 command are written

---
 server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server.go b/server/server.go
index 4776ba6..52d6ac0 100644
--- a/server/server.go
+++ b/server/server.go
@@ -215,6 +215,10 @@ func readQueryFromClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 
 func sendReplayToClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 	client := clientData.(*Client)
+
+	// a command executed since the event loop woke up must be logged before its reply leaves
+	flushAppendOnlyFile(client.srv)
+
 	for client.replayHead.Len() > 0 {
 		element := client.replayHead.Front()
 		buf := byteutils.S2B(element.Value.(string))
-- 
2.43.0


From 7a890f06f3172d250ab110b6fa9f011ef3a654b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 33/42] fix: the removal of an expired key must be logged, its
 replay must not depend on the clock

---
 server/aof.go     |  7 +++++++
 server/command.go | 26 +++++++++++++++++++++++---
 server/server.go  |  4 ++--
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 44d8948..c62f26b 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -156,6 +156,9 @@ func loadAppendOnlyFile(srv *Server) {
 	fakeClient := NewClient(srv, -1)
 	defer fakeClient.free()
 
+	srv.aofLoading = true
+	defer func() { srv.aofLoading = false }()
+
 	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
 load:
 	for {
@@ -214,6 +217,10 @@ load:
 		}
 
 		cmd := lookupCommand(strings.ToLower(args[0]))
+		if args[0] == delCommand.name {
+			cmd = &delCommand
+		}
+
 		if cmd == nil {
 			log.Error("unknown command", zap.String("command", args[0]))
 			continue
diff --git a/server/command.go b/server/command.go
index 207fddb..01cf93b 100644
--- a/server/command.go
+++ b/server/command.go
@@ -4,6 +4,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/IfanTsai/metis/database"
 	"github.com/pkg/errors"
 )
 
@@ -18,6 +19,14 @@ type command struct {
 	arity int
 }
 
+// delCommand exists in the log only, for keys that expired.
+var delCommand = command{"del", func(client *Client) error {
+	_ = client.db.Dict.Delete(client.args[1])
+	_ = client.db.Expire.Delete(client.args[1])
+
+	return nil
+}, 2}
+
 var commandTable = []command{
 	// connection
 	{"ping", pingCommand, 1},
@@ -81,9 +90,9 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 			return false, errors.New("expire value is not an integer")
 		}
 
-		if when < time.Now().UnixMilli() {
-			_ = client.db.Dict.Delete(key)
-			_ = client.db.Expire.Delete(key)
+		// while the log is loaded keys disappear when it says so
+		if when < time.Now().UnixMilli() && !client.srv.aofLoading {
+			deleteExpired(client.srv, client.db, key)
 
 			return true, nil
 		}
@@ -92,6 +101,17 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 	return false, nil
 }
 
+// deleteExpired deletes an expired key, in the log too: whether a command there still saw the key
+// does not depend on the time it is replayed at.
+func deleteExpired(srv *Server, db *database.Databse, key string) {
+	_ = db.Dict.Delete(key)
+	_ = db.Expire.Delete(key)
+
+	if srv.aofEnable {
+		feedAppendOnlyFile(srv, &delCommand, db.ID, []string{delCommand.name, key})
+	}
+}
+
 func lookupCommand(name string) *command {
 	for _, cmd := range commandTable {
 		if cmd.name == name {
diff --git a/server/server.go b/server/server.go
index 52d6ac0..838ccad 100644
--- a/server/server.go
+++ b/server/server.go
@@ -51,6 +51,7 @@ type Server struct {
 	aofFsync         config.TypeAppnedFsync
 	aofLastFsyncTime time.Time
 	aofSelectDBID    int
+	aofLoading       bool
 	aofFile          *os.File
 	aofBuf           strings.Builder
 	aofCurrentSize   uint
@@ -294,8 +295,7 @@ func databasesCron(srv *Server) {
 			}
 
 			if when < time.Now().UnixMilli() {
-				db.Dict.Delete(entry.Key)
-				db.Expire.Delete(entry.Key)
+				deleteExpired(srv, db, entry.Key.(string))
 			}
 		}
 	}
-- 
2.43.0


From b767600f02ac9ba54249002ee8bde1aef19a1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 34/42] fix: BGREWRITEAOF without an append only file must not
 panic the server later

---
 server/commandserver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/commandserver.go b/server/commandserver.go
index 59e5093..0f0d385 100644
--- a/server/commandserver.go
+++ b/server/commandserver.go
@@ -3,6 +3,10 @@ package server
 func bgRewriteAofCommand(client *Client) error {
 	srv := client.srv
 
+	if !srv.aofEnable {
+		return client.addReplyError("append only file is disabled")
+	}
+
 	if srv.backgroundTaskTypeAtomic.Load() != uint32(TypeBackgroundTaskNone) {
 		return client.addReplySimpleString("Background append only file rewriting scheduled")
 	}
-- 
2.43.0


From 3ddb3add9ccbec981764ded9153c815ef18d5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 35/42] fix: the message for an invalid option must name it

---
 server/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/client.go b/server/client.go
index c219fcf..4fe9cd0 100644
--- a/server/client.go
+++ b/server/client.go
@@ -135,7 +135,7 @@ func (c *Client) addReplyZsetElements(elements []*datastruct.ZsetElement, withSc
 		if strings.EqualFold(c.args[withScoreIndex], "WITHSCORES") {
 			withScore = true
 		} else {
-			return c.addReplyError("invalid option: %s" + c.args[withScoreIndex])
+			return c.addReplyErrorf("invalid option: %s", c.args[withScoreIndex])
 		}
 	}
 
-- 
2.43.0


From f5717013a4547500f739841933ae85e69a8ab4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 36/42] fix: a timer removed while timers are processed must
 not run nor stop the others

---
 ae/ae.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index 0328dec..a35400d 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -48,6 +48,7 @@ type TimeEvent struct {
 	interval   int64
 	proc       TimeProc
 	clientData any
+	removed    bool
 }
 
 type EventLoop struct {
@@ -152,6 +153,7 @@ func (el *EventLoop) RemoveTimeEvent(id int64) error {
 		te := e.Value.(*TimeEvent)
 		if te.id == id {
 			el.timeEventHead.Remove(e)
+			te.removed = true
 
 			return nil
 		}
@@ -188,9 +190,17 @@ func (el *EventLoop) Stop() {
 // processEvents processes time events and file events
 func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEvent) error {
 	for _, te := range timeEvents {
+		if te.removed { // by a handler that ran before
+			continue
+		}
+
 		te.proc(el, te.id, te.clientData)
 
 		if te.mask == TypeTimeEventOnce {
+			if te.removed { // by its own handler
+				continue
+			}
+
 			if err := el.RemoveTimeEvent(te.id); err != nil {
 				return errors.Wrapf(err, "failed to remove time event: %v", te)
 			}
-- 
2.43.0


From c9b531c2913a416b07bc905d7b63c9e10511cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:55 +0000
Subject: [PATCH 37/42] fix: a file event removed while events are processed
 must not be delivered

---
 ae/ae.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index a35400d..28449e1 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -210,6 +210,11 @@ func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEv
 	}
 
 	for _, fe := range fileEvents {
+		// a handler that ran before may have removed this one
+		if el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)] != fe {
+			continue
+		}
+
 		fe.proc(el, fe.fd, fe.clientData)
 	}
 
-- 
2.43.0


From 4c5c647a5f8e6862d4e0818edc139e912d526e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 38/42] fix: Bind and Connect must use the address given
 instead of 0.0.0.0

---
 socket/socket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/socket.go b/socket/socket.go
index 333ae41..13bb243 100644
--- a/socket/socket.go
+++ b/socket/socket.go
@@ -27,7 +27,7 @@ func (fd FD) Close() error {
 }
 
 func (fd FD) Connect(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
@@ -42,7 +42,7 @@ func (fd FD) Connect(ip string, port uint16) error {
 }
 
 func (fd FD) Bind(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
-- 
2.43.0


From 5c9766100c5b9e322cbbe6e5e7a0fe3caa1e0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 39/42] fix: a crash while a log rewrite completes must not
 lose acknowledged commands

The rewritten log replaced the old one before the commands executed during
the rewrite were appended to it, came from another directory (mv copies
across file systems) and was never synced.
---
 server/aof.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index c62f26b..331e4e1 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -5,7 +5,7 @@ import (
 	"bytes"
 	"io"
 	"os"
-	"os/exec"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"time"
@@ -260,7 +260,8 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 }
 
 func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
-	tmpFile, err := os.CreateTemp("", AofRewriteTempFilePrefix)
+	// next to the AOF file, which it can replace atomically only within one file system
+	tmpFile, err := os.CreateTemp(filepath.Dir(srv.aofFilename), AofRewriteTempFilePrefix)
 	if err != nil {
 		log.Panic("failed to create temp file", zap.Error(err))
 	}
@@ -310,6 +311,10 @@ func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
 		}
 	}
 
+	if err := tmpFile.Sync(); err != nil {
+		log.Panic("failed to fsync the temp file", zap.Error(err))
+	}
+
 	srv.aofRewriteDoneCh <- tmpFile.Name()
 }
 
@@ -403,32 +408,36 @@ func aofRewriteDoneCallback(srv *Server) {
 	// what is still buffered is in the rewrite buffer too, it must not follow it once more
 	flushAppendOnlyFile(srv)
 
-	if srv.aofFile != nil {
-		srv.aofFile.Close()
-	}
-
 	tmpAofFilename := <-srv.aofRewriteDoneCh
-	defer os.Remove(tmpAofFilename)
-
-	// occurs error "invalid cross-device link" if use os.Rename
-	if err := exec.Command("mv", tmpAofFilename, srv.aofFilename).Run(); err != nil {
-		log.Panic("failed to mv",
-			zap.Error(err),
-			zap.String("from", tmpAofFilename),
-			zap.String("to", srv.aofFilename))
-	}
 
-	aofFile, err := os.OpenFile(srv.aofFilename, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	aofFile, err := os.OpenFile(tmpAofFilename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		log.Panic("failed to open file",
-			zap.Error(err), zap.String("filename", srv.aofFilename))
+			zap.Error(err), zap.String("filename", tmpAofFilename))
 	}
 
-	//  append AOF rewrite buffer to AOF file
+	//  append AOF rewrite buffer to the temp file
 	if srv.aofRewriteBuf.Len() > 0 {
 		if _, err := aofFile.WriteString(srv.aofRewriteBuf.String()); err != nil {
 			log.Panic("failed to write to AOF file", zap.Error(err))
 		}
+
+		if err := aofFile.Sync(); err != nil {
+			log.Panic("failed to fsync the AOF file", zap.Error(err))
+		}
+	}
+
+	// the AOF file is replaced only now that the temp file has everything,
+	// whenever a crash happens there is one complete log
+	if err := os.Rename(tmpAofFilename, srv.aofFilename); err != nil {
+		log.Panic("failed to rename",
+			zap.Error(err),
+			zap.String("from", tmpAofFilename),
+			zap.String("to", srv.aofFilename))
+	}
+
+	if srv.aofFile != nil {
+		srv.aofFile.Close()
 	}
 
 	srv.aofRewriteBuf.Reset()
-- 
2.43.0


From 7ad858f402513e3aaa8751128a873f06b4d04f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 40/42] fix: the everysec sync must not end the server when a
 rewrite replaces the log file meanwhile

The goroutine read srv.aofFile when it ran, which the event loop may just
have closed: Sync failed and log.Panic ended the process.
---
 server/aof.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 331e4e1..b88c5b8 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -120,8 +120,10 @@ func aofFileSync(srv *Server) {
 				log.Panic("failed to fsync the AOF file", zap.Error(err))
 			}
 		case config.TypeAppendFsyncEverySecond:
+			aofFile := srv.aofFile
 			go func() {
-				if err := srv.aofFile.Sync(); err != nil {
+				// a rewrite may have replaced and closed the file meanwhile, the new one is synced already
+				if err := aofFile.Sync(); err != nil && !errors.Is(err, os.ErrClosed) {
 					log.Panic("failed to fsync the AOF file", zap.Error(err))
 				}
 			}()
-- 
2.43.0


From ba261c95da456a2514a8a424ca380f49d1670096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 41/42] fix: the everysec policy must sync the last writes too
 when no further ones follow

The file was synced only while writing and only if the last sync was over a
second ago: what was written within that second stayed unsynced for as long
as no other command came.
---
 server/aof.go    | 7 +++++++
 server/server.go | 1 +
 2 files changed, 8 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index b88c5b8..c6973ca 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -93,6 +93,11 @@ func catAppendOnlyGenericCommand(args []string) string {
 // flushAppendOnlyFile flushes the AOF buffer on disk.
 func flushAppendOnlyFile(srv *Server) {
 	if srv.aofBuf.Len() == 0 {
+		// the last writes within a second after a sync are synced even if none follows
+		if srv.aofUnsynced {
+			aofFileSync(srv)
+		}
+
 		return
 	}
 
@@ -104,6 +109,7 @@ func flushAppendOnlyFile(srv *Server) {
 
 	srv.aofBuf.Reset()
 	srv.aofCurrentSize += uint(nWritten)
+	srv.aofUnsynced = srv.aofFsync == config.TypeAppendFsyncEverySecond
 
 	// fsync if needed
 	aofFileSync(srv)
@@ -130,6 +136,7 @@ func aofFileSync(srv *Server) {
 		}
 
 		srv.aofLastFsyncTime = now
+		srv.aofUnsynced = false
 	}
 }
 
diff --git a/server/server.go b/server/server.go
index 838ccad..f9ba635 100644
--- a/server/server.go
+++ b/server/server.go
@@ -50,6 +50,7 @@ type Server struct {
 	aofFilename      string
 	aofFsync         config.TypeAppnedFsync
 	aofLastFsyncTime time.Time
+	aofUnsynced      bool // written since the last sync of the everysec policy
 	aofSelectDBID    int
 	aofLoading       bool
 	aofFile          *os.File
-- 
2.43.0


From f98482b6368d8fe740adbd522359cdd137964ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 42/42] fix: reload the config as a whole and keep the old one
 if the changed one is invalid

---
 config/config.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/config/config.go b/config/config.go
index ce472e3..e0272f0 100644
--- a/config/config.go
+++ b/config/config.go
@@ -54,22 +54,36 @@ func LoadConfig(configFile, configType string) *Config {
 			log.Fatalln("cannot read config:", err)
 		}
 
-		if err := viper.Unmarshal(&config); err != nil {
+		var err error
+		if config, err = unmarshalConfig(); err != nil {
 			log.Fatalln("failed to unmarshal from config:", err)
 		}
 
-		config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
-
 		viper.WatchConfig()
 
 		viper.OnConfigChange(func(e fsnotify.Event) {
-			if err := viper.Unmarshal(&config); err != nil {
-				log.Fatalln("failed to unmarshal from config:", err)
+			// keep the current config if the changed one is invalid
+			newConfig, err := unmarshalConfig()
+			if err != nil {
+				log.Println("failed to unmarshal from config:", err)
+
+				return
 			}
 
-			config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
+			config = newConfig
 		})
 	})
 
 	return &config
 }
+
+func unmarshalConfig() (Config, error) {
+	var c Config
+	if err := viper.Unmarshal(&c); err != nil {
+		return Config{}, err
+	}
+
+	c.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
+
+	return c, nil
+}
-- 
2.43.0

