From 4655fa95dabeda5dc8340e565d1d439b1e12cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 01/50] fix: reset trailing 0xFF bytes when computing a key
 successor

---
 table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 2a25b0a..0a413ca 100644
--- a/table.go
+++ b/table.go
@@ -1267,8 +1267,8 @@ func keySuccessor(src, dst []byte) []byte {
 	}
 
 	for i := len(src) - 1; i >= 0; i-- {
-		if dst[i] != 0xFF {
-			dst[i]++
+		dst[i]++
+		if dst[i] != 0x00 {
 			return dst
 		}
 	}
-- 
2.43.0


From 796a3b461e6c40a4004eec8b2bdd575f04585eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 02/50] fix: OrderBytes must not modify the bytes of the caller

---
 index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index e4d2f52..396bdc3 100644
--- a/index.go
+++ b/index.go
@@ -91,9 +91,11 @@ func (o IndexOrder) OrderByte(b byte, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderBytes(b []byte, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
+		inverted := make([]byte, len(b))
 		for i := 0; i < len(b); i++ {
-			b[i] = ^b[i]
+			inverted[i] = ^b[i]
 		}
+		b = inverted
 	}
 
 	o.KeyBuilder = o.KeyBuilder.AddBytesField(b)
-- 
2.43.0


From 6e3a7f8319bef24fbefd86dece31bb9aa61897fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 03/50] fix: keep the given order of rows that share a primary
 key

---
 table.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 0a413ca..680bd87 100644
--- a/table.go
+++ b/table.go
@@ -1202,7 +1202,10 @@ func (t *_table[T]) sortKeys(keys [][]byte) []int {
 			keyOrder[i], keyOrder[j] = keyOrder[j], keyOrder[i]
 		},
 		LessFn: func(i, j int) bool {
-			return bytes.Compare(keys[i], keys[j]) < 0
+			if c := bytes.Compare(keys[i], keys[j]); c != 0 {
+				return c < 0
+			}
+			return keyOrder[i] < keyOrder[j]
 		},
 	})
 	return keyOrder
-- 
2.43.0


From 3e344b1c110e0d4ab2970dd1805736a027df2212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 04/50] fix: do not deserialize stored rows into the previous
 row

---
 table.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/table.go b/table.go
index 680bd87..acca10c 100644
--- a/table.go
+++ b/table.go
@@ -494,9 +494,6 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -530,6 +527,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
+			var oldTr T
 			err := t.serializer.Deserialize(iter.Value(), &oldTr)
 			if err != nil {
 				return err
@@ -679,9 +677,6 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -711,6 +706,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// old record
 			var (
+				oldTr    T
 				isUpdate bool
 				err      error
 			)
-- 
2.43.0


From bc97e605d4ebb5f46df8d872d3b6be010e2053f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 05/50] fix: Upsert of repeated keys used wrong rows and left
 stale index entries

---
 table.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/table.go b/table.go
index acca10c..b7deee5 100644
--- a/table.go
+++ b/table.go
@@ -725,10 +725,8 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// apply conficts recursively if duplicate exist
 			for i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
-				oldTr = tr
 				i++
-				tr = onConflict(oldTr, trs[i])
-				continue
+				tr = onConflict(tr, trs[keyOrder[i]])
 			}
 
 			// serialize
-- 
2.43.0


From 438ef660aff69473bd239dbbea5e490946ed95a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 06/50] fix: detect repeated keys across the rounds of a large
 Insert, Update or Upsert

---
 table.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index b7deee5..6bc53ba 100644
--- a/table.go
+++ b/table.go
@@ -350,7 +350,7 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(batchTypeFor(trs))
 		defer batch.Close()
 	}
 
@@ -464,7 +464,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(batchTypeFor(trs))
 		defer batch.Close()
 	}
 
@@ -647,7 +647,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(batchTypeFor(trs))
 		defer batch.Close()
 	}
 
@@ -1272,6 +1272,15 @@ func keySuccessor(src, dst []byte) []byte {
 	return dst
 }
 
+// batchTypeFor returns the type of the internal batch that writes the rows. Rows
+// that are written in multiple rounds need to be visible to the later rounds.
+func batchTypeFor[T any](trs []T) BatchType {
+	if len(trs) > persistentBatchSize {
+		return BatchTypeReadWrite
+	}
+	return BatchTypeWriteOnly
+}
+
 func batched[T any](items []T, batchSize int, f func(batch []T) error) error {
 	batchNum := 0
 	itemsLen := len(items)
-- 
2.43.0


From a562969057e5930a1cd91ea1c9bdfd4c29c81ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 07/50] fix: a rejected AddIndex must not keep the table locked
 or half updated

---
 table.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 6bc53ba..4ca736d 100644
--- a/table.go
+++ b/table.go
@@ -247,13 +247,17 @@ func (t *_table[T]) Serializer() Serializer[*T] {
 
 func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 	t.mutex.Lock()
+	newIndexes := make(map[IndexID]*Index[T], len(idxs))
 	for _, idx := range idxs {
 		_, ok := t.secondaryIndexes[idx.IndexID]
-		if ok {
+		_, repeated := newIndexes[idx.IndexID]
+		if ok || repeated {
+			t.mutex.Unlock()
 			return fmt.Errorf("found duplicate IndexID %d", idx.IndexID)
 		}
-		t.secondaryIndexes[idx.IndexID] = idx
+		newIndexes[idx.IndexID] = idx
 	}
+	maps.Copy(t.secondaryIndexes, newIndexes)
 	t.mutex.Unlock()
 
 	if len(reIndex) > 0 && reIndex[0] {
-- 
2.43.0


From c1ae4ded3e6f0c62b60f42af94803282b432d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 08/50] fix: a nil batch is no batch for index iteration

---
 index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.go b/index.go
index 396bdc3..d7fc739 100644
--- a/index.go
+++ b/index.go
@@ -177,7 +177,7 @@ func (idx *Index[T]) Name() string {
 // Iter returns an iterator for the index.
 func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
 	var iterConstructor Iterationer = table.DB()
-	if len(optBatch) > 0 {
+	if len(optBatch) > 0 && optBatch[0] != nil {
 		iterConstructor = optBatch[0]
 	}
 
-- 
2.43.0


From ab217d8e976b1555532a2793b4afe65c605f7dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 09/50] fix: closing a batch calls the OnClose callbacks, not
 OnCommitted

---
 batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch.go b/batch.go
index eb73032..15376cf 100644
--- a/batch.go
+++ b/batch.go
@@ -202,7 +202,7 @@ func (b *_batch) notifyOnError(err error) {
 }
 
 func (b *_batch) notifyOnClose() {
-	for _, f := range b.onCommittedCallbacks {
+	for _, f := range b.onClose {
 		f(b)
 	}
 }
-- 
2.43.0


From 51f009e1d9adcf15397daeecf386673d65154f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 10/50] fix: a batch that failed to apply is not committed

---
 batch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batch.go b/batch.go
index 15376cf..3f78517 100644
--- a/batch.go
+++ b/batch.go
@@ -121,13 +121,14 @@ func (b *_batch) Apply(batch Batch, opt WriteOptions) error {
 	if err != nil {
 		return err
 	}
-	defer innerBatch.notifyOnCommitted()
 
 	err = b.Batch.Apply(innerBatch.Batch, pebbleWriteOptions(opt))
 	if err != nil {
 		innerBatch.notifyOnError(err)
 		return err
 	}
+
+	innerBatch.notifyOnCommitted()
 	return nil
 }
 
-- 
2.43.0


From 00683650abc41c2f96cc67bfbb2fc049841465c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 11/50] fix: number sequence must not repeat ids when the clock
 goes back

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 33b980f..5b27d84 100644
--- a/helpers.go
+++ b/helpers.go
@@ -27,7 +27,7 @@ func (n *NumberSequence) Next() (uint64, error) {
 	defer n.mutex.Unlock()
 
 	nextId := uint64(time.Now().Unix() << NumberSequenceBitShift)
-	if n.lastId&NumberSequenceTimestampMask == nextId&NumberSequenceTimestampMask {
+	if n.lastId&NumberSequenceTimestampMask >= nextId&NumberSequenceTimestampMask {
 		if n.lastId&NumberSequenceSequenceNumberMask == NumberSequenceSequenceNumberMask {
 			return math.MaxUint64, fmt.Errorf("sequence number overflow")
 		}
-- 
2.43.0


From 80f3796fe61d3ba7f0b5ef5cb8bbe235d369d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 12/50] fix: closing an iterator that could not be opened
 reports the error

---
 iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iter.go b/iter.go
index d6ded27..f0958e8 100644
--- a/iter.go
+++ b/iter.go
@@ -248,7 +248,7 @@ func (e errIterator) Value() []byte {
 }
 
 func (e errIterator) Close() error {
-	return nil
+	return e.err
 }
 
 var _ Iterator = (*errIterator)(nil)
-- 
2.43.0


From c93c91ae80fadbbfb6cebfc0e3f9ee8261abce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 13/50] fix: multi iterators keep the error of a failed child
 and accept no ranges

---
 iter.go | 49 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/iter.go b/iter.go
index f0958e8..f993110 100644
--- a/iter.go
+++ b/iter.go
@@ -78,20 +78,37 @@ type _iteratorMulti struct {
 }
 
 func newIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
-	return &_iteratorMulti{
+	it := &_iteratorMulti{
 		iteratorOptions:      opts,
 		iteratorOptionsIndex: 0,
 		iteratorConstuctor:   itc,
-		iterator:             itc.Iter(childIteratorOptions(opts[0])),
+		iterator:             &errIterator{},
 	}
+	if len(opts) > 0 {
+		it.iterator = itc.Iter(childIteratorOptions(opts[0]))
+	}
+	return it
+}
+
+// moveTo replaces the current child iterator. It returns false and stays at the
+// error if the current child iterator has failed.
+func (it *_iteratorMulti) moveTo(index int) bool {
+	if err := it.iterator.Close(); err != nil {
+		it.iterator = &errIterator{err: err}
+		return false
+	}
+
+	it.iteratorOptionsIndex = index
+	it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[index]))
+	return true
 }
 
 func (it *_iteratorMulti) First() bool {
 	// find the valid iterator from the start of the list.
 	for i := 0; i < len(it.iteratorOptions); i++ {
-		_ = it.iterator.Close()
-		it.iteratorOptionsIndex = i
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
+		if !it.moveTo(i) {
+			return false
+		}
 		if it.iterator.First() {
 			return true
 		}
@@ -102,9 +119,9 @@ func (it *_iteratorMulti) First() bool {
 func (it *_iteratorMulti) Last() bool {
 	// find the valid iterator from the end of the list.
 	for i := len(it.iteratorOptions) - 1; i >= 0; i-- {
-		_ = it.iterator.Close()
-		it.iteratorOptionsIndex = i
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
+		if !it.moveTo(i) {
+			return false
+		}
 		if it.iterator.Last() {
 			return true
 		}
@@ -118,10 +135,9 @@ func (it *_iteratorMulti) Prev() bool {
 			return false
 		}
 
-		_ = it.iterator.Close()
-
-		it.iteratorOptionsIndex--
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
+		if !it.moveTo(it.iteratorOptionsIndex - 1) {
+			return false
+		}
 		if it.iterator.Last() {
 			break
 		}
@@ -131,14 +147,13 @@ func (it *_iteratorMulti) Prev() bool {
 
 func (it *_iteratorMulti) Next() bool {
 	for !it.iterator.Next() {
-		if it.iteratorOptionsIndex == len(it.iteratorOptions)-1 {
+		if it.iteratorOptionsIndex >= len(it.iteratorOptions)-1 {
 			return false
 		}
 
-		_ = it.iterator.Close()
-
-		it.iteratorOptionsIndex++
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
+		if !it.moveTo(it.iteratorOptionsIndex + 1) {
+			return false
+		}
 		if it.iterator.First() {
 			break
 		}
-- 
2.43.0


From 3e3039d31373f783ca0eb221425a75cebe8bad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 14/50] fix: Intersect reports iteration errors

---
 index.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index d7fc739..d5ca758 100644
--- a/index.go
+++ b/index.go
@@ -369,7 +369,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 
 		intersectKeysMap[utils.BytesToString(KeyBytes(it.Key()).ToDataKeyBytes([]byte{}))] = struct{}{}
 	}
-	_ = it.Close()
+	if err := it.Close(); err != nil {
+		return nil, err
+	}
 
 	for i, idx2 := range indexes {
 		it = idx2.Iter(table, sels[i], optBatch...)
@@ -386,7 +388,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 				tempKeysMap[key] = struct{}{}
 			}
 		}
-		_ = it.Close()
+		if err := it.Close(); err != nil {
+			return nil, err
+		}
 
 		intersectKeysMap = tempKeysMap
 		tempKeysMap = map[string]struct{}{}
-- 
2.43.0


From f602058fa5eed8c5c661c73d0bbf2c9a1c8815ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 15/50] fix: failed reads are not missing records

---
 table.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/table.go b/table.go
index 4ca736d..35447a5 100644
--- a/table.go
+++ b/table.go
@@ -3,6 +3,7 @@ package bond
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"reflect"
 	"sort"
@@ -407,7 +408,11 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			// check if exist
-			if t.keyDuplicate(i, keys) || t.exist(key, batch, iter) {
+			exist, err := t.exist(key, batch, iter)
+			if err != nil {
+				return err
+			}
+			if exist || t.keyDuplicate(i, keys) {
 				return fmt.Errorf("record: %x already exist", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -528,6 +533,9 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			if !iter.SeekGE(key) || !bytes.Equal(iter.Key(), key) {
+				if err := iter.Error(); err != nil {
+					return err
+				}
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -714,12 +722,15 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 				isUpdate bool
 				err      error
 			)
-			if t.exist(key, batch, iter) {
+			isUpdate, err = t.exist(key, batch, iter)
+			if err != nil {
+				return err
+			}
+			if isUpdate {
 				err := t.serializer.Deserialize(iter.Value(), &oldTr)
 				if err != nil {
 					return err
 				}
-				isUpdate = true
 			}
 
 			// handle upsert
@@ -813,9 +824,9 @@ func (t *_table[T]) Exist(tr T, optBatch ...Batch) bool {
 	return true
 }
 
-func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
+func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) (bool, error) {
 	if t.filter != nil && !t.filter.MayContain(context.Background(), key) {
-		return false
+		return false, nil
 	}
 
 	if iter == nil {
@@ -828,7 +839,10 @@ func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
 		defer iter.Close()
 	}
 
-	return iter.SeekGE(key) && bytes.Equal(iter.Key(), key)
+	if !iter.SeekGE(key) {
+		return false, iter.Error()
+	}
+	return bytes.Equal(iter.Key(), key), nil
 }
 
 func (t *_table[T]) GetPoint(ctx context.Context, in T, optBatch ...Batch) (T, error) {
@@ -867,8 +881,10 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 		}
 
 		record, closer, err := t.db.Get(key, batch)
-		if err != nil {
+		if errors.Is(err, pebble.ErrNotFound) {
 			return nil, ErrNotFound
+		} else if err != nil {
+			return nil, fmt.Errorf("get failed: %w", err)
 		}
 		defer closer.Close()
 
@@ -963,6 +979,9 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 		}
 
 		if !iter.SeekGE(keys[i]) || !bytes.Equal(iter.Key(), keys[i]) {
+			if err := iter.Error(); err != nil {
+				return nil, err
+			}
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-- 
2.43.0


From 7b0bf6550163bd0d3197b001c0297cd35f160022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 16/50] fix: index scans must not depend on how often the
 callback reads the row

---
 table.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/table.go b/table.go
index 35447a5..1a65246 100644
--- a/table.go
+++ b/table.go
@@ -1120,6 +1120,9 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 	defer t.db.getMultiKeyBufferPool().Put(multiKeyBuffer[:0])
 	defer t.db.putValueArray(valuesBuffer)
 
+	iterKey := t.db.getKeyBufferPool().Get()[:0]
+	defer func() { t.db.getKeyBufferPool().Put(iterKey[:0]) }()
+
 	var prefetchedValues [][]byte
 	var prefetchedValuesIndex int
 
@@ -1138,21 +1141,25 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 			return t.valueNil, fmt.Errorf("get failed to deserialize: %w", err)
 		}
 
-		prefetchedValuesIndex++
 		return rtr, nil
 	}
 
 	prefetchAndGetValue := func() (T, error) {
+		// already prefetched
+		if prefetchedValues != nil {
+			return getPrefetchedValue()
+		}
+
 		// prefetch the required data keys.
 		nextBuff := multiKeyBuffer
 		for it.Valid() {
-			iterKey := it.Key()
+			itKey := it.Key()
 
-			indexKey := append(nextBuff[:0], iterKey...)
+			indexKey := append(nextBuff[:0], itKey...)
 			indexKeys = append(indexKeys, indexKey)
 			nextBuff = indexKey[len(indexKey):]
 
-			key := KeyBytes(iterKey).ToDataKeyBytes(nextBuff[:0])
+			key := KeyBytes(itKey).ToDataKeyBytes(nextBuff[:0])
 			keys = append(keys, key)
 
 			nextBuff = key[len(key):]
@@ -1180,14 +1187,17 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		default:
 		}
 
-		cont, err := f(it.Key(), Lazy[T]{GetFunc: prefetchAndGetValue})
+		// prefetching moves the iterator, hence the copy of the key
+		iterKey = append(iterKey[:0], it.Key()...)
+
+		cont, err := f(iterKey, Lazy[T]{GetFunc: prefetchAndGetValue})
 		if !cont || err != nil {
 			_ = it.Close()
 			return err
 		}
 
 		// iterate from prefetched entire if exists.
-		for prefetchedValuesIndex < len(prefetchedValues) {
+		for prefetchedValuesIndex = 1; prefetchedValuesIndex < len(prefetchedValues); prefetchedValuesIndex++ {
 			cont, err = f(indexKeys[prefetchedValuesIndex], Lazy[T]{GetFunc: getPrefetchedValue})
 			if !cont || err != nil {
 				_ = it.Close()
-- 
2.43.0


From 94672e84cf82ae57665897fd2697e3eb2d8599e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 17/50] fix: ReIndex of index 255, and ReIndex reports failed
 reads

---
 table.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/table.go b/table.go
index 1a65246..c293d54 100644
--- a/table.go
+++ b/table.go
@@ -273,7 +273,7 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		idxsMap[idx.IndexID] = idx
 		err := t.db.DeleteRange(
 			[]byte{byte(t.id), byte(idx.IndexID)},
-			[]byte{byte(t.id), byte(idx.IndexID + 1)}, Sync)
+			[]byte{byte(t.id), byte(idx.IndexID), 0xFF, 0xFF, 0xFF, 0xFF}, Sync)
 		if err != nil {
 			return fmt.Errorf("failed to delete index: %w", err)
 		}
@@ -290,6 +290,11 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 			UpperBound: prefixSuccessor,
 		},
 	})
+	defer func() {
+		if iter != nil {
+			_ = iter.Close()
+		}
+	}()
 
 	batch := t.db.Batch(BatchTypeWriteOnly)
 	defer func() {
@@ -330,12 +335,16 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		}
 	}
 
-	err := batch.Commit(Sync)
+	err := iter.Close()
+	iter = nil
 	if err != nil {
-		return fmt.Errorf("failed to commit reindex batch: %w", err)
+		return fmt.Errorf("failed to iterate during reindexing: %w", err)
 	}
 
-	_ = iter.Close()
+	err = batch.Commit(Sync)
+	if err != nil {
+		return fmt.Errorf("failed to commit reindex batch: %w", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From e720fa6b03c049b65030215d2a08a7a9c07eb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 18/50] fix: TableAnyScanner passes the batch to ScanForEach
 and ScanIndexForEach

---
 table_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_utils.go b/table_utils.go
index 2f7cfa1..0571551 100644
--- a/table_utils.go
+++ b/table_utils.go
@@ -81,7 +81,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 		scanIndexForEach: func(ctx context.Context, i *Index[any], s Selector[any], f func(keyBytes KeyBytes, t Lazy[any]) (bool, error), reverse bool, optBatch ...Batch) error {
 			iAny := NewIndex[T](IndexOptions[T]{
@@ -110,7 +110,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 	}
 }
-- 
2.43.0


From a7dd7c478e2b17f781e921d16b9e205a03c6748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 19/50] fix: Dump leaked an iterator

---
 bond.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bond.go b/bond.go
index 7e49f6f..e1c8104 100644
--- a/bond.go
+++ b/bond.go
@@ -503,6 +503,7 @@ func (db *_db) getIndexIDS(tableID TableID) []IndexID {
 	indexIDS := []IndexID{}
 
 	itr := db.Iter(&IterOptions{})
+	defer itr.Close()
 	for {
 		if !itr.SeekGE(prefix) {
 			break
-- 
2.43.0


From c1fca52b0e908e2f9a6fd5c445308d5e4a88e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 20/50] fix: Dump waits for its writers and reports failed
 reads

---
 bond.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bond.go b/bond.go
index e1c8104..1920ccd 100644
--- a/bond.go
+++ b/bond.go
@@ -389,6 +389,7 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 	defer snapshot.Close()
 
 	grp := new(errgroup.Group)
+	defer func() { _ = grp.Wait() }()
 	// write all the table data to the sst file.
 	for _, tableID := range tables {
 		tablePath := filepath.Join(path, fmt.Sprintf("table_%d", tableID))
@@ -523,8 +524,12 @@ func (db *_db) getIndexIDS(tableID TableID) []IndexID {
 }
 
 // write all the key/value of iterator to the SST file.
-func iteratorToSST(itr Iterator, path string) error {
-	defer itr.Close()
+func iteratorToSST(itr Iterator, path string) (err error) {
+	defer func() {
+		if closeErr := itr.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 	// sst reader
 	currentFileID := 1
 	file, err := vfs.Default.Create(filepath.Join(path, fmt.Sprintf("%d.sst", currentFileID)))
-- 
2.43.0


From 50f360e08715f253c38f210831f4cb4d0b8d1626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 21/50] fix: Restore must only take the directories of the
 requested tables

---
 bond.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bond.go b/bond.go
index 1920ccd..7285521 100644
--- a/bond.go
+++ b/bond.go
@@ -465,6 +465,9 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 	// ingest the required sst file.
 	ssts := []string{}
 	err = filepath.Walk(path, func(path string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			return nil
 		}
@@ -473,8 +476,10 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 		}
 		// filter only relevant tables.
 		filter := true
+		dir := filepath.Base(filepath.Dir(path))
 		for _, table := range tables {
-			if strings.Contains(path, fmt.Sprintf("table_%d", table)) {
+			tableDir := fmt.Sprintf("table_%d", table)
+			if dir == tableDir || strings.HasPrefix(dir, tableDir+"_index_") {
 				filter = false
 				break
 			}
@@ -484,7 +489,7 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 			return nil
 		}
 
-		if !strings.Contains(path, "index") {
+		if !strings.Contains(dir, "index") {
 			ssts = append(ssts, path)
 			return nil
 		}
-- 
2.43.0


From a64981f28eb651f2be31145ed81501df771463b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 22/50] fix: a failed Open must not keep the database open

---
 bond.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bond.go b/bond.go
index 7285521..a0f701c 100644
--- a/bond.go
+++ b/bond.go
@@ -222,9 +222,11 @@ func Open(dirname string, opts *Options) (DB, error) {
 
 	if db.Version() == 0 {
 		if err := db.initVersion(); err != nil {
+			_ = pdb.Close()
 			return nil, err
 		}
 	} else if db.Version() != BOND_DB_DATA_VERSION {
+		_ = pdb.Close()
 		return nil, fmt.Errorf("bond db version is %d but expecting %d", db.Version(), BOND_DB_DATA_VERSION)
 	}
 
-- 
2.43.0


From 9f3659795a29703b6548cff63e0aad1074c979de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 23/50] fix: concurrent Adds to the bloom filter lost keys

---
 bloom/bloom_filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 9993299..844dced 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -77,8 +77,8 @@ func NewBloomFilter(n uint, fp float64, numOfBuckets int, keyPrefixes ...[]byte)
 }
 
 func (b *BloomFilter) Add(_ context.Context, key []byte) {
-	b.mutex.RLock()
-	defer b.mutex.RUnlock()
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 
 	bucket := b.buckets[b.hash(key)]
 	bucket.hasChanges = !bucket.filter.TestOrAdd(key) || bucket.hasChanges
-- 
2.43.0


From dcf8006308ce51a869f9f43c858c63d6654a4046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 24/50] fix: bloom filter Load leaked a value

---
 bloom/bloom_filter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 844dced..fa104d7 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -103,6 +103,7 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 		}
 		return fmt.Errorf("configuration changed")
 	}
+	_ = bucketNumCloser.Close()
 
 	for _, bucket := range b.buckets {
 		data, closer, err := store.Get(buildKey(keyBuff[:0], b.keyPrefix, bucket.num))
-- 
2.43.0


From 4b629ab0510a6d6ad9c75779bc0d1eee9db2acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 25/50] fix: bloom filter Save after Clear left out buckets

---
 bloom/bloom_filter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index fa104d7..4378a0a 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -188,6 +188,14 @@ func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
 }
 
 func (b *BloomFilter) Clear(_ context.Context, store bond.FilterStorer) error {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
+	// nothing is stored any longer, the next Save needs to write every bucket
+	for _, bucket := range b.buckets {
+		bucket.hasBeenWritten = false
+	}
+
 	end := make([]byte, len(b.keyPrefix))
 	copy(end, b.keyPrefix)
 	end[len(end)-1]++
-- 
2.43.0


From bdf069c671afaab717f70e42f0818a4b5ee09bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 26/50] fix: msgpack buffers return to the pool empty

---
 serializers/msgp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serializers/msgp.go b/serializers/msgp.go
index 0921dd7..980adb9 100644
--- a/serializers/msgp.go
+++ b/serializers/msgp.go
@@ -75,6 +75,7 @@ func (m *MsgpackSerializer) getBuffer() bytes.Buffer {
 
 func (m *MsgpackSerializer) freeBuffer(buffer bytes.Buffer) {
 	if m.Buffer != nil {
+		buffer.Reset()
 		m.Buffer.Put(buffer)
 	}
 }
-- 
2.43.0


From d79844a0365404d62b04e4018912d486e352b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 27/50] fix: UnsafeUpdate must not close the batch of the
 caller

---
 table_unsafe.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/table_unsafe.go b/table_unsafe.go
index e6ba916..9b37ca6 100644
--- a/table_unsafe.go
+++ b/table_unsafe.go
@@ -33,6 +33,7 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		batch = optBatch[0]
 	} else {
 		batch = t.db.Batch(BatchTypeWriteOnly)
+		defer batch.Close()
 	}
 
 	// key
@@ -78,7 +79,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		// update entry
 		err = batch.Set(key, data, Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 
@@ -94,7 +94,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 	if !externalBatch {
 		err := batch.Commit(Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 	}
-- 
2.43.0


From 17a9af1db6d012f6fa6bbf2bbb36430c36e336b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 28/50] fix: full scans and queries skipped rows below the
 empty primary key

---
 index.go    | 3 +++
 query.go    | 2 +-
 selector.go | 9 +++++++++
 table.go    | 4 ++--
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index d5ca758..04c4e09 100644
--- a/index.go
+++ b/index.go
@@ -189,6 +189,9 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 
 		lowerBound := encodeIndexKey(table, sel.Point(), idx, keyBufferPool.Get()[:0])
 		upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
+		if s, ok := sel.(*selectorPoint[T]); ok && s.fromStart {
+			lowerBound = lowerBound[0:_KeyPrefixSplitIndex(lowerBound)]
+		}
 
 		releaseBuffers := func() {
 			keyBufferPool.Put(lowerBound[:0])
diff --git a/query.go b/query.go
index 4ebdf88..0f2695f 100644
--- a/query.go
+++ b/query.go
@@ -44,7 +44,7 @@ func newQuery[T any](t *_table[T], i *Index[T]) Query[T] {
 	return Query[T]{
 		table:         t,
 		index:         i,
-		indexSelector: NewSelectorPoint[T](utils.MakeNew[T]()),
+		indexSelector: newSelectorAll(utils.MakeNew[T]()),
 		afterSelector: utils.MakeNew[T](),
 		filterFunc:    nil,
 		orderLessFunc: nil,
diff --git a/selector.go b/selector.go
index f05fe5c..4025e2d 100644
--- a/selector.go
+++ b/selector.go
@@ -51,6 +51,9 @@ type SelectorRanges[T any] interface {
 
 type selectorPoint[T any] struct {
 	point T
+
+	// fromStart selects all the rows instead of the rows from the point.
+	fromStart bool
 }
 
 // NewSelectorPoint creates a new point selector.
@@ -68,6 +71,12 @@ func (s *selectorPoint[T]) Point() T {
 
 func (s *selectorPoint[T]) SetPoint(p T) {
 	s.point = p
+	s.fromStart = false
+}
+
+// newSelectorAll selects all the rows of the primary index.
+func newSelectorAll[T any](empty T) Selector[T] {
+	return &selectorPoint[T]{point: empty, fromStart: true}
 }
 
 type selectorPoints[T any] struct {
diff --git a/table.go b/table.go
index c293d54..e109569 100644
--- a/table.go
+++ b/table.go
@@ -1024,7 +1024,7 @@ func (t *_table[T]) Query() Query[T] {
 }
 
 func (t *_table[T]) Scan(ctx context.Context, tr *[]T, reverse bool, optBatch ...Batch) error {
-	return t.ScanIndex(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), tr, reverse, optBatch...)
+	return t.ScanIndex(ctx, t.primaryIndex, newSelectorAll(t.valueEmpty), tr, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], tr *[]T, reverse bool, optBatch ...Batch) error {
@@ -1039,7 +1039,7 @@ func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], t
 }
 
 func (t *_table[T]) ScanForEach(ctx context.Context, f func(keyBytes KeyBytes, l Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-	return t.ScanIndexForEach(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), f, reverse, optBatch...)
+	return t.ScanIndexForEach(ctx, t.primaryIndex, newSelectorAll(t.valueEmpty), f, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndexForEach(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-- 
2.43.0


From d0d5511f720759481149895df55445d112cf579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 29/50] fix: intersect queries read the rows through the batch

---
 query.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 0f2695f..d03f5ad 100644
--- a/query.go
+++ b/query.go
@@ -297,6 +297,11 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		return nil, err
 	}
 
+	var batch Batch
+	if len(optBatch) > 0 {
+		batch = optBatch[0]
+	}
+
 	keys, err := q.index.Intersect(ctx, q.table, q.indexSelector, q.indexes(), q.selectors(), optBatch...)
 	if err != nil {
 		return nil, err
@@ -324,7 +329,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	}
 
 	// get data
-	values, err := q.table.get(keys, nil, make([][]byte, len(keys)), true)
+	values, err := q.table.get(keys, batch, make([][]byte, len(keys)), true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d4823758cb3c430a410e2abc6bced3b733cc1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 30/50] fix: intersect queries with After ignored offset and
 limit

---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index d03f5ad..bc11cc2 100644
--- a/query.go
+++ b/query.go
@@ -372,7 +372,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		}
 	}
 
-	if hasFilter || hasSort {
+	if hasFilter || hasSort || hasAfter {
 		// offset
 		if hasOffset && !offsetApplied {
 			if int(q.offset) >= len(records) {
-- 
2.43.0


From 6b9fa739185a379199f2245587ec163264355f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 31/50] fix: intersect queries ignored Reverse

---
 query.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/query.go b/query.go
index bc11cc2..13cd18f 100644
--- a/query.go
+++ b/query.go
@@ -307,6 +307,12 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		return nil, err
 	}
 
+	if q.reverse {
+		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
+			keys[i], keys[j] = keys[j], keys[i]
+		}
+	}
+
 	// apply offset & limit early
 	if !hasFilter && !hasSort && !hasAfter {
 		if hasOffset {
-- 
2.43.0


From 8d8d4fcc7990e381eee040c0cdaef0b17ec66d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 32/50] fix: large offsets and limits overflowed

---
 query.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/query.go b/query.go
index 13cd18f..34b6eb2 100644
--- a/query.go
+++ b/query.go
@@ -226,7 +226,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 		// check if we need to iterate further
 		if !hasSort && hasLimit {
 			limitApplied = true
-			next = count < q.offset+q.limit
+			next = count < q.offset || count-q.offset < q.limit
 		}
 
 		return next, nil
@@ -260,7 +260,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 
 	// offset
 	if hasOffset && !offsetApplied {
-		if int(q.offset) >= len(records) {
+		if q.offset >= uint64(len(records)) {
 			records = make([]T, 0)
 		} else {
 			records = records[q.offset:]
@@ -270,7 +270,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	// limit
 	if hasLimit && !limitApplied {
 		lastIndex := q.limit
-		if int(lastIndex) >= len(records) {
+		if lastIndex >= uint64(len(records)) {
 			lastIndex = uint64(len(records))
 		}
 		records = records[:lastIndex]
@@ -317,7 +317,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	if !hasFilter && !hasSort && !hasAfter {
 		if hasOffset {
 			offsetApplied = true
-			if int(q.offset) >= len(keys) {
+			if q.offset >= uint64(len(keys)) {
 				return make([]T, 0), nil
 			} else {
 				keys = keys[q.offset:]
@@ -327,7 +327,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		if hasLimit {
 			limitApplied = true
 			lastIndex := q.limit
-			if int(lastIndex) >= len(keys) {
+			if lastIndex >= uint64(len(keys)) {
 				lastIndex = uint64(len(keys))
 			}
 			keys = keys[:lastIndex]
@@ -381,7 +381,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	if hasFilter || hasSort || hasAfter {
 		// offset
 		if hasOffset && !offsetApplied {
-			if int(q.offset) >= len(records) {
+			if q.offset >= uint64(len(records)) {
 				records = make([]T, 0)
 			} else {
 				records = records[q.offset:]
@@ -391,7 +391,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		// limit
 		if hasLimit && !limitApplied {
 			lastIndex := q.limit
-			if int(lastIndex) >= len(records) {
+			if lastIndex >= uint64(len(records)) {
 				lastIndex = uint64(len(records))
 			}
 			records = records[:lastIndex]
-- 
2.43.0


From df356b71cd379ea1a02dfc90f7e4fcd1c138f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 33/50] fix: derived intersect queries must not share their sub
 queries

---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 34b6eb2..ca9537a 100644
--- a/query.go
+++ b/query.go
@@ -148,7 +148,7 @@ func (q Query[T]) Execute(ctx context.Context, r *[]T, optBatch ...Batch) error
 }
 
 func (q Query[T]) Intersects(queries ...Query[T]) Query[T] {
-	q.intersects = append(q.intersects, queries...)
+	q.intersects = append(q.intersects[:len(q.intersects):len(q.intersects)], queries...)
 	return q
 }
 
-- 
2.43.0


From 6d02d274d65670cd4765aeae5ce98ee1200cd731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 34/50] fix: After with Reverse, unsorted lists and primary
 points returned wrong rows

---
 index.go    |  3 ++
 query.go    | 97 +++++++++++++++++++++++++++++++++++++++--------------
 selector.go |  4 +++
 3 files changed, 79 insertions(+), 25 deletions(-)

diff --git a/index.go b/index.go
index 04c4e09..00603f2 100644
--- a/index.go
+++ b/index.go
@@ -236,6 +236,9 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 		low, up := sel.Range()
 
 		lowerBound := encodeIndexKey(table, low, idx, keyBufferPool.Get()[:0])
+		if s, ok := sel.(*selectorRange[T]); ok && s.fromStart {
+			lowerBound = lowerBound[0:_KeyPrefixSplitIndex(lowerBound)]
+		}
 		upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
 		upperBound = keySuccessor(upperBound, nil)
 
diff --git a/query.go b/query.go
index ca9537a..8053b81 100644
--- a/query.go
+++ b/query.go
@@ -188,11 +188,14 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 			keyBuffer := q.table.db.getKeyBufferPool().Get()
 			defer q.table.db.getKeyBufferPool().Put(keyBuffer)
 
-			rowIdxKey := key.ToKey()
-			selIdxKey := KeyBytes(encodeIndexKey[T](q.table, q.afterSelector, q.index, keyBuffer[:0])).ToKey()
-			if bytes.Compare(selIdxKey.Index, rowIdxKey.Index) == 0 &&
-				bytes.Compare(selIdxKey.IndexOrder, rowIdxKey.IndexOrder) == 0 &&
-				bytes.Compare(selIdxKey.PrimaryKey, rowIdxKey.PrimaryKey) == 0 {
+			selIdxKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, keyBuffer[:0])
+			if bytes.Equal(selIdxKey, key) {
+				return true, nil
+			}
+
+			// the reversed point of a list starts before the row
+			if q.reverse && q.indexSelector.Type() == SelectorTypePoints && bytes.Compare(key, selIdxKey) > 0 {
+				skippedFirstRow = false
 				return true, nil
 			}
 		}
@@ -439,42 +442,78 @@ func (q Query[T]) selectors() []Selector[T] {
 }
 
 func (q Query[T]) selectorWithAfter() (Selector[T], error) {
+	key := func(tr T) []byte {
+		return encodeIndexKey[T](q.table, tr, q.index, []byte{})
+	}
+	afterKey := key(q.afterSelector)
+
 	switch q.indexSelector.Type() {
 	case SelectorTypePoint:
-		return NewSelectorPoint(q.afterSelector), nil
+		if !q.reverse {
+			return NewSelectorPoint(q.afterSelector), nil
+		}
+
+		pntSelector := q.indexSelector.(SelectorPoint[T])
+		rngSelector := &selectorRange[T]{start: pntSelector.Point(), end: q.afterSelector}
+		if s, ok := pntSelector.(*selectorPoint[T]); ok {
+			rngSelector.fromStart = s.fromStart
+		}
+		return rngSelector, nil
 	case SelectorTypePoints:
-		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
+		points := q.indexSelector.(SelectorPoints[T]).Points()
+
+		// continue in the point that selects the row
+		for i, pnt := range points {
+			pntKey := key(pnt)
+			if q.index.IndexID == PrimaryIndexID && !bytes.Equal(afterKey, pntKey) {
+				continue
+			}
+
+			if bytes.Compare(afterKey, pntKey) >= 0 &&
+				bytes.Equal(afterKey[:_KeyPrefixSplitIndex(afterKey)], pntKey[:_KeyPrefixSplitIndex(pntKey)]) {
+				if q.reverse {
+					return NewSelectorPoints(points[:i+1]...), nil
+				}
+				return NewSelectorPoints(append([]T{q.afterSelector}, points[i+1:]...)...), nil
+			}
+		}
 
 		var newPoints []T
-		pntsSelector := q.indexSelector.(SelectorPoints[T])
-		for _, pnt := range pntsSelector.Points() {
-			pntKey := encodeIndexKey[T](q.table, pnt, q.index, []byte{})
-			if bytes.Compare(afterKey, pntKey) < 0 {
+		for _, pnt := range points {
+			if q.isPastAfter(key(pnt), afterKey) {
 				newPoints = append(newPoints, pnt)
-			} else if bytes.Compare(afterKey, pntKey) >= 0 &&
-				bytes.Compare(afterKey[:_KeyPrefixSplitIndex(afterKey)], pntKey[:_KeyPrefixSplitIndex(pntKey)]) == 0 {
-				newPoints = append(newPoints, q.afterSelector)
 			}
 		}
 		return NewSelectorPoints(newPoints...), nil
 	case SelectorTypeRange:
 		rngSelector := q.indexSelector.(SelectorRange[T])
 
-		_, upper := rngSelector.Range()
-		return NewSelectorRange(q.afterSelector, upper), nil
+		lower, upper := rngSelector.Range()
+		if q.reverse {
+			if bytes.Compare(afterKey, key(upper)) < 0 {
+				upper = q.afterSelector
+			}
+		} else if bytes.Compare(afterKey, key(lower)) > 0 {
+			lower = q.afterSelector
+		}
+		return NewSelectorRange(lower, upper), nil
 	case SelectorTypeRanges:
-		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
+		ranges := q.indexSelector.(SelectorRanges[T]).Ranges()
 
-		var newRanges [][]T
-		rngsSelector := q.indexSelector.(SelectorRanges[T])
-		for _, rng := range rngsSelector.Ranges() {
-			lowerKey := encodeIndexKey[T](q.table, rng[0], q.index, []byte{})
-			upperKey := encodeIndexKey[T](q.table, rng[1], q.index, []byte{})
+		// continue in the range that selects the row
+		for i, rng := range ranges {
+			if bytes.Compare(afterKey, key(rng[0])) >= 0 && bytes.Compare(afterKey, key(rng[1])) <= 0 {
+				if q.reverse {
+					return NewSelectorRanges(append(append([][]T{}, ranges[:i]...), []T{rng[0], q.afterSelector})...), nil
+				}
+				return NewSelectorRanges(append([][]T{{q.afterSelector, rng[1]}}, ranges[i+1:]...)...), nil
+			}
+		}
 
-			if bytes.Compare(afterKey, lowerKey) < 0 {
+		var newRanges [][]T
+		for _, rng := range ranges {
+			if q.isPastAfter(key(rng[0]), afterKey) {
 				newRanges = append(newRanges, rng)
-			} else if bytes.Compare(afterKey, lowerKey) >= 0 && bytes.Compare(afterKey, upperKey) <= 0 {
-				newRanges = append(newRanges, []T{q.afterSelector, rng[1]})
 			}
 		}
 		return NewSelectorRanges(newRanges...), nil
@@ -482,3 +521,11 @@ func (q Query[T]) selectorWithAfter() (Selector[T], error) {
 		return nil, fmt.Errorf("unsupported selector type")
 	}
 }
+
+// isPastAfter returns true if the key follows the after key in the order of the query.
+func (q Query[T]) isPastAfter(key, afterKey []byte) bool {
+	if q.reverse {
+		return bytes.Compare(key, afterKey) < 0
+	}
+	return bytes.Compare(key, afterKey) > 0
+}
diff --git a/selector.go b/selector.go
index 4025e2d..77f2f98 100644
--- a/selector.go
+++ b/selector.go
@@ -103,6 +103,9 @@ func (s *selectorPoints[T]) SetPoints(p ...T) {
 type selectorRange[T any] struct {
 	start T
 	end   T
+
+	// fromStart selects the rows from the start of the index instead.
+	fromStart bool
 }
 
 // NewSelectorRange creates a new range selector.
@@ -121,6 +124,7 @@ func (s *selectorRange[T]) Range() (T, T) {
 func (s *selectorRange[T]) SetRange(start, end T) {
 	s.start = start
 	s.end = end
+	s.fromStart = false
 }
 
 type selectorRanges[T any] struct {
-- 
2.43.0


From 54daeeb67ffe1002ec8de990a7b89bb6af3c3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 35/50] fix: clear a bloom filter whose key prefix ends in 0xFF

---
 bloom/bloom_filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 4378a0a..c573b9d 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -196,9 +196,10 @@ func (b *BloomFilter) Clear(_ context.Context, store bond.FilterStorer) error {
 		bucket.hasBeenWritten = false
 	}
 
-	end := make([]byte, len(b.keyPrefix))
+	// every key of the filter is the prefix followed by ASCII characters
+	end := make([]byte, len(b.keyPrefix)+1)
 	copy(end, b.keyPrefix)
-	end[len(end)-1]++
+	end[len(end)-1] = 0xFF
 	return store.DeleteRange(b.keyPrefix, end, bond.Sync)
 }
 
-- 
2.43.0


From 55983e07f48802a13b6a72d90344164a51dbbaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 36/50] fix: close what a failed load of the bloom filter
 opened

---
 bloom/bloom_filter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index c573b9d..3e1a258 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -114,17 +114,17 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 		filter := bloom.New(0, 0)
 		zr, err := zstd.NewReader(bytes.NewBuffer(data))
 		if err != nil {
+			_ = closer.Close()
 			return err
 		}
 
 		_, err = filter.ReadFrom(zr)
+		zr.Close()
+		_ = closer.Close()
 		if err != nil {
 			return err
 		}
 
-		zr.Close()
-		_ = closer.Close()
-
 		err = bucket.filter.Merge(filter)
 		if err != nil {
 			return fmt.Errorf("configuration changed: %w", err)
-- 
2.43.0


From f177b0f1168fd1a608b03ee1519cf172da83e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 37/50] fix: refuse to add an index with the id of the primary
 index

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index e109569..5228909 100644
--- a/table.go
+++ b/table.go
@@ -252,7 +252,7 @@ func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 	for _, idx := range idxs {
 		_, ok := t.secondaryIndexes[idx.IndexID]
 		_, repeated := newIndexes[idx.IndexID]
-		if ok || repeated {
+		if ok || repeated || idx.IndexID == PrimaryIndexID {
 			t.mutex.Unlock()
 			return fmt.Errorf("found duplicate IndexID %d", idx.IndexID)
 		}
-- 
2.43.0


From b4aa7d550e7971a63ae21ff9ee8eee7e1e7c3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 38/50] fix: dump the indexes the snapshot holds and report
 failed reads of them

---
 bond.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/bond.go b/bond.go
index a0f701c..71237de 100644
--- a/bond.go
+++ b/bond.go
@@ -417,7 +417,10 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 			continue
 		}
 		// write all the index data to sst file.
-		indexes := db.getIndexIDS(tableID)
+		indexes, err := readIndexIDS(snapshot, tableID)
+		if err != nil {
+			return err
+		}
 		for _, index := range indexes {
 			indexPath := filepath.Join(path, fmt.Sprintf("table_%d_index_%d", tableID, index))
 			if err := os.Mkdir(indexPath, 0755); err != nil {
@@ -507,11 +510,22 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 }
 
 func (db *_db) getIndexIDS(tableID TableID) []IndexID {
+	indexIDS, _ := readIndexIDS(db.pebble, tableID)
+	return indexIDS
+}
+
+func readIndexIDS(reader pebble.Reader, tableID TableID) (indexIDS []IndexID, err error) {
 	prefix := []byte{byte(tableID), 1}
-	indexIDS := []IndexID{}
 
-	itr := db.Iter(&IterOptions{})
-	defer itr.Close()
+	itr, err := reader.NewIter(&pebble.IterOptions{})
+	if err != nil {
+		return nil, err
+	}
+	defer func() {
+		if closeErr := itr.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 	for {
 		if !itr.SeekGE(prefix) {
 			break
@@ -527,7 +541,7 @@ func (db *_db) getIndexIDS(tableID TableID) []IndexID {
 		}
 		prefix[1] = indexID + 1
 	}
-	return indexIDS
+	return indexIDS, nil
 }
 
 // write all the key/value of iterator to the SST file.
-- 
2.43.0


From 779c6b8681b0ee78bb39bb610a83cc53b01b507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 39/50] fix: Open mistakes an unreadable data version for a
 missing one

---
 bond.go    | 11 ++++++++---
 version.go | 25 +++++++++++++++++++------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/bond.go b/bond.go
index 71237de..d870baa 100644
--- a/bond.go
+++ b/bond.go
@@ -220,14 +220,19 @@ func Open(dirname string, opts *Options) (DB, error) {
 		}, DefaultNumberOfPreAllocBytesArrays),
 	}
 
-	if db.Version() == 0 {
+	ver, err := db.readVersion()
+	if err != nil {
+		_ = pdb.Close()
+		return nil, err
+	}
+	if ver == 0 {
 		if err := db.initVersion(); err != nil {
 			_ = pdb.Close()
 			return nil, err
 		}
-	} else if db.Version() != BOND_DB_DATA_VERSION {
+	} else if ver != BOND_DB_DATA_VERSION {
 		_ = pdb.Close()
-		return nil, fmt.Errorf("bond db version is %d but expecting %d", db.Version(), BOND_DB_DATA_VERSION)
+		return nil, fmt.Errorf("bond db version is %d but expecting %d", ver, BOND_DB_DATA_VERSION)
 	}
 
 	return db, nil
diff --git a/version.go b/version.go
index f8f4db1..6a65a11 100644
--- a/version.go
+++ b/version.go
@@ -1,6 +1,7 @@
 package bond
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -13,20 +14,32 @@ const (
 )
 
 func (db *_db) Version() int {
-	value, closer, err := db.pebble.Get(bondDataVersionKey())
+	ver, err := db.readVersion()
 	if err != nil {
 		return 0
 	}
+	return ver
+}
+
+// readVersion returns the recorded data version, or 0 if there is none.
+func (db *_db) readVersion() (int, error) {
+	value, closer, err := db.pebble.Get(bondDataVersionKey())
+	if errors.Is(err, pebble.ErrNotFound) {
+		return 0, nil
+	}
+	if err != nil {
+		return 0, err
+	}
 	defer func() { _ = closer.Close() }()
 
-	ver, _ := strconv.ParseInt(string(value), 10, 32)
-	return int(ver)
+	ver, err := strconv.ParseInt(string(value), 10, 32)
+	if err != nil {
+		return 0, fmt.Errorf("bond db version: %w", err)
+	}
+	return int(ver), nil
 }
 
 func (db *_db) initVersion() error {
-	if db.Version() > 0 {
-		return nil
-	}
 	ver := fmt.Sprintf("%d", BOND_DB_DATA_VERSION)
 	return db.pebble.Set(bondDataVersionKey(), []byte(ver), pebble.Sync)
 }
-- 
2.43.0


From 255bb2c8013ac9d88a0ba9d247e3bf107f8d7715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 40/50] fix: index scan skips rows after a failed prefetch its
 callback ignored

---
 table.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/table.go b/table.go
index 5228909..dbc339c 100644
--- a/table.go
+++ b/table.go
@@ -1134,6 +1134,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 
 	var prefetchedValues [][]byte
 	var prefetchedValuesIndex int
+	var prefetchErr error
 
 	var prefetchCloser func()
 	defer func() {
@@ -1159,6 +1160,11 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 			return getPrefetchedValue()
 		}
 
+		// the iterator has moved, prefetching again would skip rows
+		if prefetchErr != nil {
+			return t.valueNil, prefetchErr
+		}
+
 		// prefetch the required data keys.
 		nextBuff := multiKeyBuffer
 		for it.Valid() {
@@ -1179,10 +1185,9 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 			break
 		}
 
-		var err error
-		prefetchedValues, err = t.get(keys, batch, valuesBuffer, true)
-		if err != nil {
-			return t.valueNil, err
+		prefetchedValues, prefetchErr = t.get(keys, batch, valuesBuffer, true)
+		if prefetchErr != nil {
+			return t.valueNil, prefetchErr
 		}
 
 		return getPrefetchedValue()
@@ -1205,6 +1210,12 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 			return err
 		}
 
+		// the callback may have ignored it
+		if prefetchErr != nil {
+			_ = it.Close()
+			return prefetchErr
+		}
+
 		// iterate from prefetched entire if exists.
 		for prefetchedValuesIndex = 1; prefetchedValuesIndex < len(prefetchedValues); prefetchedValuesIndex++ {
 			cont, err = f(indexKeys[prefetchedValuesIndex], Lazy[T]{GetFunc: getPrefetchedValue})
-- 
2.43.0


From 95389a4df15b593a319c0d92d34265c83784b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 41/50] fix: a panic in WithSync leaves the batch locked

---
 sync.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 0627966..b5b633d 100644
--- a/sync.go
+++ b/sync.go
@@ -19,7 +19,6 @@ func NewSyncBatch(batch Batch) *SyncBatch {
 
 func (s *SyncBatch) WithSync(f func(batch Batch) error) error {
 	s.mu.Lock()
-	err := f(s.batch)
-	s.mu.Unlock()
-	return err
+	defer s.mu.Unlock()
+	return f(s.batch)
 }
-- 
2.43.0


From d340a685dec0f9eef5813bde088a2ee8a3359096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 42/50] fix: end range scans exactly after the upper key

The upper bound of Range, Ranges and primary Points was the upper key with
its last byte incremented, so keys of variable length that extend the upper
key were taken for part of the range.
---
 index.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index 00603f2..89596e9 100644
--- a/index.go
+++ b/index.go
@@ -213,7 +213,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 			lowerBound := encodeIndexKey(table, point, idx, keyBufferPool.Get()[:0])
 			upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
 			if idx.IndexID == PrimaryIndexID {
-				upperBound = keySuccessor(lowerBound, upperBound[:0])
+				upperBound = append(append(upperBound[:0], lowerBound...), 0x00)
 			}
 
 			releaseBuffers := func() {
@@ -240,7 +240,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 			lowerBound = lowerBound[0:_KeyPrefixSplitIndex(lowerBound)]
 		}
 		upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
-		upperBound = keySuccessor(upperBound, nil)
+		upperBound = append(upperBound, 0x00)
 
 		releaseBuffers := func() {
 			keyBufferPool.Put(lowerBound[:0])
@@ -263,7 +263,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 
 			lowerBound := encodeIndexKey(table, low, idx, keyBufferPool.Get()[:0])
 			upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
-			upperBound = keySuccessor(upperBound, nil)
+			upperBound = append(upperBound, 0x00)
 
 			releaseBuffers := func() {
 				keyBufferPool.Put(lowerBound[:0])
-- 
2.43.0


From 53f8c1d14da74b78328fe9169cc4e626350b399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 43/50] fix: get of points takes rows stored as empty values
 for missing

---
 table.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/table.go b/table.go
index dbc339c..ef56099 100644
--- a/table.go
+++ b/table.go
@@ -924,7 +924,7 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 			}
 
 			for _, value := range values {
-				if len(value) == 0 {
+				if value == nil {
 					trs = append(trs, t.valueNil)
 					continue
 				}
@@ -977,12 +977,14 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 	}, batch)
 	defer iter.Close()
 
+	// stays nil for missing keys, as a stored value can be empty
+	found := make([][]byte, len(keys))
+
 	for i := 0; i < len(keys); i++ {
 		if t.filter != nil && !t.filter.MayContain(context.Background(), keys[i]) {
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-				values[i] = values[i][:0]
 				continue
 			}
 		}
@@ -994,7 +996,6 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-				values[i] = values[i][:0]
 				continue
 			}
 		}
@@ -1004,15 +1005,17 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 		value = append(value, iterValue...)
 
 		values[i] = value
-	}
 
-	// resize values
-	values = values[:len(keys)]
+		found[i] = value
+		if value == nil {
+			found[i] = []byte{}
+		}
+	}
 
 	// restore original order on values
-	t.reorderValues(values, originalOrder)
+	t.reorderValues(found, originalOrder)
 
-	return values, nil
+	return found, nil
 }
 
 func (t *_table[T]) Iter(sel Selector[T], optBatch ...Batch) Iterator {
-- 
2.43.0


From b9f10162b708cbdbd77b11103704ef4f381b6aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 44/50] fix: msgp buffers return to the pool empty

---
 serializers/msgp_gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serializers/msgp_gen.go b/serializers/msgp_gen.go
index a7cca1d..74eea43 100644
--- a/serializers/msgp_gen.go
+++ b/serializers/msgp_gen.go
@@ -88,6 +88,7 @@ func (m *MsgpackGenSerializer) getBuffer() bytes.Buffer {
 
 func (m *MsgpackGenSerializer) freeBuffer(buffer bytes.Buffer) {
 	if m.Buffer != nil {
+		buffer.Reset()
 		m.Buffer.Put(buffer)
 	}
 }
-- 
2.43.0


From 76c25751162fbe057d74dc550773c6384e9848e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 45/50] fix: file based filter store deletes only the given
 range

---
 filters/filter_fs_storer.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/filters/filter_fs_storer.go b/filters/filter_fs_storer.go
index ca8f547..06e6d70 100644
--- a/filters/filter_fs_storer.go
+++ b/filters/filter_fs_storer.go
@@ -1,7 +1,7 @@
 package filters
 
 import (
-	"bytes"
+	"errors"
 	"io"
 	"io/fs"
 	"os"
@@ -12,12 +12,17 @@ import (
 )
 
 type FilterFSStorer struct {
-	path          string
-	noASCIIRegexp *regexp.Regexp
+	path             string
+	noASCIIRegexp    *regexp.Regexp
+	noASCIIEndRegexp *regexp.Regexp
 }
 
 func NewFSFilterStorer(path string) *FilterFSStorer {
-	return &FilterFSStorer{path: path, noASCIIRegexp: regexp.MustCompile("[^A-Za-z0-9_.]")}
+	return &FilterFSStorer{
+		path:             path,
+		noASCIIRegexp:    regexp.MustCompile("[^A-Za-z0-9_.]"),
+		noASCIIEndRegexp: regexp.MustCompile("[^A-Za-z0-9_.\\x{80}-\\x{10FFFF}]"),
+	}
 }
 
 func (f *FilterFSStorer) Get(key []byte, batch ...bond.Batch) (data []byte, closer io.Closer, err error) {
@@ -41,11 +46,25 @@ func (f *FilterFSStorer) Set(key []byte, value []byte, opt bond.WriteOptions, ba
 }
 
 func (f *FilterFSStorer) DeleteRange(start []byte, end []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
-	startFile := []byte(f.prepareFilePath("", string(start)))
+	startFile := f.prepareFilePath("", string(start))
+	// bytes outside of ASCII are in no file name but order the end of the range
+	endFile := f.noASCIIEndRegexp.ReplaceAllLiteralString(string(end), "")
 
 	dirFS := os.DirFS(f.path)
 	err := fs.WalkDir(dirFS, ".", func(filePath string, d fs.DirEntry, err error) error {
-		if bytes.Compare([]byte(filePath), startFile) >= 0 {
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if d.IsDir() {
+			if filePath != "." {
+				return fs.SkipDir
+			}
+			return nil
+		}
+		if filePath >= startFile && filePath < endFile {
 			return os.Remove(path.Join(f.path, filePath))
 		}
 		return nil
-- 
2.43.0


From 88cb3d55567d1348bc8f2de9bd1221873ebd5607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 46/50] fix: loading a bloom filter with a damaged bucket
 number panics

---
 bloom/bloom_filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 3e1a258..62c5fc2 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -97,7 +97,7 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 	var keyBuff [1024]byte
 
 	bucketNum, bucketNumCloser, err := store.Get(buildBucketNumKey(keyBuff[:0], b.keyPrefix))
-	if err != nil || (err == nil && binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets)) {
+	if err != nil || len(bucketNum) != 8 || binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets) {
 		if err == nil {
 			_ = bucketNumCloser.Close()
 		}
-- 
2.43.0


From 5d027ad1576e4a96c08e07c0835f8175924ed734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 47/50] fix: inspecting an index of a table of plain structs
 panics

---
 inspect/inspect.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 65db218..6ca1fe4 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -91,7 +91,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 
 	if indexInfo.Name() != bond.PrimaryIndexName {
 		indexValue := reflect.ValueOf(indexInfo)
-		indexSelectorValue := utils.MakeValue(tableInfo.EntryType())
+		indexSelectorValue := makeEntry(tableInfo.EntryType())
 		err = setFields(indexSelectorValue, indexSelector)
 		if err != nil {
 			return nil, err
@@ -144,7 +144,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 	}
 
 	if after != nil {
-		afterValue := utils.MakeValue(tableInfo.EntryType())
+		afterValue := makeEntry(tableInfo.EntryType())
 		err = setFields(afterValue, after)
 		if err != nil {
 			return nil, err
@@ -205,6 +205,15 @@ func (in *inspect) findTableAndIndexInfo(table string, index string) (bond.Table
 	return tableInfo, indexInfo, nil
 }
 
+// makeEntry returns an empty settable entry of the given type.
+func makeEntry(typ reflect.Type) reflect.Value {
+	entry := utils.MakeValue(typ)
+	if typ.Kind() != reflect.Ptr {
+		entry = entry.Elem()
+	}
+	return entry
+}
+
 func setFields(val reflect.Value, toSet map[string]interface{}) error {
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
-- 
2.43.0


From 313b65e0124efc2f9e5f4059223aa86680e780e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 48/50] fix: inspecting with null values or values of named
 types panics

---
 inspect/inspect.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 6ca1fe4..6972f31 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -113,7 +113,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 				fv := reflect.ValueOf(filterInterface)
 				if rowInterface, ok := row[filterField]; ok {
 					rv := reflect.ValueOf(rowInterface)
-					if fv.Kind() != rv.Kind() {
+					if fv.IsValid() && rv.IsValid() && fv.Type() != rv.Type() {
 						if fv.CanConvert(rv.Type()) {
 							filterInterface = fv.Convert(rv.Type()).Interface()
 						} else {
@@ -225,7 +225,11 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 			vt := reflect.ValueOf(valueToSetInterface)
 			vv := val.FieldByName(fieldNameToSet)
 
-			if vt.Kind() != vv.Kind() {
+			if !vt.IsValid() || !vv.IsValid() {
+				return fmt.Errorf("field '%s' can not be set", fieldNameToSet)
+			}
+
+			if vt.Type() != vv.Type() {
 				if vt.CanConvert(vv.Type()) {
 					vt = vt.Convert(vv.Type())
 				} else {
-- 
2.43.0


From 35720f5fb3d2027182db095da8bca54f8760c3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:30 +0000
Subject: [PATCH 49/50] fix: honour the context of a query of the inspection
 client

---
 inspect/inspect_handler_client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inspect/inspect_handler_client.go b/inspect/inspect_handler_client.go
index fb5db8c..3dc603b 100644
--- a/inspect/inspect_handler_client.go
+++ b/inspect/inspect_handler_client.go
@@ -150,6 +150,7 @@ func (i *inspectClient) Query(ctx context.Context, table string, index string, i
 	}
 
 	resp, err := i.client.R().
+		SetContext(ctx).
 		SetHeaders(i.headers).
 		SetBody(rqData).
 		Post(i.queryURL)
-- 
2.43.0


From 3f7714cc5d6a202ed7cf1de4c4383d87efdac7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 50/50] fix: refuse table ids out of range on the command line

dump and restore truncated the given ids to a byte and worked on another
table than the one asked for.
---
 cmd/bond-cli/dump.go    | 23 +++++++++++++++++++----
 cmd/bond-cli/restore.go |  8 ++++----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/cmd/bond-cli/dump.go b/cmd/bond-cli/dump.go
index 03c27f2..168115a 100644
--- a/cmd/bond-cli/dump.go
+++ b/cmd/bond-cli/dump.go
@@ -1,6 +1,9 @@
 package main
 
 import (
+	"fmt"
+	"math"
+
 	"github.com/go-bond/bond"
 	"github.com/urfave/cli/v2"
 )
@@ -42,15 +45,27 @@ func init() {
 			_FlagExportTables,
 		},
 		Action: func(ctx *cli.Context) error {
-			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			tables, err := tableIDs(ctx.IntSlice("tables"))
 			if err != nil {
 				return err
 			}
-			var tables []bond.TableID
-			for _, id := range ctx.IntSlice("tables") {
-				tables = append(tables, bond.TableID(id))
+			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			if err != nil {
+				return err
 			}
 			return db.Dump(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
 		},
 	}
 }
+
+// tableIDs are the tables named on the command line.
+func tableIDs(ids []int) ([]bond.TableID, error) {
+	var tables []bond.TableID
+	for _, id := range ids {
+		if id < 0 || id > math.MaxUint8 {
+			return nil, fmt.Errorf("invalid table id: %d", id)
+		}
+		tables = append(tables, bond.TableID(id))
+	}
+	return tables, nil
+}
diff --git a/cmd/bond-cli/restore.go b/cmd/bond-cli/restore.go
index 77283b9..fe70049 100644
--- a/cmd/bond-cli/restore.go
+++ b/cmd/bond-cli/restore.go
@@ -18,13 +18,13 @@ func init() {
 			_FlagExportTables,
 		},
 		Action: func(ctx *cli.Context) error {
-			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			tables, err := tableIDs(ctx.IntSlice("tables"))
 			if err != nil {
 				return err
 			}
-			var tables []bond.TableID
-			for _, id := range ctx.IntSlice("tables") {
-				tables = append(tables, bond.TableID(id))
+			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			if err != nil {
+				return err
 			}
 			return db.Restore(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
 		},
-- 
2.43.0

