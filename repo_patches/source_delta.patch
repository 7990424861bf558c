From 1f1a95feee133779ba3ff9ffaf424c1bec4b7368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 01/24] fix: MultiGet panicked on any non-empty key list

---
 store/multiget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/multiget.go b/store/multiget.go
index 635bcd4..b2ad0a3 100644
--- a/store/multiget.go
+++ b/store/multiget.go
@@ -18,7 +18,7 @@ package store
 // KVReader, and might be used by KVStore implementations that don't
 // have a native multi-get facility.
 func MultiGet(kvreader KVReader, keys [][]byte) ([][]byte, error) {
-	vals := make([][]byte, 0, len(keys))
+	vals := make([][]byte, len(keys))
 
 	for i, key := range keys {
 		val, err := kvreader.Get(key)
-- 
2.43.0


From 62669f0dbd41dbebf5e80daa889ccaa1277bc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:26 +0000
Subject: [PATCH 02/24] fix: batches retained the caller's buffers passed to
 Merge

---
 store/batch.go           | 2 +-
 store/goleveldb/batch.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/store/batch.go b/store/batch.go
index 7110526..9b1fc4c 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -50,7 +50,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 	copy(ck, key)
 	cv := make([]byte, len(val))
 	copy(cv, val)
-	b.Merger.Merge(key, val)
+	b.Merger.Merge(ck, cv)
 }
 
 func (b *EmulatedBatch) Reset() {
diff --git a/store/goleveldb/batch.go b/store/goleveldb/batch.go
index b2221cb..f28ec4f 100644
--- a/store/goleveldb/batch.go
+++ b/store/goleveldb/batch.go
@@ -34,7 +34,11 @@ func (b *Batch) Delete(key []byte) {
 }
 
 func (b *Batch) Merge(key, val []byte) {
-	b.merge.Merge(key, val)
+	ck := make([]byte, len(key))
+	copy(ck, key)
+	cv := make([]byte, len(val))
+	copy(cv, val)
+	b.merge.Merge(ck, cv)
 }
 
 func (b *Batch) Reset() {
-- 
2.43.0


From c9e1951263e7498457ee4d36fa107ea806144b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:26 +0000
Subject: [PATCH 03/24] fix: EmulatedBatch.Reset kept the pending merges

---
 store/batch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/batch.go b/store/batch.go
index 9b1fc4c..f9f66a7 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -55,6 +55,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 
 func (b *EmulatedBatch) Reset() {
 	b.Ops = b.Ops[:0]
+	b.Merger = NewEmulatedMerge(b.Merger.mo)
 }
 
 func (b *EmulatedBatch) Close() error {
-- 
2.43.0


From b47339b0309bbeca6cadbac52abdeedcda7107ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 04/24] fix: gtreap ExecuteBatch left a partial batch and a
 locked mutex when a merge failed

---
 store/gtreap/writer.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/store/gtreap/writer.go b/store/gtreap/writer.go
index 022fec5..488efae 100644
--- a/store/gtreap/writer.go
+++ b/store/gtreap/writer.go
@@ -44,28 +44,31 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 	}
 
 	w.s.m.Lock()
+	defer w.s.m.Unlock()
+
+	t := w.s.t
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		var existingVal []byte
-		existingItem := w.s.t.Get(&Item{k: kb})
+		existingItem := t.Get(&Item{k: kb})
 		if existingItem != nil {
-			existingVal = w.s.t.Get(&Item{k: kb}).(*Item).v
+			existingVal = existingItem.(*Item).v
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
 			return fmt.Errorf("merge operator returned failure")
 		}
-		w.s.t = w.s.t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
+		t = t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
 	}
 
 	for _, op := range emulatedBatch.Ops {
 		if op.V != nil {
-			w.s.t = w.s.t.Upsert(&Item{k: op.K, v: op.V}, rand.Int())
+			t = t.Upsert(&Item{k: op.K, v: op.V}, rand.Int())
 		} else {
-			w.s.t = w.s.t.Delete(&Item{k: op.K})
+			t = t.Delete(&Item{k: op.K})
 		}
 	}
-	w.s.m.Unlock()
+	w.s.t = t
 
 	return nil
 }
-- 
2.43.0


From c7d7f111a8b0ba722da42ebbfe93dfcd5bca2583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 05/24] fix: badger ExecuteBatch committed partial batches and
 ignored commit errors

---
 store/badger/writer.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index 8a36173..23f31b7 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/akhenakh/oureadb/store"
+	"github.com/dgraph-io/badger"
 )
 
 // Writer bleve.search/store/Writer implementation
@@ -31,16 +32,18 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 
 	txn := w.s.db.NewTransaction(true)
 
-	defer (func() {
-		txn.Commit()
-	})()
+	// a batch which can't be fully applied must not be committed
+	defer txn.Discard()
 
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		item, err := txn.Get(kb)
-		existingVal := []byte{}
+		var existingVal []byte
 		if err == nil {
-			existingVal, _ = item.ValueCopy(nil)
+			existingVal, err = item.ValueCopy(nil)
+		}
+		if err != nil && err != badger.ErrKeyNotFound {
+			return err
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
@@ -66,7 +69,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 		}
 	}
 
-	return nil
+	return txn.Commit()
 }
 
 // Close closes the current writer
-- 
2.43.0


From a2b76980b4ad7d87ce76e3ff0b2701e0ae5d2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:42 +0000
Subject: [PATCH 06/24] fix: badger Reader.Get reported every read error as a
 missing key

---
 store/badger/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/badger/reader.go b/store/badger/reader.go
index e90fd76..3a3fbf7 100644
--- a/store/badger/reader.go
+++ b/store/badger/reader.go
@@ -15,9 +15,12 @@ type Reader struct {
 // Get fetch the value of the specified key from the store
 func (r *Reader) Get(k []byte) ([]byte, error) {
 	item, err := r.txn.Get(k)
-	if err != nil {
+	if err == badger.ErrKeyNotFound || err == badger.ErrEmptyKey {
 		return nil, nil
 	}
+	if err != nil {
+		return nil, err
+	}
 	return item.ValueCopy(nil)
 }
 
-- 
2.43.0


From a0caa5f14bbe45fcdbc6c0f320ad9bcbdb1cd0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:42 +0000
Subject: [PATCH 07/24] fix: goleveldb Reader ignored the snapshot error

---
 store/goleveldb/store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index f971b97..9ad2dfe 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -77,7 +77,10 @@ func (ldbs *Store) Close() error {
 }
 
 func (ldbs *Store) Reader() (store.KVReader, error) {
-	snapshot, _ := ldbs.db.GetSnapshot()
+	snapshot, err := ldbs.db.GetSnapshot()
+	if err != nil {
+		return nil, err
+	}
 	return &Reader{
 		store:    ldbs,
 		snapshot: snapshot,
-- 
2.43.0


From 022891fcfe8f4d7aadf8770b3b717956eb9eebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 08/24] fix: badger returned nil for present keys with an empty
 value

---
 store/badger/reader.go | 2 +-
 store/badger/writer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/store/badger/reader.go b/store/badger/reader.go
index 3a3fbf7..f00b089 100644
--- a/store/badger/reader.go
+++ b/store/badger/reader.go
@@ -21,7 +21,7 @@ func (r *Reader) Get(k []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return item.ValueCopy(nil)
+	return item.ValueCopy([]byte{})
 }
 
 // MultiGet returns multiple values for the specified keys
diff --git a/store/badger/writer.go b/store/badger/writer.go
index 23f31b7..6d9a898 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -40,7 +40,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 		item, err := txn.Get(kb)
 		var existingVal []byte
 		if err == nil {
-			existingVal, err = item.ValueCopy(nil)
+			existingVal, err = item.ValueCopy([]byte{})
 		}
 		if err != nil && err != badger.ErrKeyNotFound {
 			return err
-- 
2.43.0


From 42b1c5c7f5ee53d6b81716068670a1b901d6aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 09/24] fix: returned geo ids aliased the iterator's key buffer

---
 index/s2idx.go      | 3 ++-
 index/s2pointidx.go | 3 ++-
 index/s2timeidx.go  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 5ccc696..78583bd 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -155,6 +155,7 @@ func (idx *S2FlatIdx) keyToValues(k []byte) (c s2.CellID, id GeoID, err error) {
 		return c, id, errors.Wrap(err, "read back cell key failed")
 	}
 
-	id = k[len(idx.prefix)+8:]
+	// k is only valid until the iterator moves
+	id = append(GeoID(nil), k[len(idx.prefix)+8:]...)
 	return
 }
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 6ebac0b..440cdfd 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -254,6 +254,7 @@ func (idx *S2PointIdx) keyToValues(k []byte) (c s2.CellID, id GeoID, err error)
 		return c, id, errors.Wrap(err, "read back cell key failed")
 	}
 
-	id = k[len(idx.prefix)+8:]
+	// k is only valid until the iterator moves
+	id = append(GeoID(nil), k[len(idx.prefix)+8:]...)
 	return
 }
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 512b1b3..0d59e79 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -189,6 +189,7 @@ func (idx *S2FlatTimeIdx) keyToValues(k []byte) (c s2.CellID, t time.Time, id Ge
 	// reverse ts back to ts
 	t = time.Unix(0, math.MaxInt64-ts)
 
-	id = k[len(idx.prefix)+8+8:]
+	// k is only valid until the iterator moves
+	id = append(GeoID(nil), k[len(idx.prefix)+8+8:]...)
 	return
 }
-- 
2.43.0


From 436ef1d29e179089d6d2e0f27fb2683f6c83b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 10/24] fix: queries panicked when the store could not open a
 reader

---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 78583bd..702774d 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -79,10 +79,10 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.PrefixIterator(k)
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 440cdfd..2b7a2ed 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -148,10 +148,10 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 	cu := coverer.Covering(cap)
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	var res []GeoID
 
@@ -202,10 +202,10 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// we range over cover to lookup for points (cell l30) and filter them in place
 	for _, coverCell := range cu {
-- 
2.43.0


From 4af668bb4d46e58537a0b6c7afd648b548fcb37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 11/24] fix: queries leaked readers and iterators

---
 index/s2pointidx.go | 3 +++
 index/s2timeidx.go  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 2b7a2ed..23a4bb6 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -95,6 +95,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(start, stop)
@@ -177,6 +178,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
@@ -227,6 +229,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 0d59e79..3d9d941 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -128,9 +128,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(startKey, stopKey)
+	defer iter.Close()
 	for {
 		kid, _, ok := iter.Current()
 		if !ok {
-- 
2.43.0


From f328c0b8c45f567b48b4f8ab732b889417167052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 12/24] fix: point queries missed the last leaf of each cell

---
 index/s2pointidx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 23a4bb6..40b8d26 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -87,7 +87,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	start = append(start, itob(uint64(c.RangeMin()))...)
 	stop := make([]byte, len(idx.prefix))
 	copy(stop, idx.prefix)
-	stop = append(stop, itob(uint64(c.RangeMax()))...)
+	stop = append(stop, itob(uint64(c.RangeMax())+1)...)
 
 	var res []GeoID
 
@@ -163,7 +163,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
@@ -216,7 +216,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
-- 
2.43.0


From d2ff526880f503c1fcf66f241fbbc2415c3823ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 13/24] fix: GeoTimeIndex silently ignored objects with an
 empty cover

---
 index/s2timeidx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 3d9d941..7bb548e 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -44,6 +44,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoI
 		return errors.Wrap(err, "generating cover failed")
 	}
 
+	// no cover for this geo object this is probably an error
+	if len(cu) == 0 {
+		return errors.New("geo object can't be indexed, empty cover")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return err
-- 
2.43.0


From 9972a6b7d3f7b3dfc24cc1ee183909d9820a3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 14/24] fix: indexing an empty id made the whole cell
 unreadable

---
 index/s2idx.go      | 5 +++++
 index/s2pointidx.go | 5 +++++
 index/s2timeidx.go  | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index 702774d..e545a11 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -34,6 +34,11 @@ func NewS2FlatIdx(s store.KVStore, prefix []byte, level int) *S2FlatIdx {
 // it's not storing GeoData itself but only the geo index of the cover
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
+	// the empty id can't be read back from a key
+	if len(id) == 0 {
+		return errors.New("can't index an empty id")
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 40b8d26..e690e69 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -30,6 +30,11 @@ func NewS2PointIdx(s store.KVStore, prefix []byte) *S2PointIdx {
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
+	// the empty id can't be read back from a key
+	if len(id) == 0 {
+		return nil, errors.New("can't index an empty id")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return nil, err
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 7bb548e..e2af4f8 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -39,6 +39,11 @@ func NewS2FlatTimeIdx(s store.KVStore, prefix []byte, level int) *S2FlatTimeIdx
 // could be a user position or an effect zone
 // t is the time when the event end (can be in the future)
 func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoID) error {
+	// the empty id can't be read back from a key
+	if len(id) == 0 {
+		return errors.New("can't index an empty id")
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
-- 
2.43.0


From 94df6f3a2efee3629cf49c81eb36bfdd787299c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:42 +0000
Subject: [PATCH 15/24] fix: line covers ignored the coverer's minimum level

---
 index/geodata/tools.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 3af1031..0913874 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -174,9 +174,9 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 
 		var cupl s2.CellUnion
 		if interior {
-			cupl = coverer.InteriorCellUnion(&pl)
+			cupl = coverer.InteriorCovering(&pl)
 		} else {
-			cupl = coverer.CellUnion(&pl)
+			cupl = coverer.Covering(&pl)
 		}
 		cu = append(cu, cupl...)
 
-- 
2.43.0


From 6c0bd165ba61b8b24aabd969cca78fbdfbb43433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 16/24] fix: concave polygons were covered inside out and their
 coordinates scrambled

---
 index/geodata/tools.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 0913874..77b27ce 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -217,14 +217,8 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 		return nil, errors.New("invalid polygons")
 	}
 
-	// super hacky try reverse if ContainsOrigin
-	if l.ContainsOrigin() {
-		// reversing the slice
-		for i := len(c)/2 - 1; i >= 0; i-- {
-			opp := len(c) - 1 - i
-			c[i], c[opp] = c[opp], c[i]
-		}
-	}
+	// the first three vertices don't tell the orientation of a concave polygon
+	l.Normalize()
 
 	if interior {
 		return coverer.InteriorCovering(l), nil
-- 
2.43.0


From 6152039237c014214c763b81d2f842eea49d8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 17/24] fix: malformed points and polygons panicked instead of
 returning an error

---
 index/geodata/tools.go |  6 +++++-
 index/s2pointidx.go    | 10 ++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 77b27ce..fed271c 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -107,7 +107,7 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 	case Geometry_POLYGON:
 		l := LoopFromCoordinates(gd.Geometry.Coordinates)
-		if l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
+		if l == nil || l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
 			return s2.Rect{}, errors.New("invalid polygon")
 		}
 		return l.RectBound(), nil
@@ -141,6 +141,10 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 	var cu s2.CellUnion
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
+		if len(gd.Geometry.Coordinates) < 2 {
+			return nil, errors.New("invalid coordinates count for point")
+		}
+
 		c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0]))
 		cu = append(cu, c.Parent(coverer.MinLevel))
 
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index e690e69..af33a5d 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -66,9 +66,12 @@ func (idx *S2PointIdx) PointKey(lat, lng float64, id GeoID) []byte {
 
 // GeoPointKey is returning the key generated for a geopoint + id
 func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error) {
-	if gd.Geometry.Type != geodata.Geometry_POINT {
+	if gd.Geometry == nil || gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
+	if len(gd.Geometry.Coordinates) < 2 {
+		return nil, errors.New("invalid coordinates count for point")
+	}
 
 	return idx.PointKey(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0], id), nil
 }
@@ -77,9 +80,12 @@ func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) GeoPointIndex(gd *geodata.GeoData, id GeoID) ([]byte, error) {
-	if gd.Geometry.Type != geodata.Geometry_POINT {
+	if gd.Geometry == nil || gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
+	if len(gd.Geometry.Coordinates) < 2 {
+		return nil, errors.New("invalid coordinates count for point")
+	}
 
 	return idx.PointIndex(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0], id)
 }
-- 
2.43.0


From 6e0c7016bef82840271be976b4804979d5e284c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 18/24] fix: point covers returned invalid cells for out of
 range levels

---
 index/geodata/tools.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index fed271c..0f6b041 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -146,7 +146,15 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 		}
 
 		c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0]))
-		cu = append(cu, c.Parent(coverer.MinLevel))
+		// same bounds as the coverer applies to the other geometries
+		level := coverer.MinLevel
+		if level < 0 {
+			level = 0
+		}
+		if level > 30 {
+			level = 30
+		}
+		cu = append(cu, c.Parent(level))
 
 	case Geometry_POLYGON:
 		cup, err := coverPolygon(gd.Geometry.Coordinates, coverer, interior)
-- 
2.43.0


From f64985e5ea08c46dc772b5b8a6fa8715e274f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 19/24] fix: GeomToGeoData mixed altitudes and inner rings with
 the outer ring positions

---
 index/geodata/tools.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 0f6b041..ae8da17 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -16,7 +16,7 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 
 	switch g := g.(type) {
 	case *geom.Point:
-		geo.Coordinates = g.Coords()
+		geo.Coordinates = flatXY(g.FlatCoords(), g.Stride())
 		geo.Type = Geometry_POINT
 		//case *geom.MultiPolygon:
 		//	geo.Type = geodata.Geometry_MULTIPOLYGON
@@ -24,11 +24,13 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	case *geom.Polygon:
 		// only supports outer ring
 		geo.Type = Geometry_POLYGON
-		geo.Coordinates = g.FlatCoords()
+		if g.NumLinearRings() > 0 {
+			geo.Coordinates = flatXY(g.LinearRing(0).FlatCoords(), g.Stride())
+		}
 
 	case *geom.LineString:
 		geo.Type = Geometry_LINESTRING
-		geo.Coordinates = g.FlatCoords()
+		geo.Coordinates = flatXY(g.FlatCoords(), g.Stride())
 
 	default:
 		return errors.Errorf("unsupported geo type %T", g)
@@ -38,6 +40,15 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	return nil
 }
 
+// flatXY returns the x and y of each coordinate, dropping any extra dimension
+func flatXY(flat []float64, stride int) []float64 {
+	res := make([]float64, 0, len(flat))
+	for i := 0; i+1 < len(flat); i += stride {
+		res = append(res, flat[i], flat[i+1])
+	}
+	return res
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 	switch gd.Geometry.Type {
-- 
2.43.0


From 1abd7bd32114381518a02bd97efe8bdc54ca528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 20/24] fix: ParseCellID returned an invalid cell for paths
 deeper than a leaf

---
 s2tools/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2tools/parse.go b/s2tools/parse.go
index d3c14a5..0094742 100644
--- a/s2tools/parse.go
+++ b/s2tools/parse.go
@@ -17,7 +17,7 @@ func ParseCellID(cs string) *s2.CellID {
 		c := s2.CellIDFromFace(face)
 		for _, b := range cs[2:] {
 			child, err := strconv.Atoi(string(b))
-			if err != nil || child < 0 || child > 3 {
+			if err != nil || child < 0 || child > 3 || c.IsLeaf() {
 				return nil
 			}
 
-- 
2.43.0


From 97ffa7efe4b09128d8380d21106a938d234f37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 21/24] fix: GeoJSONToCellHandler panicked on a null feature

---
 s2tools/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index fb033e8..82350f4 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -82,6 +82,10 @@ func GeoJSONToCellHandler(w http.ResponseWriter, r *http.Request) {
 	}
 
 	f := fc.Features[0]
+	if f == nil {
+		http.Error(w, "null feature", 400)
+		return
+	}
 	err = geodata.GeoJSONFeatureToGeoData(f, gd)
 	if err != nil {
 		http.Error(w, err.Error(), 400)
-- 
2.43.0


From 8fca34adff630e5608c5e076598cace8768960ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 22/24] fix: S2CellQueryHandler rendered made up polygons for
 missing or invalid tokens

---
 s2tools/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index 82350f4..25de4ac 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -28,6 +28,10 @@ func S2CellQueryHandler(w http.ResponseWriter, r *http.Request) {
 
 	for i, cs := range cells {
 		c := s2.CellIDFromToken(cs)
+		if !c.IsValid() {
+			http.Error(w, "invalid parameters", 400)
+			return
+		}
 		cu[i] = c
 	}
 
-- 
2.43.0


From 2a3fc948c4930c90d98bdac2910d3d584c870dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 23/24] fix: goleveldb merges saw an empty value for a deleted
 key

---
 store/goleveldb/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index 701f86b..117e86e 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -51,6 +51,10 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		if err != nil && err != leveldb.ErrNotFound {
 			return err
 		}
+		if err == leveldb.ErrNotFound {
+			// the engine gives an empty value for a deleted key
+			existingVal = nil
+		}
 		mergedVal, fullMergeOk := w.store.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
 			return fmt.Errorf("merge operator returned failure")
-- 
2.43.0


From 5cd9a380f088b068b36cf051f4f22c81e9aa74a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:25 +0000
Subject: [PATCH 24/24] fix: a multipolygon with a nil polygon panicked when
 covered

---
 index/geodata/tools.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index ae8da17..b3e33b0 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -176,6 +176,9 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 
 	case Geometry_MULTIPOLYGON:
 		for _, g := range gd.Geometry.Geometries {
+			if g == nil {
+				return nil, errors.New("can't cover multipolygon: nil polygon")
+			}
 			cup, err := coverPolygon(g.Coordinates, coverer, interior)
 			if err != nil {
 				return nil, errors.Wrap(err, "can't cover multipolygon")
-- 
2.43.0

