From 345f9a8f28429ed15c83559b92396669ae20cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 01/21] verif hooks: tag-guarded size settings and rabbit
 KeySize

---
 debug.go                      |  4 ++--
 nodebug.go                    |  4 ++--
 store/rabbit/keysize.go       |  6 ++++++
 store/rabbit/keysize_verif.go |  6 ++++++
 store/rabbit/rabbit.go        |  2 --
 verif.go                      | 16 ++++++++++++++++
 6 files changed, 32 insertions(+), 6 deletions(-)
 create mode 100644 store/rabbit/keysize.go
 create mode 100644 store/rabbit/keysize_verif.go
 create mode 100644 verif.go

diff --git a/debug.go b/debug.go
index 9d4b721..f9a687f 100644
--- a/debug.go
+++ b/debug.go
@@ -1,5 +1,5 @@
-//go:build debug
-// +build debug
+//go:build debug && !verif
+// +build debug,!verif
 
 package moeingads
 
diff --git a/nodebug.go b/nodebug.go
index 79d51e7..4be7277 100644
--- a/nodebug.go
+++ b/nodebug.go
@@ -1,5 +1,5 @@
-//go:build !debug
-// +build !debug
+//go:build !debug && !verif
+// +build !debug,!verif
 
 package moeingads
 
diff --git a/store/rabbit/keysize.go b/store/rabbit/keysize.go
new file mode 100644
index 0000000..4cd6aa5
--- /dev/null
+++ b/store/rabbit/keysize.go
@@ -0,0 +1,6 @@
+//go:build !verifks2
+// +build !verifks2
+
+package rabbit
+
+const KeySize = 8 // 2 for fuzz, 8 for production
diff --git a/store/rabbit/keysize_verif.go b/store/rabbit/keysize_verif.go
new file mode 100644
index 0000000..8d5b1f2
--- /dev/null
+++ b/store/rabbit/keysize_verif.go
@@ -0,0 +1,6 @@
+//go:build verifks2
+// +build verifks2
+
+package rabbit
+
+const KeySize = 2 // short keys collide often
diff --git a/store/rabbit/rabbit.go b/store/rabbit/rabbit.go
index ec70838..f357f19 100644
--- a/store/rabbit/rabbit.go
+++ b/store/rabbit/rabbit.go
@@ -11,8 +11,6 @@ import (
 )
 
 const (
-	KeySize = 8 // 2 for fuzz, 8 for production
-
 	NotFound  = 0
 	EmptySlot = 1
 	Exists    = 2
diff --git a/verif.go b/verif.go
new file mode 100644
index 0000000..5f14415
--- /dev/null
+++ b/verif.go
@@ -0,0 +1,16 @@
+//go:build verif
+// +build verif
+
+package moeingads
+
+// Built only with the 'verif' tag. The sizes that debug.go and nodebug.go fix at
+// compile time are variables here, so that a verification harness can reach file
+// roll-over, compaction, pruning and cache eviction with small workloads.
+var (
+	DefaultHPFileSize  int   = 64 * 1024 * 1024
+	StartReapThres     int64 = 10 * 1000
+	HPFileBufferSize   int   = 8 * 1024
+	RootCacheSizeLimit int   = 1024
+)
+
+var DebugPanicNumber int //not used
-- 
2.43.0


From 6e9aa5e81588e5561578ab895c08dcf6ce3f2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 02/21] fix: ignore the deletion of a key that was created in
 the same block

A key set and then deleted in one block fell into the branch which writes
entries, so the deleted entry became active and readable.
---
 moeingads.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/moeingads.go b/moeingads.go
index 827df28..4f76f96 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -572,8 +572,10 @@ func (mads *MoeingADS) update() {
 				continue
 			}
 			chanID := types.GetIndexChanID(ptr.Key[0])
-			if hotEntry.Operation == types.OpDelete && ptr.SerialNum >= 0 {
-				// if ptr.SerialNum==-1, then we are deleting a just-inserted value, so ignore it.
+			if hotEntry.Operation == types.OpDelete {
+				if ptr.SerialNum < 0 {
+					continue // we are deleting a just-inserted value, so ignore it.
+				}
 				mads.DeactiviateEntry(shardID, ptr.SerialNum)
 				mads.idxTreeJobChan[chanID] <- idxTreeJob{key: ptr.Key, pos: -1} //delete
 			} else if hotEntry.Operation != types.OpNone || hotEntry.IsTouchedByNext {
-- 
2.43.0


From 2fc5dd4bde86b97273b48a3f3c4ef607ccc6b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 03/21] fix: keep what recovery needs when pruning twigs

PruneBeforeHeight did not commit the last pruned twig, deleted the files before
the edge nodes were durable, and recovery read the twig records of already
pruned twigs. Commit first, delete afterwards, keep the record of an odd end
twig's left sibling, and start recovery at the first kept twig.
---
 datatree/mock_datatree.go |  7 +++++++
 datatree/recover.go       |  8 +++-----
 datatree/tree.go          | 12 ++++++++++--
 moeingads.go              | 10 +++++++++-
 types/types.go            |  2 ++
 5 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 797eeda..d372eca 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -112,6 +112,13 @@ func (dt *MockDataTree) TwigCanBePruned(twigID int64) bool {
 	return !ok
 }
 
+func (dt *MockDataTree) ReapNodes(startID, endID int64) []byte {
+	return nil
+}
+
+func (dt *MockDataTree) PruneFiles(endID int64) {
+}
+
 func (dt *MockDataTree) PruneTwigs(startID, endID int64) []byte {
 	return nil
 }
diff --git a/datatree/recover.go b/datatree/recover.go
index 6a634bd..370b665 100644
--- a/datatree/recover.go
+++ b/datatree/recover.go
@@ -190,16 +190,14 @@ func RecoverTree(bufferSize, blockSize int, dirName, suffix string, edgeNodes []
 	if lastPrunedTwigID == -1 {
 		startingInactiveTwigID = 0
 	}
-	if startingInactiveTwigID%2 == 1 {
-		startingInactiveTwigID--
-	}
-	tree.RecoverInactiveTwigRoots(startingInactiveTwigID, oldestActiveTwigID)
 	for _, edgeNode := range edgeNodes {
 		if edgeNode.Pos.Level() == int64(FirstLevelAboveTwig-1) &&
 			startingInactiveTwigID < edgeNode.Pos.Nth() {
-			startingInactiveTwigID = edgeNode.Pos.Nth()
+			startingInactiveTwigID = edgeNode.Pos.Nth() // the first twig which was not pruned
 		}
 	}
+	// the files may have no data about the twigs before it, except its left sibling
+	tree.RecoverInactiveTwigRoots(startingInactiveTwigID&^1, oldestActiveTwigID)
 	nList0 := make([]int64, 0, 1+(oldestActiveTwigID-startingInactiveTwigID)/2)
 	for twigID := startingInactiveTwigID; twigID < oldestActiveTwigID; twigID++ {
 		if len(nList0) == 0 || nList0[len(nList0)-1] != twigID/2 {
diff --git a/datatree/tree.go b/datatree/tree.go
index 99271bb..258be7c 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -406,11 +406,19 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	if endID-startID < MinPruneCount {
 		panic(fmt.Sprintf("The count of pruned twigs is too small: %d", endID-startID))
 	}
+	edgeNodesBytes := tree.ReapNodes(startID, endID)
+	tree.PruneFiles(endID)
+	return edgeNodesBytes
+}
+
+// Delete the files which are only needed by the twigs before endID. The edge nodes of endID
+// must have been saved durably before calling it.
+func (tree *Tree) PruneFiles(endID int64) {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
-	tree.twigMtFile.PruneHead(endID * TwigMtSize)
-	return tree.ReapNodes(startID, endID)
+	// When endID is odd, recovery needs the root of its left sibling
+	tree.twigMtFile.PruneHead((endID &^ 1) * TwigMtSize)
 }
 
 func (tree *Tree) ReapNodes(start, end int64) []byte {
diff --git a/moeingads.go b/moeingads.go
index 4f76f96..efe2843 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -732,11 +732,13 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 		end--
 		starts[shardID], ends[shardID] = start, end
 	})
+	var pruned [types.ShardCount]bool
 	mads.kvdb.OpenNewBatch()
 	for shardID := 0; shardID < types.ShardCount; shardID++ {
 		start, end := starts[shardID], ends[shardID]
 		if end > start+datatree.MinPruneCount {
-			edgeNodesBytes := mads.datTree[shardID].PruneTwigs(start, end)
+			pruned[shardID] = true
+			edgeNodesBytes := mads.datTree[shardID].ReapNodes(start, end)
 			mads.meta.SetEdgeNodes(shardID, edgeNodesBytes)
 			for twig := start; twig < end; twig++ {
 				mads.meta.DeleteTwigHeight(shardID, twig)
@@ -744,7 +746,13 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
+	for shardID := 0; shardID < types.ShardCount; shardID++ {
+		if pruned[shardID] { // only after the edge nodes were saved durably
+			mads.datTree[shardID].PruneFiles(ends[shardID])
+		}
+	}
 	mads.kvdb.SetPruneHeight(uint64(height))
 }
 
diff --git a/types/types.go b/types/types.go
index 83f1153..209ae51 100644
--- a/types/types.go
+++ b/types/types.go
@@ -99,6 +99,8 @@ type DataTree interface {
 	ScanEntriesLite(oldestActiveTwigID int64, outChan chan KeyAndPos)
 	TwigCanBePruned(twigID int64) bool
 	PruneTwigs(startID, endID int64) []byte
+	ReapNodes(startID, endID int64) []byte
+	PruneFiles(endID int64)
 	GetFileSizes() (int64, int64)
 	EndBlock() [32]byte
 	WaitForFlushing()
-- 
2.43.0


From c0db6111e8e0db713f4ed2b23911ee2c97c2ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 04/21] fix: remember the pruned height across restarts

---
 metadb/metadb.go | 20 ++++++++++++++++++++
 moeingads.go     |  6 ++++++
 types/types.go   |  3 +++
 3 files changed, 29 insertions(+)

diff --git a/metadb/metadb.go b/metadb/metadb.go
index d99c0f7..75c0ce9 100644
--- a/metadb/metadb.go
+++ b/metadb/metadb.go
@@ -21,6 +21,7 @@ const (
 	ByteOldestActiveTwigID = byte(0x17)
 	ByteIsRunning          = byte(0x18) //Not Used
 	ByteRootHash           = byte(0x19)
+	BytePruneHeight        = byte(0x1A)
 )
 
 type MetaDB struct {
@@ -188,6 +189,25 @@ func (db *MetaDB) GetLastPrunedTwig(shardID int) int64 {
 	return db.lastPrunedTwig[shardID]
 }
 
+func (db *MetaDB) SetPruneHeight(height uint64) {
+	db.mtx.Lock()
+	defer db.mtx.Unlock()
+	var buf [8]byte
+	binary.LittleEndian.PutUint64(buf[:], height)
+	db.kvdb.LockBatch()
+	defer db.kvdb.UnlockBatch()
+	db.kvdb.CurrBatch().Set([]byte{BytePruneHeight}, buf[:])
+}
+
+// GetPruneHeight returns false if this database was never pruned
+func (db *MetaDB) GetPruneHeight() (uint64, bool) {
+	bz := db.kvdb.Get([]byte{BytePruneHeight})
+	if len(bz) != 8 {
+		return 0, false
+	}
+	return binary.LittleEndian.Uint64(bz), true
+}
+
 func (db *MetaDB) GetEdgeNodes(shardID int) []byte {
 	return db.kvdb.Get([]byte{ByteEdgeNodes, byte(shardID)})
 }
diff --git a/moeingads.go b/moeingads.go
index efe2843..ffa204e 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -105,6 +105,9 @@ func NewMoeingADS(dirName string, canQueryHistory bool, startEndKeys [][]byte) (
 	mads.meta = metadb.NewMetaDB(mads.kvdb)
 	if !dirNotExists {
 		mads.meta.ReloadFromKVDB()
+		if pruneHeight, ok := mads.meta.GetPruneHeight(); ok {
+			mads.kvdb.SetPruneHeight(pruneHeight)
+		}
 		//mads.meta.PrintInfo()
 	}
 
@@ -746,6 +749,9 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	if oldHeight, ok := mads.kvdb.GetPruneHeight(); !ok || oldHeight < uint64(height) {
+		mads.meta.SetPruneHeight(uint64(height))
+	}
 	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
 	for shardID := 0; shardID < types.ShardCount; shardID++ {
diff --git a/types/types.go b/types/types.go
index 209ae51..62eae00 100644
--- a/types/types.go
+++ b/types/types.go
@@ -131,6 +131,9 @@ type MetaDB interface {
 	SetLastPrunedTwig(shardID int, twigID int64)
 	GetLastPrunedTwig(shardID int) int64
 
+	SetPruneHeight(height uint64)
+	GetPruneHeight() (uint64, bool)
+
 	SetEdgeNodes(shardID int, bz []byte)
 	GetEdgeNodes(shardID int) []byte
 
-- 
2.43.0


From 7df0530801fe69b6bf067740e8b3e79b894be687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 05/21] fix: compare the whole key when seeking in the ordered
 index

---
 indextree/b/cppbtree/cppbtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indextree/b/cppbtree/cppbtree.cpp b/indextree/b/cppbtree/cppbtree.cpp
index c881dd9..fedb879 100644
--- a/indextree/b/cppbtree/cppbtree.cpp
+++ b/indextree/b/cppbtree/cppbtree.cpp
@@ -56,7 +56,7 @@ size_t cppbtree_seek(size_t tree, uint64_t key, bool* is_equal, bool* larger_tha
 	auto k = bits48::from_uint64(key);
 	Iter* iter = new Iter();
 	*iter = bt->get_iterator(key>>48, k);
-	*is_equal = iter->valid() && (iter->key().to_uint64()<<16) == (key<<16);
+	*is_equal = iter->valid() && uint64_t(iter->curr_idx()) == (key>>48) && iter->key() == k;
 	*larger_than_target = !(*is_equal);
 	*ending = false;
 	if(!iter->valid()) { // try to get a valid iterator
-- 
2.43.0


From eeb75b7da4b4e932ac9d50b7855f4b70d0215a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 06/21] fix: skip other records when initializing the index
 tree

---
 indextree/indextree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indextree/indextree.go b/indextree/indextree.go
index ef3fadb..92a1108 100644
--- a/indextree/indextree.go
+++ b/indextree/indextree.go
@@ -137,6 +137,7 @@ func (tree *NVTreeMem) Init(repFn func([]byte)) (err error) {
 		k := iter.Key()
 		v := iter.Value()
 		if k[0] != 0 {
+			iter.Next()
 			continue // the first byte must be zero
 		}
 		k = k[1:]
-- 
2.43.0


From 657f8df75833a1a57f3653f82a4287624fc34d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 07/21] fix: access the compaction filter's pruned height
 atomically

---
 indextree/rocks_db.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/indextree/rocks_db.go b/indextree/rocks_db.go
index 5b718f2..aa60475 100644
--- a/indextree/rocks_db.go
+++ b/indextree/rocks_db.go
@@ -7,15 +7,17 @@ import (
 	"path/filepath"
 	"runtime"
 	"sync"
+	"sync/atomic"
 
 	"github.com/smartbch/moeingads/types"
 	"github.com/tecbot/gorocksdb"
 )
 
 // We use rocksdb's customizable compact filter to prune old records
+// It is read by the background threads of rocksdb, so its members must be accessed atomically
 type HeightCompactionFilter struct {
 	pruneHeight uint64
-	pruneEnable bool
+	pruneEnable uint32
 }
 
 func (f *HeightCompactionFilter) Name() string {
@@ -32,7 +34,7 @@ func (f *HeightCompactionFilter) Filter(level int, key, val []byte) (remove bool
 	}
 	start := len(key) - 8
 	h := binary.BigEndian.Uint64(key[start:])
-	if f.pruneEnable && f.pruneHeight > h {
+	if atomic.LoadUint32(&f.pruneEnable) != 0 && atomic.LoadUint64(&f.pruneHeight) > h {
 		return true, nil
 	} else {
 		return false, val
@@ -117,14 +119,15 @@ func NewRocksDBWithOptions(name string, dir string, opts *gorocksdb.Options) (IK
 }
 
 func (db *RocksDB) SetPruneHeight(h uint64) {
-	if db.filter.pruneHeight < h {
-		db.filter.pruneHeight = h
+	if atomic.LoadUint64(&db.filter.pruneHeight) < h {
+		atomic.StoreUint64(&db.filter.pruneHeight, h)
 	}
-	db.filter.pruneEnable = true
+	atomic.StoreUint32(&db.filter.pruneEnable, 1)
 }
 
 func (db *RocksDB) GetPruneHeight() (uint64, bool) {
-	return db.filter.pruneHeight, db.filter.pruneEnable
+	enable := atomic.LoadUint32(&db.filter.pruneEnable) != 0
+	return atomic.LoadUint64(&db.filter.pruneHeight), enable
 }
 
 // Implements DB.
-- 
2.43.0


From 05dddbd5aa3a6c2d97fb3e1afa711c0e7d618042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 08/21] fix: take a snapshot of the active bits before
 compacting a twig

---
 datatree/entryfile.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datatree/entryfile.go b/datatree/entryfile.go
index 2a64315..1b5dbb5 100644
--- a/datatree/entryfile.go
+++ b/datatree/entryfile.go
@@ -374,10 +374,11 @@ func (ef *EntryFile) GetActiveEntriesInTwig(twig *Twig) chan []byte {
 
 func (ef *EntryFile) getActiveEntriesInTwig(twig *Twig, checkSN bool) chan []byte {
 	res := make(chan []byte, 100)
+	snapshot := *twig // the caller may deactivate the entries it has received
 	go func() {
-		start := twig.FirstEntryPos
+		start := snapshot.FirstEntryPos
 		for i := 0; i < LeafCountInTwig; i++ {
-			if twig.getBit(i) {
+			if snapshot.getBit(i) {
 				entryBz, next := ef.ReadEntryRawBytes(start)
 				start = next
 				sn := ExtractSerialNum(entryBz)
-- 
2.43.0


From bfc346bc45f286475bb7091edb53ac0efff10e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 09/21] fix: lock the head-prunable file when it is truncated
 or pruned

---
 datatree/hpfile.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 487d29e..2811cca 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -107,6 +107,9 @@ func (hpf *HPFile) Size() int64 {
 }
 
 func (hpf *HPFile) Truncate(size int64) error {
+	hpf.mtx.Lock()
+	defer hpf.mtx.Unlock()
+	hpf.preReader.Invalidate()
 	for size < int64(hpf.largestID)*int64(hpf.blockSize) {
 		f := hpf.fileMap[hpf.largestID]
 		err := f.Close()
@@ -278,6 +281,8 @@ func (hpf *HPFile) Append(bufList [][]byte) (int64, error) {
 }
 
 func (hpf *HPFile) PruneHead(off int64) error {
+	hpf.mtx.Lock()
+	defer hpf.mtx.Unlock()
 	fileID := off / int64(hpf.blockSize)
 	var idList []int
 	for id, f := range hpf.fileMap {
@@ -314,6 +319,13 @@ func (pr *PreReader) Init() {
 	pr.buf = make([]byte, PreReadBufSize)
 }
 
+// Invalidate forgets the buffered data
+func (pr *PreReader) Invalidate() {
+	pr.mtx.Lock()
+	defer pr.mtx.Unlock()
+	pr.fileID = -1
+}
+
 func (pr *PreReader) GetToFill(fileID, start, end int64) []byte {
 	pr.fileID = fileID
 	pr.start = start
-- 
2.43.0


From c1a512abece21772568af32c9575af3e0db0fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 10/21] fix: reject proofs with uncovered serial number bits or
 no upper path

---
 datatree/proof.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datatree/proof.go b/datatree/proof.go
index 7476cc5..cf772d9 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -49,7 +49,7 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 	pp := &ProofPath{}
 	n := len(bz) - 8
 	upperCount := n/32 - OtherNodeCount
-	if n%32 != 0 || upperCount < 0 {
+	if n%32 != 0 || upperCount <= 0 {
 		return nil, fmt.Errorf("Invalid byte slice length: %d", len(bz))
 	}
 	pp.UpperPath = make([]ProofNode, upperCount)
@@ -79,6 +79,10 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 }
 
 func (pp *ProofPath) Check(complete bool) error {
+	// every bit of the serial number must be covered by the path
+	if pp.SerialNum>>(TwigShift+len(pp.UpperPath)) != 0 {
+		return fmt.Errorf("Invalid serial number: %d", pp.SerialNum)
+	}
 	for i := 0; i < len(pp.LeftOfTwig)-1; i++ {
 		var res []byte
 		if pp.LeftOfTwig[i].PeerAtLeft {
-- 
2.43.0


From 6cbe861c625343882f52a73ec3693989ec38de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 11/21] fix: restart a database creation that was interrupted

---
 datatree/tree.go | 8 ++++++++
 metadb/metadb.go | 5 +++++
 moeingads.go     | 9 +++++++++
 types/types.go   | 1 +
 4 files changed, 23 insertions(+)

diff --git a/datatree/tree.go b/datatree/tree.go
index 258be7c..d971003 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -216,6 +216,14 @@ type Tree struct {
 	deactivedSNList     []int64
 }
 
+// RemoveTreeFiles removes the files that NewEmptyTree would create
+func RemoveTreeFiles(dirName string, suffix string) error {
+	if err := os.RemoveAll(filepath.Join(dirName, entriesPath+suffix)); err != nil {
+		return err
+	}
+	return os.RemoveAll(filepath.Join(dirName, twigMtPath+suffix))
+}
+
 func NewEmptyTree(bufferSize, blockSize int, dirName string, suffix string) *Tree {
 	dirEntry := filepath.Join(dirName, entriesPath+suffix)
 	_ = os.Mkdir(dirEntry, 0700)
diff --git a/metadb/metadb.go b/metadb/metadb.go
index 75c0ce9..41c39b6 100644
--- a/metadb/metadb.go
+++ b/metadb/metadb.go
@@ -44,6 +44,11 @@ func (db *MetaDB) Close() {
 	db.kvdb = nil
 }
 
+// IsCommitted tells whether anything was ever committed to the underlying database
+func (db *MetaDB) IsCommitted() bool {
+	return db.kvdb.Get([]byte{ByteCurrHeight}) != nil
+}
+
 func (db *MetaDB) ReloadFromKVDB() {
 	db.currHeight = 0
 	for i := 0; i < types.ShardCount; i++ {
diff --git a/moeingads.go b/moeingads.go
index ffa204e..e6ba82a 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -103,6 +103,15 @@ func NewMoeingADS(dirName string, canQueryHistory bool, startEndKeys [][]byte) (
 		panic(err)
 	}
 	mads.meta = metadb.NewMetaDB(mads.kvdb)
+	if !dirNotExists && !mads.meta.IsCommitted() {
+		// The creation of this database was interrupted before it was committed: start again
+		for i := 0; i < types.ShardCount; i++ {
+			if err = datatree.RemoveTreeFiles(dirName, fmt.Sprintf(".%d", i)); err != nil {
+				panic(err)
+			}
+		}
+		dirNotExists = true
+	}
 	if !dirNotExists {
 		mads.meta.ReloadFromKVDB()
 		if pruneHeight, ok := mads.meta.GetPruneHeight(); ok {
diff --git a/types/types.go b/types/types.go
index 62eae00..f056788 100644
--- a/types/types.go
+++ b/types/types.go
@@ -113,6 +113,7 @@ type DataTree interface {
 
 type MetaDB interface {
 	Commit()
+	IsCommitted() bool
 	ReloadFromKVDB()
 	PrintInfo()
 
-- 
2.43.0


From a9974bb3be805824ddf22c42a2a6a1d91bc20113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 12/21] fix: find a separator at the very end of an entry

---
 datatree/entryfile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/entryfile.go b/datatree/entryfile.go
index 1b5dbb5..94ea4b0 100644
--- a/datatree/entryfile.go
+++ b/datatree/entryfile.go
@@ -168,7 +168,7 @@ func writeEntryPayload(b []byte, entry Entry, deactivedSerialNumList []int64) {
 }
 
 func getAllPos(s, sep []byte) (allpos []int) {
-	for start, pos := 0, 0; start+len(sep) < len(s); start += pos + len(sep) {
+	for start, pos := 0, 0; start+len(sep) <= len(s); start += pos + len(sep) {
 		pos = bytes.Index(s[start:], sep)
 		if pos == -1 {
 			return
-- 
2.43.0


From 7cc1e2470b9e7afe575a7a744e648c5f8ca748f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 13/21] verif hooks: tag-guarded 1-byte short keys

---
 store/rabbit/keysize.go        | 4 ++--
 store/rabbit/keysize_verif1.go | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)
 create mode 100644 store/rabbit/keysize_verif1.go

diff --git a/store/rabbit/keysize.go b/store/rabbit/keysize.go
index 4cd6aa5..b8e9384 100644
--- a/store/rabbit/keysize.go
+++ b/store/rabbit/keysize.go
@@ -1,5 +1,5 @@
-//go:build !verifks2
-// +build !verifks2
+//go:build !verifks2 && !verifks1
+// +build !verifks2,!verifks1
 
 package rabbit
 
diff --git a/store/rabbit/keysize_verif1.go b/store/rabbit/keysize_verif1.go
new file mode 100644
index 0000000..39d6408
--- /dev/null
+++ b/store/rabbit/keysize_verif1.go
@@ -0,0 +1,6 @@
+//go:build verifks1
+// +build verifks1
+
+package rabbit
+
+const KeySize = 1 // short keys nearly always collide
-- 
2.43.0


From 7418d0e7198658e3ca62633e1d1bfacf2c029489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:25 +0000
Subject: [PATCH 14/21] fix: keep a compacted twig until no height to be kept
 was written before its compaction

PruneBeforeHeight went by the height at which a twig was filled. Entries that
were replaced or moved only later are still the ones that GetEntryAtHeight
has to read at the heights in between, and it panicked on them.
---
 metadb/metadb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadb/metadb.go b/metadb/metadb.go
index 41c39b6..a211996 100644
--- a/metadb/metadb.go
+++ b/metadb/metadb.go
@@ -255,6 +255,9 @@ func (db *MetaDB) GetOldestActiveTwigID(shardID int) int64 {
 
 func (db *MetaDB) IncrOldestActiveTwigID(shardID int) {
 	db.oldestActiveTwigID[shardID]++
+	// The entries of the older twigs have all been replaced by now. Until this height, they may be
+	// read as historical versions, so PruneBeforeHeight must not go by the height of their creation.
+	db.setTwigHeight(shardID, db.oldestActiveTwigID[shardID], db.currHeight)
 }
 
 func (db *MetaDB) Init() {
-- 
2.43.0


From 4630a40fa79eda8c82d97d853c1d9b96e87d79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 15/21] fix: reading history at the largest height gives the
 current state

---
 indextree/indextree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indextree/indextree.go b/indextree/indextree.go
index 92a1108..967051c 100644
--- a/indextree/indextree.go
+++ b/indextree/indextree.go
@@ -241,6 +241,9 @@ func (tree *NVTreeMem) GetAtHeight(k []byte, height uint64) (position int64, ok
 	if h, enable := tree.kvdb.GetPruneHeight(); enable && height <= h {
 		return 0, false
 	}
+	if height == ^uint64(0) { // no block has this height, and height+1 would overflow
+		height--
+	}
 	newK := make([]byte, 1+len(k)+8) // all bytes equal zero
 	copy(newK[1:], k)
 	binary.BigEndian.PutUint64(newK[1+len(k):], height+1)
-- 
2.43.0


From bdceba16b8621071f0b85b62c0eb4de85e9b2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 16/21] fix: an empty value given as nil is stored like any
 other empty value

---
 moeingads.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moeingads.go b/moeingads.go
index e6ba82a..7c56156 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -445,6 +445,9 @@ func (mads *MoeingADS) Set(key, value []byte) {
 	if hotEntry == nil {
 		panic("Can not change or insert at a fake entry")
 	}
+	if value == nil {
+		value = []byte{} // a nil Value marks an entry which is not inserted, see isFakeInserted
+	}
 	hotEntry.EntryPtr.Value = value
 	hotEntry.Operation = types.OpInsertOrChange
 }
-- 
2.43.0


From c8133aba2f86453877d089eb490fd99d72351783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 17/21] fix: pruning at a negative height releases nothing

---
 moeingads.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moeingads.go b/moeingads.go
index 7c56156..b9b4179 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -733,6 +733,9 @@ func (mads *MoeingADS) EndWrite() {
 }
 
 func (mads *MoeingADS) PruneBeforeHeight(height int64) {
+	if height < 0 {
+		return // nothing is that old; as uint64 it would be a height above all others
+	}
 	var starts, ends [types.ShardCount]int64
 	datatree.ParallelRun(types.ShardCount, func(shardID int) {
 		start := mads.meta.GetLastPrunedTwig(shardID) + 1
-- 
2.43.0


From d1489a5cccc4c9a6a3fc1a3ae8a03e0324616e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 18/21] fix: a flush that failed is not taken for a successful
 one

HPFile.flush ignored errors of Sync, and StartFlushing released those who wait
for the flush while it panicked, so that a block could be committed whose
entries were not stored.
---
 datatree/hpfile.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 2811cca..3306d1e 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -161,7 +161,10 @@ func (hpf *HPFile) flush() {
 		}
 		hpf.buffer = hpf.buffer[:0]
 	}
-	_ = hpf.fileMap[hpf.largestID].Sync()
+	err := hpf.fileMap[hpf.largestID].Sync()
+	if err != nil {
+		panic(err)
+	}
 }
 
 func (hpf *HPFile) WaitForFlushing() {
@@ -172,8 +175,8 @@ func (hpf *HPFile) WaitForFlushing() {
 func (hpf *HPFile) StartFlushing() {
 	hpf.mtx.Lock()
 	go func() {
-		defer hpf.mtx.Unlock()
 		hpf.flush()
+		hpf.mtx.Unlock() // not after a failure, which those who wait must not take for success
 	}()
 }
 
-- 
2.43.0


From e73b4edeb594ecbc4d686f6998b61f291ec5410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 19/21] fix: SaveMemToDisk reports errors of writing twigs

---
 datatree/load.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datatree/load.go b/datatree/load.go
index 489b0cf..0ab194e 100644
--- a/datatree/load.go
+++ b/datatree/load.go
@@ -240,7 +240,10 @@ func (tree *Tree) SaveMemToDisk() {
 	}
 	defer twigFile.Close()
 	for _, twigID := range twigList {
-		_ = tree.activeTwigs[twigID].Dump(twigID, twigFile)
+		err = tree.activeTwigs[twigID].Dump(twigID, twigFile)
+		if err != nil {
+			panic(err)
+		}
 	}
 
 	nodesFile, err := os.OpenFile(filepath.Join(tree.dirName, nodesPath), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0700)
-- 
2.43.0


From 6304135a18ec8af4b6ad0218a10c8c6fcab9398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 20/21] fix: an iterator of RocksDB that fails is not taken for
 one at its end

Reads of past heights answered "absent", and the index was loaded in part.
---
 indextree/rocks_db.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/indextree/rocks_db.go b/indextree/rocks_db.go
index aa60475..b488662 100644
--- a/indextree/rocks_db.go
+++ b/indextree/rocks_db.go
@@ -340,6 +340,9 @@ func newRocksDBIterator(source *gorocksdb.Iterator, start, end []byte, isReverse
 					source.Prev()
 				}
 			} else {
+				if err := source.Err(); err != nil {
+					panic(err) // it is not at the end
+				}
 				source.SeekToLast()
 			}
 		}
@@ -370,10 +373,9 @@ func (itr *rocksDBIterator) Valid() bool {
 		return false
 	}
 
-	// If source has error, invalid.
+	// If source has error, there may be more records than it can show.
 	if err := itr.source.Err(); err != nil {
-		itr.isInvalid = true
-		return false
+		panic(err)
 	}
 
 	// If source is invalid, invalid.
-- 
2.43.0


From 765e62b5f9f623e7a39f54112b1fde444367489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 21/21] fix: closing RocksDB frees its options and its block
 cache

Every opening of a database left them behind.
---
 indextree/rocks_db.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/indextree/rocks_db.go b/indextree/rocks_db.go
index b488662..787d2b8 100644
--- a/indextree/rocks_db.go
+++ b/indextree/rocks_db.go
@@ -49,6 +49,8 @@ type RocksDB struct {
 	filter *HeightCompactionFilter
 	batch  *rocksDBBatch
 	mtx    sync.Mutex
+	// frees the options (with the filter) and the cache, which the C++ side uses until it is closed
+	destroyOpts func()
 }
 
 func (db *RocksDB) CurrBatch() types.Batch {
@@ -81,7 +83,8 @@ func NewRocksDB(name string, dir string) (IKVDB, error) {
 	// 64MB table cache, 32MB write buffer
 	// compression: snappy as default, need to -lsnappy to enable.
 	bbto := gorocksdb.NewDefaultBlockBasedTableOptions()
-	bbto.SetBlockCache(gorocksdb.NewLRUCache(64 * 1024 * 1024))
+	cache := gorocksdb.NewLRUCache(64 * 1024 * 1024)
+	bbto.SetBlockCache(cache)
 	bbto.SetFilterPolicy(gorocksdb.NewBloomFilter(10))
 
 	opts := gorocksdb.NewDefaultOptions()
@@ -92,7 +95,18 @@ func NewRocksDB(name string, dir string) (IKVDB, error) {
 	opts.IncreaseParallelism(runtime.NumCPU())
 	// 1.5GB maximum memory use for writebuffer.
 	opts.OptimizeLevelStyleCompaction(512 * 1024 * 1024)
-	return NewRocksDBWithOptions(name, dir, opts)
+	db, err := NewRocksDBWithOptions(name, dir, opts)
+	destroyOpts := func() {
+		opts.Destroy()
+		bbto.Destroy()
+		cache.Destroy()
+	}
+	if err != nil {
+		destroyOpts()
+		return nil, err
+	}
+	db.(*RocksDB).destroyOpts = destroyOpts
+	return db, nil
 }
 
 func NewRocksDBWithOptions(name string, dir string, opts *gorocksdb.Options) (IKVDB, error) {
@@ -208,6 +222,9 @@ func (db *RocksDB) Close() {
 	db.wo.Destroy()
 	db.woSync.Destroy()
 	db.db.Close()
+	if db.destroyOpts != nil {
+		db.destroyOpts()
+	}
 }
 
 // Implements DB.
-- 
2.43.0

