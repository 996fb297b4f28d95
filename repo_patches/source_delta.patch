From 1f465c7265b6f3d0cd4c5dcb5f0bfa45d5ef1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:15 +0000
Subject: [PATCH 01/11] fix: bptree: don't count a record that isn't shifted
 when balancing leafs

When the record shift between sibling leafs stopped because a threshold
would be crossed, the load sizes still included the record that was not
going to be shifted. The overloaded leaf could thus be considered relieved
while it was still overloaded, and the next insertion overflowed its page.
---
 bptree/leaf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bptree/leaf.go b/bptree/leaf.go
index a0c3bd8..9358b5f 100644
--- a/bptree/leaf.go
+++ b/bptree/leaf.go
@@ -206,6 +206,9 @@ func (lc leafController) CountRecordsForShiftingToLeft(leftSibling leafControlle
 		loadSize2 += recordSize
 
 		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+			// this record isn't shifted
+			loadSize1 += recordSize
+			loadSize2 -= recordSize
 			break
 		}
 
@@ -240,6 +243,9 @@ func (lc leafController) CountRecordsForShiftingToRight(rightSibling leafControl
 		loadSize2 += recordSize
 
 		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+			// this record isn't shifted
+			loadSize1 += recordSize
+			loadSize2 -= recordSize
 			break
 		}
 
-- 
2.43.0


From 14d80d63825f2db55845020e21c4481d8ff5ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:17 +0000
Subject: [PATCH 02/11] fix: bptree: count the separator key when shifting
 non-leaf children

The key taken over from the parent was not counted in the load size of the
sibling receiving the children, and the load sizes included the child which
was not going to be shifted. A non-leaf could be left overloaded, and the
next insertion overflowed its page.
---
 bptree/bptree.go  |  8 +++----
 bptree/nonleaf.go | 53 +++++++++++++++++++++++++++++------------------
 2 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 014004e..2ac867a 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -494,7 +494,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController := bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			m := nonLeafController1.NumberOfChildren() - numberOfChildren
 			nonLeafController1.ShiftToRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 
@@ -516,7 +516,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController := bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			m := nonLeafLSiblingController.NumberOfChildren()
 			nonLeafController1.ShiftToLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 
@@ -661,7 +661,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController = bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
@@ -675,7 +675,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController = bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex
diff --git a/bptree/nonleaf.go b/bptree/nonleaf.go
index f3c0f4d..342f246 100644
--- a/bptree/nonleaf.go
+++ b/bptree/nonleaf.go
@@ -202,13 +202,23 @@ func (nlc nonLeafController) MergeFromRight(parent nonLeafController, index int,
 	nlc.InsertChildren(nlc.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafController) int {
-	loadSize1 := nlc.GetLoadSize() - (nonLeafChildHeaderSize + len(nlc.GetKey(0)))
-	loadSize2 := leftSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := leftSibling.GetLoadSize()
+	// the first child shifted takes over the key from the parent
+	keySize2 := len(parent.GetKey(index))
 	childCount := 0
 
 	for i := 1; ; i++ {
+		// the key of the new first child is given to the parent
+		keySize1 := len(nlc.GetKey(i))
+		loadSize1 -= nonLeafChildHeaderSize + keySize1
+		loadSize2 += nonLeafChildHeaderSize + keySize2
+
 		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+			// this child won't be shifted
+			loadSize1 += nonLeafChildHeaderSize + keySize1
+			loadSize2 -= nonLeafChildHeaderSize + keySize2
 			break
 		}
 
@@ -218,9 +228,7 @@ func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafC
 			break
 		}
 
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += childSize
+		keySize2 = keySize1
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -238,15 +246,23 @@ func (nlc nonLeafController) ShiftToLeft(numberOfChildren int, parent nonLeafCon
 	leftSibling.InsertChildren(leftSibling.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLeafController) int {
-	n := nlc.NumberOfChildren()
-	lastChildSize := nonLeafChildHeaderSize + len(nlc.GetKey(n-1))
-	loadSize1 := nlc.GetLoadSize() - lastChildSize
-	loadSize2 := rightSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := rightSibling.GetLoadSize()
+	// the first child of the right sibling takes over the key from the parent
+	keySize2 := len(parent.GetKey(index + 1))
 	childCount := 0
 
-	for i := n - 2; ; i-- {
+	for i := nlc.NumberOfChildren() - 1; ; i-- {
+		// the key of the first child shifted is given to the parent
+		keySize1 := len(nlc.GetKey(i))
+		loadSize1 -= nonLeafChildHeaderSize + keySize1
+		loadSize2 += nonLeafChildHeaderSize + keySize2
+
 		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+			// this child won't be shifted
+			loadSize1 += nonLeafChildHeaderSize + keySize1
+			loadSize2 -= nonLeafChildHeaderSize + keySize2
 			break
 		}
 
@@ -256,10 +272,7 @@ func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLea
 			break
 		}
 
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += lastChildSize
-		lastChildSize = childSize
+		keySize2 = keySize1
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -277,16 +290,16 @@ func (nlc nonLeafController) ShiftToRight(numberOfChildren int, parent nonLeafCo
 	rightSibling.InsertChildren(0, children)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(leftSibling nonLeafController) int {
-	return leftSibling.CountChildrenForShiftingToRight(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	return leftSibling.CountChildrenForShiftingToRight(parent, index-1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromLeft(numberOfChildren int, parent nonLeafController, index int, leftSibling nonLeafController) {
 	leftSibling.ShiftToRight(numberOfChildren, parent, index-1, nlc)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(rightSibling nonLeafController) int {
-	return rightSibling.CountChildrenForShiftingToLeft(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	return rightSibling.CountChildrenForShiftingToLeft(parent, index+1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromRight(numberOfChildren int, parent nonLeafController, index int, rightSibling nonLeafController) {
-- 
2.43.0


From b76370e92229a7857e916bb21d290db2eaae7d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:19 +0000
Subject: [PATCH 03/11] fix: bptree: find nothing in the range [key...key] of
 an absent key

The search returned the record next to the absent key.
---
 bptree/bptree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 2ac867a..507ca21 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -770,6 +770,10 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 	}
 
 	if d == 0 {
+		if !ok3 {
+			return 0, 0, 0, 0, false
+		}
+
 		return minLeafAddr, minRecordIndex, minLeafAddr, minRecordIndex, true
 	}
 
-- 
2.43.0


From e9adef2b95fc625b4f682e492b8b4b7f4207319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:19 +0000
Subject: [PATCH 04/11] fix: hashmap: don't write through an invalidated
 accessor in Create

---
 hashmap/hashmap.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index dd3a259..1d5d9c8 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -34,10 +34,11 @@ func (hm *HashMap) Init(fileStorage *fsm.FileStorage) *HashMap {
 
 // Create creates the hash map on the file storage.
 func (hm *HashMap) Create() {
-	slotDirsAddr, buffer1 := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
-	slotDirAddr, buffer2 := hm.fileStorage.AllocateSpace(8 << slotDirLengthShift)
-	binary.BigEndian.PutUint64(buffer1, uint64(slotDirAddr))
-	binary.BigEndian.PutUint64(buffer2, ^uint64(0))
+	slotDirsAddr, _ := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
+	slotDirAddr, buffer := hm.fileStorage.AllocateSpace(8 << slotDirLengthShift)
+	binary.BigEndian.PutUint64(buffer, ^uint64(0))
+	// the accessor of slotDirsAddr is invalidated by the allocation of slotDirAddr
+	binary.BigEndian.PutUint64(hm.fileStorage.AccessSpace(slotDirsAddr), uint64(slotDirAddr))
 	hm.slotDirsAddr = slotDirsAddr
 	hm.maxSlotDirCountShift = minMaxSlotDirCountShift
 	hm.slotDirCount = 1
-- 
2.43.0


From b7758d4374c65252dc95039ed3553e4badf10b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 05/11] fix: bptree: free everything in Destroy

---
 bptree/bptree.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 507ca21..e1b0678 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -38,7 +38,7 @@ func (bpt *BPTree) Create() {
 
 // Destroy destroys the B+ tree on the file storage.
 func (bpt *BPTree) Destroy() {
-	bpt.destroyLeaf(bpt.rootAddr)
+	bpt.destroyNode(bpt.rootAddr, 1)
 	*bpt = *new(BPTree).Init(bpt.fileStorage)
 }
 
@@ -823,6 +823,27 @@ func (bpt *BPTree) destroyLeaf(leafAddr int64) {
 	bpt.leafCount--
 }
 
+func (bpt *BPTree) destroyNode(nodeAddr int64, nodeDepth int) {
+	if nodeDepth == bpt.height {
+		leafController := bpt.getLeafController(nodeAddr)
+
+		if n := leafController.NumberOfRecords(); n >= 1 {
+			for _, record := range leafController.RemoveRecords(0, n) {
+				bpt.destroyRecord(record, false)
+			}
+		}
+
+		bpt.destroyLeaf(nodeAddr)
+		return
+	}
+
+	for i, n := 0, bpt.getNonLeafController(nodeAddr).NumberOfChildren(); i < n; i++ {
+		bpt.destroyNode(bpt.getNonLeafController(nodeAddr).GetChildAddr(i), nodeDepth+1)
+	}
+
+	bpt.destroyNonLeaf(nodeAddr)
+}
+
 func (bpt *BPTree) getLeafController(leafAddr int64) leafController {
 	return leafFactory{bpt.fileStorage}.GetLeafController(leafAddr)
 }
-- 
2.43.0


From 1a95631025ae35544ec5860d84587b8918ddf526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 06/11] fix: hashmap: free everything in Destroy

---
 hashmap/hashmap.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index 1d5d9c8..3c47055 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -47,9 +47,15 @@ func (hm *HashMap) Create() {
 
 // Destroy destroys the hash map on the file storage.
 func (hm *HashMap) Destroy() {
-	slotDirAddr := int64(binary.BigEndian.Uint64(hm.fileStorage.AccessSpace(hm.slotDirsAddr)))
+	for i := 0; i < hm.slotCount; i++ {
+		hm.eraseSlot(hm.locateSlotAddr(i).Get(hm.fileStorage))
+	}
+
+	for i := 0; i < hm.slotDirCount; i++ {
+		hm.fileStorage.FreeSpace(hm.locateSlotDirAddr(i).Get(hm.fileStorage))
+	}
+
 	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
-	hm.fileStorage.FreeSpace(slotDirAddr)
 	*hm = *new(HashMap).Init(hm.fileStorage)
 }
 
-- 
2.43.0


From f9a617ca592ac12c5574037a2074fc032e29b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 07/11] fix: hashmap: cap the keys and values fetched so
 appending can't clobber others

---
 hashmap/hashmap.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index 3c47055..b89d6a5 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -623,10 +623,13 @@ func unpackSlot(slot *protocol.HashSlot) []hashItem {
 		itemInfo := &slot.ItemInfos[j]
 		item := &items[j]
 		item.KeySum = itemInfo.KeySum
-		item.Key = slot.Bin[i : i+int(itemInfo.KeySize)]
-		i += int(itemInfo.KeySize)
-		item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]
-		i += int(itemInfo.ValueSize)
+		// cap the slices, or appending to a key overwrites what's next to it
+		k := i + int(itemInfo.KeySize)
+		item.Key = slot.Bin[i:k:k]
+		i = k
+		k += int(itemInfo.ValueSize)
+		item.Value = slot.Bin[i:k:k]
+		i = k
 	}
 
 	// cost of optimization for binary size
-- 
2.43.0


From 0bc2508fdb678cba24829867787f4825dff23ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 08/11] fix: bptree: find nothing in a range that falls between
 two leafs

---
 bptree/bptree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index e1b0678..cd2e167 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -765,6 +765,7 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 			}
 
 			minLeafAddr = leafHeader(minLeafController).NextAddr()
+			minLeafController = bpt.getLeafController(minLeafAddr)
 			minRecordIndex = 0
 		}
 	}
-- 
2.43.0


From 25e077ba094d7ba4a2414d91e60cf1c8e3292a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:32 +0000
Subject: [PATCH 09/11] fix: bptree: read nothing at offsets close to the
 largest number

Adding the length of the buffer to the offset overflowed, and reading a
key or a value that continues outside of its page panicked.
---
 bptree/key.go   | 2 +-
 bptree/value.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bptree/key.go b/bptree/key.go
index d8f8c1f..f3d9882 100644
--- a/bptree/key.go
+++ b/bptree/key.go
@@ -86,7 +86,7 @@ func (kf keyFactory) ReadKey(key key, dataOffset int, buffer []byte) int {
 		return copy(buffer, key[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= keyPrefixSize {
+	if len(buffer) <= keyPrefixSize-dataOffset {
 		return copy(buffer, key[dataOffset:])
 	}
 
diff --git a/bptree/value.go b/bptree/value.go
index 373d116..0ff9549 100644
--- a/bptree/value.go
+++ b/bptree/value.go
@@ -49,7 +49,7 @@ func (vf valueFactory) ReadValue(value value, dataOffset int, buffer []byte) int
 		return copy(buffer, value[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= valuePrefixSize {
+	if len(buffer) <= valuePrefixSize-dataOffset {
 		return copy(buffer, value[dataOffset:])
 	}
 
-- 
2.43.0


From 444ed0b9036b4dc4840baf61074ea1b0f3b1663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 10/11] fix: a page that has become the leaf must not be taken
 for a non-leaf

When removing a key makes the root lose its last but one child, the height
decreases and the levels of the record path shift, so that the leaf may come
to be where its parent was. Looked at as a non-leaf it seems to be empty,
unless it or the leaf before it lies beyond 4 GiB in the file.
---
 bptree/bptree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index cd2e167..8ecf143 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -464,6 +464,11 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 }
 
 func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
+	if i == len(*recordPath)-1 {
+		// the height has been decreased and the leaf is here now
+		return
+	}
+
 	nonLeafAddr := (*recordPath)[i].NodeAddr
 	nonLeafController1 := bpt.getNonLeafController(nonLeafAddr)
 
-- 
2.43.0


From dfa2cc8b18b521a6d17829900540010773f03d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 11/11] fix: opening a file of the other kind of dictionary
 panicked, or took it for a dictionary of no slots and spoiled it

---
 bptree/bptree.go   | 14 ++++++++++++++
 dict.go            |  9 +++++++++
 hashmap/hashmap.go | 14 ++++++++++++++
 ordereddict.go     |  9 +++++++++
 4 files changed, 46 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 8ecf143..425bf55 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -88,6 +88,20 @@ func (bpt *BPTree) Load(infoAddr int64) {
 	bpt.payloadSize = int(info.PayloadSize)
 }
 
+// CanLoad checks whether there seems to be a B+ tree, and not something
+// else, stored with the given info address.
+func (bpt *BPTree) CanLoad(infoAddr int64) bool {
+	data := bytes.NewReader(bpt.fileStorage.AccessSpace(infoAddr))
+	var info bpTreeInfo
+
+	if err := binary.Read(data, binary.BigEndian, &info); err != nil {
+		return false
+	}
+
+	// the info of a hash map begins with its size and not with a zero
+	return info.RootAddr>>56 == 0 && info.Height >= 1 && info.LeafCount >= 1
+}
+
 // AddRecord adds the given record to the B+ tree.
 // If no record with an identical key exists in the B+ tree,
 // it adds the record and then returns true, otherwise it
diff --git a/dict.go b/dict.go
index 692e3be..1192cda 100644
--- a/dict.go
+++ b/dict.go
@@ -1,6 +1,8 @@
 package plainkv
 
 import (
+	"errors"
+
 	"github.com/roy2220/fsm"
 	"github.com/roy2220/plainkv/hashmap"
 )
@@ -25,6 +27,11 @@ func OpenDict(fileName string, createFileIfNotExists bool) (*Dict, error) {
 	if hashMapInfoAddr := d.fileStorage.PrimarySpace(); hashMapInfoAddr < 0 {
 		d.hashMap.Create()
 	} else {
+		if !d.hashMap.CanLoad(hashMapInfoAddr) {
+			d.fileStorage.Close()
+			return nil, errNotDict
+		}
+
 		d.hashMap.Load(hashMapInfoAddr)
 	}
 
@@ -109,3 +116,5 @@ type DictStats struct {
 	NumberOfHashItems    int
 	PayloadSize          int
 }
+
+var errNotDict = errors.New("plainkv: not a dictionary")
diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index b89d6a5..0046fbb 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -100,6 +100,20 @@ func (hm *HashMap) Load(infoAddr int64) {
 	hm.payloadSize = int(info.PayloadSize)
 }
 
+// CanLoad checks whether there seems to be a hash map, and not something
+// else, stored with the given info address.
+func (hm *HashMap) CanLoad(infoAddr int64) bool {
+	buffer := proto.NewBuffer(hm.fileStorage.AccessSpace(infoAddr))
+	var info protocol.HashMapInfo
+
+	if err := buffer.DecodeMessage(&info); err != nil {
+		return false
+	}
+
+	// the info of a B+ tree begins with a zero and decodes as an empty message
+	return info.SlotDirCount >= 1 && info.SlotCount >= 1
+}
+
 // AddItem adds the given item to the hash map.
 // If no item matched exists in the hash map, it adds the item
 // and then returns true, otherwise it returns false and the
diff --git a/ordereddict.go b/ordereddict.go
index 025f6e0..b5bca19 100644
--- a/ordereddict.go
+++ b/ordereddict.go
@@ -1,6 +1,8 @@
 package plainkv
 
 import (
+	"errors"
+
 	"github.com/roy2220/fsm"
 	"github.com/roy2220/plainkv/bptree"
 )
@@ -25,6 +27,11 @@ func OpenOrderedDict(fileName string, createFileIfNotExists bool) (*OrderedDict,
 	if bpTreeInfoAddr := od.fileStorage.PrimarySpace(); bpTreeInfoAddr < 0 {
 		od.bpTree.Create()
 	} else {
+		if !od.bpTree.CanLoad(bpTreeInfoAddr) {
+			od.fileStorage.Close()
+			return nil, errNotOrderedDict
+		}
+
 		od.bpTree.Load(bpTreeInfoAddr)
 	}
 
@@ -126,3 +133,5 @@ var (
 	// MaxKey presents the maximum key in an ordered dictionary.
 	MaxKey = bptree.MaxKey
 )
+
+var errNotOrderedDict = errors.New("plainkv: not an ordered dictionary")
-- 
2.43.0

