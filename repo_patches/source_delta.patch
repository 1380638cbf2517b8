From d9e555ce9bbcab87b7d5802923845220f6d96d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 01/30] fix: CalcK must end for tree sizes over 2^62

---
 merkle/util_merkle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle/util_merkle.go b/merkle/util_merkle.go
index 90e91bc..f3318ad 100644
--- a/merkle/util_merkle.go
+++ b/merkle/util_merkle.go
@@ -75,7 +75,7 @@ func IsPow2(n int64) bool {
 // CalcK returns the largest value that is a power of 2, less than n
 func CalcK(n int64) int64 {
 	k := int64(1)
-	for (k << 1) < n {
+	for k < (n>>1)+(n&1) { // same as k*2 < n, without the overflow
 		k <<= 1
 	}
 	return k
-- 
2.43.0


From 3630a1ef71ddfe92be9b69e1eb5622e61bea10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 02/30] fix: reject inclusion proofs with a path longer than
 the tree is deep

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index abb7716..d52dd84 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -142,6 +142,9 @@ func VerifyLogInclusionProof(self *pb.LogInclusionProofResponse, leafHash []byte
 	fn, sn := self.LeafIndex, self.TreeSize-1
 	r := leafHash
 	for _, p := range self.AuditPath {
+		if sn == 0 { // the path is longer than the tree is deep
+			return ErrVerificationFailed
+		}
 		if (fn == sn) || ((fn & 1) == 1) {
 			r = merkle.NodeHash(p, r)
 			for !((fn == 0) || ((fn & 1) == 1)) {
-- 
2.43.0


From 924cb5db43f61e92223b752381d047d1739ad86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 03/30] fix: VerifyEntries must check the number of hashes it
 gets for the previous tree

---
 verifiable/api_highlevel_log.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index aa791e0..799fb0a 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -206,6 +206,14 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 		if err != nil {
 			return err
 		}
+		// the path must be one hash per complete subtree of the previous tree
+		subTrees := 0
+		for z := prev.TreeSize; z > 0; z &= z - 1 {
+			subTrees++
+		}
+		if len(p.AuditPath) != subTrees {
+			return ErrVerificationFailed
+		}
 		var firstHash []byte
 		for _, b := range p.AuditPath {
 			if firstHash == nil {
-- 
2.43.0


From 24ef8d89097517476f1be1d0c9b2f3f147f25434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 04/30] fix: VerifiedTreeHead must refuse a head of another
 size than asked for

---
 verifiable/api_highlevel_log.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index 799fb0a..3630dd8 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -150,6 +150,11 @@ func (log *Log) VerifiedTreeHead(ctx context.Context, prev *pb.LogTreeHashRespon
 		return nil, err
 	}
 
+	// Must be what we asked for
+	if treeSize != Head && head.TreeSize != treeSize {
+		return nil, ErrVerificationFailed
+	}
+
 	if prev != nil {
 		err = log.VerifyConsistency(ctx, prev, head)
 		if err != nil {
-- 
2.43.0


From e006249ce355e283f7641e55c1192bc1f9b40abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 05/30] fix: MapTreeHash must report errors, and give a head
 for an empty map

---
 verifiable/service_map_tree_hash.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index f3df948..f703dd2 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -56,10 +56,13 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 			return status.Errorf(codes.InvalidArgument, "bad tree size")
 		}
 
-		// Need this for response
-		mutHead, err := lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
-		if err != nil {
-			return err
+		// Need this for response, the mutation log of an empty map has no root hash
+		mutHead := &pb.LogTreeHash{}
+		if treeSize != 0 {
+			mutHead, err = lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
+			if err != nil {
+				return err
+			}
 		}
 
 		// Get the root node for tree size
@@ -87,6 +90,7 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		if !ok {
 			err = status.Errorf(codes.Internal, "unknown err: %s", err)
 		}
+		return nil, err
 	}
 
 	return rv, nil
-- 
2.43.0


From 7d7ade8c97edbccc4d395d35698213f4141ae183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:12 +0000
Subject: [PATCH 06/30] fix: VerifyMap must call the audit function only for
 mutations that change the map

---
 verifiable/util_map_audit.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index ab8f4bc..79a7b89 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -265,7 +265,6 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				if err != nil {
 					return err
 				}
-				return nil
 			}
 
 			// Save for next time
-- 
2.43.0


From 23e6662eb0a19995c661d2c8f0a626a18fda9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 07/30] fix: VerifiedMapState must refuse a head of another
 size than asked for

---
 verifiable/api_highlevel_map.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index ed1db5f..fa1291a 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -105,6 +105,11 @@ func (vmap *Map) VerifiedMapState(ctx context.Context, prev *MapTreeState, treeS
 		return nil, err
 	}
 
+	// If we asked for a specific size, then that is what we must get
+	if treeSize != Head && mapHead.GetMutationLog().GetTreeSize() != treeSize {
+		return nil, ErrVerificationFailed
+	}
+
 	// Short-cut: If prev is nil, and we have no size yet, then we are nil too
 	// since while a map head may be valid, the logs can't be.
 	if prev == nil && mapHead.GetMutationLog().GetTreeSize() == 0 {
-- 
2.43.0


From b7d9664546004e59928afedce1ba81408fb949fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 08/30] fix: a redacted entry must keep its format

---
 verifiable/util_permissions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 2b89308..5d0f408 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -94,6 +94,7 @@ func filterLeafData(ld *pb.LeafData, am *AccessModifier) (*pb.LeafData, error) {
 		return &pb.LeafData{
 			LeafInput: ld.LeafInput,
 			ExtraData: rv, // redacted form
+			Format:    ld.Format,
 		}, nil
 	default:
 		return nil, ErrNotImplemented
-- 
2.43.0


From cb0044f76febbfb1a3b29bde61a8cd0feb5edf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:26 +0000
Subject: [PATCH 09/30] fix: readers with a field filter must be able to read
 absent values and deletions

---
 verifiable/util_permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 5d0f408..ea92b4c 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -75,6 +75,10 @@ func filterLeafData(ld *pb.LeafData, am *AccessModifier) (*pb.LeafData, error) {
 	if am.FieldFilter == AllFields {
 		return ld, nil
 	}
+	// Nothing to redact, e.g. the value of an absent key, or of a mutation that deletes one
+	if len(ld.GetLeafInput()) == 0 && len(ld.GetExtraData()) == 0 {
+		return ld, nil
+	}
 	// Largely just for show, but saves us working on the wrong data type
 	switch ld.Format {
 	case pb.DataFormat_JSON:
-- 
2.43.0


From cbdeebc12b627232ca525a223302dbe12be14ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 10/30] fix: clients survive malformed map proofs, heads and
 mutations

Audit paths of a wrong length, heads without a mutation log and log
entries that hold no mutation or no valid tree size made verification
panic instead of failing.
---
 verifiable/api_highlevel_map.go     |  6 +++---
 verifiable/service_map_get_value.go |  5 ++++-
 verifiable/util_json.go             |  2 +-
 verifiable/util_map_audit.go        | 16 +++++++++++-----
 verifiable/util_map_tree_state.go   |  2 +-
 5 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index fa1291a..f58f34a 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -51,11 +51,11 @@ func (vmap *Map) BlockUntilSize(ctx context.Context, treeSize int64) (*pb.MapTre
 		if err != nil {
 			return nil, err
 		}
-		if lth.MutationLog.TreeSize >= treeSize {
+		if lth.GetMutationLog().GetTreeSize() >= treeSize {
 			return lth, nil
 		}
-		if lth.MutationLog.TreeSize > lastHead {
-			lastHead = lth.MutationLog.TreeSize
+		if lth.GetMutationLog().GetTreeSize() > lastHead {
+			lastHead = lth.GetMutationLog().GetTreeSize()
 			// since we got a new tree head, reset sleep time
 			timeToSleep = time.Second
 		} else {
diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 7a6c64c..818d6af 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -150,11 +150,14 @@ var (
 
 // VerifyMapInclusionProof verifies an inclusion proof against a MapTreeHead
 func VerifyMapInclusionProof(self *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) error {
-	if self.TreeSize != head.MutationLog.TreeSize {
+	if self.TreeSize != head.GetMutationLog().GetTreeSize() {
 		return ErrVerificationFailed
 	}
 
 	kp := merkle.ConstructMapKeyPath(key)
+	if len(self.AuditPath) != len(kp) {
+		return ErrVerificationFailed
+	}
 	t := merkle.LeafHash(self.Value.GetLeafInput())
 	for i := len(kp) - 1; i >= 0; i-- {
 		p := self.AuditPath[i]
diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index 8f325ca..3df2298 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -184,7 +184,7 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	var o *pb.MapMutation
 	err := json.Unmarshal(entry.ExtraData, &o)
-	if err != nil {
+	if err != nil || o == nil {
 		return ErrVerificationFailed
 	}
 	if o.Value != nil {
diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 79a7b89..f9778b7 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -154,12 +154,12 @@ func addMutationToTree(root *mapAuditNode, mut *pb.MapMutation) ([]byte, error)
 
 	switch mut.Action {
 	case "set":
-		head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+		head.LeafHash = merkle.LeafHash(mut.GetValue().GetLeafInput())
 	case "delete":
 		head.LeafHash = defaultLeafValues[256]
 	case "update":
 		if bytes.Equal(head.LeafHash, mut.PreviousLeafHash) {
-			head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+			head.LeafHash = merkle.LeafHash(mut.GetValue().GetLeafInput())
 		}
 	default:
 		return nil, ErrVerificationFailed
@@ -304,19 +304,25 @@ func (a *auditState) CheckTreeHeadEntry(ctx context.Context, idx int64, entry *p
 		return err
 	}
 
+	// Size 1 is the first meaningful one
+	size := mth.GetMutationLog().GetTreeSize()
+	if size < 1 {
+		return ErrVerificationFailed
+	}
+
 	// Advance the state of the auditor to at least this size
-	err = a.ProcessUntilAtLeast(ctx, mth.MutationLog.TreeSize)
+	err = a.ProcessUntilAtLeast(ctx, size)
 	if err != nil {
 		return err
 	}
 
 	// Check map root hash (subtract 1 from index since size 1 is the first meaningful)
-	if !bytes.Equal(a.MapTreeHeads[mth.MutationLog.TreeSize-1], mth.RootHash) {
+	if !bytes.Equal(a.MapTreeHeads[size-1], mth.RootHash) {
 		return ErrVerificationFailed
 	}
 
 	// Check mutation log hash (subtract 1 from index since size 1 is the first meaningful)
-	if !bytes.Equal(a.MutationLogTreeHeads[mth.MutationLog.TreeSize-1], mth.MutationLog.RootHash) {
+	if !bytes.Equal(a.MutationLogTreeHeads[size-1], mth.MutationLog.RootHash) {
 		return ErrVerificationFailed
 	}
 
diff --git a/verifiable/util_map_tree_state.go b/verifiable/util_map_tree_state.go
index f51455c..569260a 100644
--- a/verifiable/util_map_tree_state.go
+++ b/verifiable/util_map_tree_state.go
@@ -33,5 +33,5 @@ type MapTreeState struct {
 
 // TreeSize is a utility method for returning the tree size of the underlying map.
 func (mts *MapTreeState) TreeSize() int64 {
-	return mts.MapTreeHead.MutationLog.TreeSize
+	return mts.MapTreeHead.GetMutationLog().GetTreeSize()
 }
-- 
2.43.0


From e97ba9cdf2a7df6cc59e7634116eb32802509aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 11/30] fix: a request that lacks parts is refused instead of
 crashing the server

Requests without a log, map, account, value or mutation, mutations with an
unknown action and writes to a server without a mutator made the server (or
its mutator, later) panic.
---
 verifiable/insertion_log.go                 | 16 ++++++++--------
 verifiable/insertion_map.go                 |  4 ++--
 verifiable/service_log_add_entry.go         | 10 +++++++++-
 verifiable/service_log_consistency_proof.go |  6 +++---
 verifiable/service_log_fetch_entries.go     |  8 ++++----
 verifiable/service_log_inclusion_proof.go   |  8 ++++----
 verifiable/service_log_tree_hash.go         |  4 ++--
 verifiable/service_map_set_value.go         | 15 +++++++++++++--
 verifiable/util_permissions.go              |  6 +++---
 verifiable/util_service_data.go             | 14 +++++++-------
 10 files changed, 55 insertions(+), 36 deletions(-)

diff --git a/verifiable/insertion_log.go b/verifiable/insertion_log.go
index 6c1d64a..afbe5f0 100644
--- a/verifiable/insertion_log.go
+++ b/verifiable/insertion_log.go
@@ -32,7 +32,7 @@ func writeOutLogTreeNodes(ctx context.Context, db KeyWriter, log *pb.LogRef, ent
 	for zz, width := entryIndex, int64(2); (zz & 1) == 1; zz, width = zz>>1, width<<1 {
 		parN := merkle.NodeHash(stack[len(stack)-2], stack[len(stack)-1])
 		stack = append(stack[:len(stack)-2], parN)
-		err := writeTreeNodeByRange(ctx, db, log.LogType, entryIndex+1-width, entryIndex+1, &pb.TreeNode{Mth: parN})
+		err := writeTreeNodeByRange(ctx, db, log.GetLogType(), entryIndex+1-width, entryIndex+1, &pb.TreeNode{Mth: parN})
 		if err != nil {
 			return nil, err
 		}
@@ -52,7 +52,7 @@ func addEntryToLog(ctx context.Context, db KeyWriter, sizeBefore int64, log *pb.
 	mtl := merkle.LeafHash(data.LeafInput)
 
 	// Now, see if we already have it stored
-	ei, err := lookupIndexByLeafHash(ctx, db, log.LogType, mtl)
+	ei, err := lookupIndexByLeafHash(ctx, db, log.GetLogType(), mtl)
 	switch err {
 	case nil:
 		if ei.Index < sizeBefore {
@@ -67,25 +67,25 @@ func addEntryToLog(ctx context.Context, db KeyWriter, sizeBefore int64, log *pb.
 	}
 
 	// First write the data
-	err = writeDataByLeafHash(ctx, db, log.LogType, mtl, data)
+	err = writeDataByLeafHash(ctx, db, log.GetLogType(), mtl, data)
 	if err != nil {
 		return nil, err
 	}
 
 	// Then write us at the index
-	err = writeLeafNodeByIndex(ctx, db, log.LogType, sizeBefore, &pb.LeafNode{Mth: mtl})
+	err = writeLeafNodeByIndex(ctx, db, log.GetLogType(), sizeBefore, &pb.LeafNode{Mth: mtl})
 	if err != nil {
 		return nil, err
 	}
 
 	// And our index by leaf hash
-	err = writeIndexByLeafHash(ctx, db, log.LogType, mtl, &pb.EntryIndex{Index: sizeBefore})
+	err = writeIndexByLeafHash(ctx, db, log.GetLogType(), mtl, &pb.EntryIndex{Index: sizeBefore})
 	if err != nil {
 		return nil, err
 	}
 
 	// Write out needed hashes
-	stack, err := fetchSubTreeHashes(ctx, db, log.LogType, createNeededStack(sizeBefore), true)
+	stack, err := fetchSubTreeHashes(ctx, db, log.GetLogType(), createNeededStack(sizeBefore), true)
 	if err != nil {
 		return nil, err
 	}
@@ -95,7 +95,7 @@ func addEntryToLog(ctx context.Context, db KeyWriter, sizeBefore int64, log *pb.
 	}
 
 	// Write log root hash
-	err = writeLogRootHashBySize(ctx, db, log.LogType, sizeBefore+1, &pb.LogTreeHash{Mth: rootHash})
+	err = writeLogRootHashBySize(ctx, db, log.GetLogType(), sizeBefore+1, &pb.LogTreeHash{Mth: rootHash})
 	if err != nil {
 		return nil, err
 	}
@@ -119,7 +119,7 @@ func applyLogAddEntry(ctx context.Context, db KeyWriter, sizeBefore int64, req *
 	}
 
 	// Special case mutation log for maps
-	if req.Log.LogType == pb.LogType_STRUCT_TYPE_MUTATION_LOG {
+	if req.GetLog().GetLogType() == pb.LogType_STRUCT_TYPE_MUTATION_LOG {
 		// Step 2 - add entries to map if needed
 		var mut pb.MapMutation
 		err = json.Unmarshal(req.Value.ExtraData, &mut)
diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index ca6fe20..fbdf9c4 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -35,12 +35,12 @@ var (
 func mutationLeafHash(mut *pb.MapMutation, prevLeafHash []byte) ([]byte, error) {
 	switch mut.Action {
 	case "set":
-		return merkle.LeafHash(mut.Value.LeafInput), nil
+		return merkle.LeafHash(mut.GetValue().GetLeafInput()), nil
 	case "delete":
 		return nullLeafHash, nil
 	case "update":
 		if bytes.Equal(prevLeafHash, mut.PreviousLeafHash) {
-			return merkle.LeafHash(mut.Value.LeafInput), nil
+			return merkle.LeafHash(mut.GetValue().GetLeafInput()), nil
 		}
 		return prevLeafHash, nil
 	default:
diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index e91ffaf..4a52acf 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -33,10 +33,18 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
 	}
 
-	if req.Log.LogType != pb.LogType_STRUCT_TYPE_LOG {
+	if req.GetLog().GetLogType() != pb.LogType_STRUCT_TYPE_LOG {
 		return nil, status.Errorf(codes.InvalidArgument, "wrong log type")
 	}
 
+	if req.GetValue() == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "no value")
+	}
+
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.Unimplemented, "read only")
+	}
+
 	ns, err := logBucket(req.Log)
 	if err != nil {
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
diff --git a/verifiable/service_log_consistency_proof.go b/verifiable/service_log_consistency_proof.go
index 8c46eb0..a371121 100644
--- a/verifiable/service_log_consistency_proof.go
+++ b/verifiable/service_log_consistency_proof.go
@@ -49,7 +49,7 @@ func (s *localServiceImpl) LogConsistencyProof(ctx context.Context, req *pb.LogC
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
 	}
 	err = s.Reader.ExecuteReadOnly(ctx, ns, func(ctx context.Context, kr KeyReader) error {
-		head, err := lookupLogTreeHead(ctx, kr, req.Log.LogType)
+		head, err := lookupLogTreeHead(ctx, kr, req.GetLog().GetLogType())
 		if err != nil {
 			return err
 		}
@@ -67,7 +67,7 @@ func (s *localServiceImpl) LogConsistencyProof(ctx context.Context, req *pb.LogC
 
 		// Ranges are good
 		ranges := merkle.SubProof(req.FromSize, 0, second, true)
-		path, err := fetchSubTreeHashes(ctx, kr, req.Log.LogType, ranges, false)
+		path, err := fetchSubTreeHashes(ctx, kr, req.GetLog().GetLogType(), ranges, false)
 		if err != nil {
 			return err
 		}
@@ -77,7 +77,7 @@ func (s *localServiceImpl) LogConsistencyProof(ctx context.Context, req *pb.LogC
 					// Would have been nice if GetSubTreeHashes could better handle these
 					return ErrNoSuchKey
 				}
-				path[i], err = calcSubTreeHash(ctx, kr, req.Log.LogType, rr[0], rr[1])
+				path[i], err = calcSubTreeHash(ctx, kr, req.GetLog().GetLogType(), rr[0], rr[1])
 				if err != nil {
 					return err
 				}
diff --git a/verifiable/service_log_fetch_entries.go b/verifiable/service_log_fetch_entries.go
index 2b4ad75..da630da 100644
--- a/verifiable/service_log_fetch_entries.go
+++ b/verifiable/service_log_fetch_entries.go
@@ -44,7 +44,7 @@ func (s *localServiceImpl) LogFetchEntries(ctx context.Context, req *pb.LogFetch
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
 	}
 	err = s.Reader.ExecuteReadOnly(ctx, ns, func(ctx context.Context, kr KeyReader) error {
-		head, err := lookupLogTreeHead(ctx, kr, req.Log.LogType)
+		head, err := lookupLogTreeHead(ctx, kr, req.GetLog().GetLogType())
 		if err != nil {
 			return err
 		}
@@ -61,19 +61,19 @@ func (s *localServiceImpl) LogFetchEntries(ctx context.Context, req *pb.LogFetch
 			return status.Errorf(codes.InvalidArgument, "tree size out of range")
 		}
 
-		hashes, err := lookupLogEntryHashes(ctx, kr, req.Log.LogType, req.First, last)
+		hashes, err := lookupLogEntryHashes(ctx, kr, req.GetLog().GetLogType(), req.First, last)
 		if err != nil {
 			return err
 		}
 
 		vals := make([]*pb.LeafData, len(hashes))
 		for i, h := range hashes {
-			v, err := lookupDataByLeafHash(ctx, kr, req.Log.LogType, h)
+			v, err := lookupDataByLeafHash(ctx, kr, req.GetLog().GetLogType(), h)
 			if err != nil {
 				return err
 			}
 
-			switch req.Log.LogType {
+			switch req.GetLog().GetLogType() {
 			case pb.LogType_STRUCT_TYPE_LOG:
 				vals[i], err = filterLeafData(v, am)
 				if err != nil {
diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index d52dd84..d2277c9 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -54,7 +54,7 @@ func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInc
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
 	}
 	err = s.Reader.ExecuteReadOnly(ctx, ns, func(ctx context.Context, kr KeyReader) error {
-		head, err := lookupLogTreeHead(ctx, kr, req.Log.LogType)
+		head, err := lookupLogTreeHead(ctx, kr, req.GetLog().GetLogType())
 		if err != nil {
 			return err
 		}
@@ -73,7 +73,7 @@ func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInc
 			leafIndex = req.LeafIndex
 		} else {
 			// Then we must fetch the index
-			ei, err := lookupIndexByLeafHash(ctx, kr, req.Log.LogType, req.MtlHash)
+			ei, err := lookupIndexByLeafHash(ctx, kr, req.GetLog().GetLogType(), req.MtlHash)
 			if err != nil {
 				return err
 			}
@@ -93,7 +93,7 @@ func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInc
 
 		// Ranges are good
 		ranges := merkle.Path(leafIndex, 0, treeSize)
-		path, err := fetchSubTreeHashes(ctx, kr, req.Log.LogType, ranges, false)
+		path, err := fetchSubTreeHashes(ctx, kr, req.GetLog().GetLogType(), ranges, false)
 		if err != nil {
 			return err
 		}
@@ -103,7 +103,7 @@ func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInc
 					// Would have been nice if GetSubTreeHashes could better handle these
 					return ErrNotFound
 				}
-				path[i], err = calcSubTreeHash(ctx, kr, req.Log.LogType, rr[0], rr[1])
+				path[i], err = calcSubTreeHash(ctx, kr, req.GetLog().GetLogType(), rr[0], rr[1])
 				if err != nil {
 					return err
 				}
diff --git a/verifiable/service_log_tree_hash.go b/verifiable/service_log_tree_hash.go
index 066616b..aa8c984 100644
--- a/verifiable/service_log_tree_hash.go
+++ b/verifiable/service_log_tree_hash.go
@@ -42,7 +42,7 @@ func (s *localServiceImpl) LogTreeHash(ctx context.Context, req *pb.LogTreeHashR
 		return nil, status.Errorf(codes.Internal, "unknown err: %s", err)
 	}
 	err = s.Reader.ExecuteReadOnly(ctx, ns, func(ctx context.Context, kr KeyReader) error {
-		head, err := lookupLogTreeHead(ctx, kr, req.Log.LogType)
+		head, err := lookupLogTreeHead(ctx, kr, req.GetLog().GetLogType())
 		if err != nil {
 			return err
 		}
@@ -58,7 +58,7 @@ func (s *localServiceImpl) LogTreeHash(ctx context.Context, req *pb.LogTreeHashR
 			return status.Errorf(codes.InvalidArgument, "bad tree size")
 		}
 
-		m, err := lookupLogRootHashBySize(ctx, kr, req.Log.LogType, req.TreeSize)
+		m, err := lookupLogRootHashBySize(ctx, kr, req.GetLog().GetLogType(), req.TreeSize)
 		if err != nil {
 			return err
 		}
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index 81ed69d..6772468 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -51,6 +51,17 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
 	}
 
+	switch req.GetMutation().GetAction() {
+	case "set", "update", "delete":
+		// these can be applied
+	default:
+		return nil, status.Errorf(codes.InvalidArgument, "unknown action")
+	}
+
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.Unimplemented, "read only")
+	}
+
 	// Since this whacks in timestamp (deliberately, so that mutation log receives unique mutations),
 	// we must keep this rather than regenerate another object.
 	mm, err := makeJSONMutationEntry(req)
@@ -71,8 +82,8 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 	err = s.Mutator.QueueMutation(ctx, ns, &pb.Mutation{
 		LogAddEntry: &pb.LogAddEntryRequest{
 			Log: &pb.LogRef{
-				Account: req.Map.Account,
-				Name:    req.Map.Name,
+				Account: req.GetMap().GetAccount(),
+				Name:    req.GetMap().GetName(),
 				LogType: pb.LogType_STRUCT_TYPE_MUTATION_LOG,
 			},
 			Value: mutData,
diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index ea92b4c..7fa97b4 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -55,15 +55,15 @@ var (
 )
 
 func (s *localServiceImpl) verifyAccessForMap(ctx context.Context, vmap *pb.MapRef, perm pb.Permission) (*AccessModifier, error) {
-	return s.AccessPolicy.VerifyAllowed(ctx, vmap.Account.Id, vmap.Account.ApiKey, vmap.Name, perm)
+	return s.AccessPolicy.VerifyAllowed(ctx, vmap.GetAccount().GetId(), vmap.GetAccount().GetApiKey(), vmap.GetName(), perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLog(ctx context.Context, log *pb.LogRef, perm pb.Permission) (*AccessModifier, error) {
-	return s.AccessPolicy.VerifyAllowed(ctx, log.Account.Id, log.Account.ApiKey, log.Name, perm)
+	return s.AccessPolicy.VerifyAllowed(ctx, log.GetAccount().GetId(), log.GetAccount().GetApiKey(), log.GetName(), perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLogOperation(ctx context.Context, log *pb.LogRef, op int) (*AccessModifier, error) {
-	perm, ok := operationForLogType[log.LogType][op]
+	perm, ok := operationForLogType[log.GetLogType()][op]
 	if !ok {
 		return nil, ErrNotAuthorized
 	}
diff --git a/verifiable/util_service_data.go b/verifiable/util_service_data.go
index 31bebb5..73c553c 100644
--- a/verifiable/util_service_data.go
+++ b/verifiable/util_service_data.go
@@ -240,25 +240,25 @@ func toDoubleIntBinary(i, j uint64) []byte {
 }
 
 func logBucket(log *pb.LogRef) ([]byte, error) {
-	if log.LogType == pb.LogType_STRUCT_TYPE_LOG {
+	if log.GetLogType() == pb.LogType_STRUCT_TYPE_LOG {
 		return objecthash.ObjectHash(map[string]interface{}{
-			"account": log.Account.Id,
-			"name":    log.Name,
+			"account": log.GetAccount().GetId(),
+			"name":    log.GetName(),
 			"type":    "log",
 		})
 	}
 	// else, we pretend to be the map
 	return objecthash.ObjectHash(map[string]interface{}{
-		"account": log.Account.Id,
-		"name":    log.Name,
+		"account": log.GetAccount().GetId(),
+		"name":    log.GetName(),
 		"type":    "map",
 	})
 }
 
 func mapBucket(vmap *pb.MapRef) ([]byte, error) {
 	return objecthash.ObjectHash(map[string]interface{}{
-		"account": vmap.Account.Id,
-		"name":    vmap.Name,
+		"account": vmap.GetAccount().GetId(),
+		"name":    vmap.GetName(),
 		"type":    "map",
 	})
 }
-- 
2.43.0


From 4590931bc9b250140bd8b92068f11f6217c99b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 12/30] fix: the inclusion proof of an unknown entry is not
 found

It was reported as an internal error, which a client takes for a failure of
the server.
---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index d2277c9..0d644b9 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -74,6 +74,9 @@ func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInc
 		} else {
 			// Then we must fetch the index
 			ei, err := lookupIndexByLeafHash(ctx, kr, req.GetLog().GetLogType(), req.MtlHash)
+			if err == ErrNoSuchKey {
+				return status.Errorf(codes.NotFound, "cannot find it")
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 465a94231a3e1ce6c2a59de9c5163dcd9b55677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 13/30] fix: a consistency proof must consist of hashes

Path elements of other lengths let one later root be the outcome of two
different splits of the same bytes, so that a server could prove two different
earlier heads of one size consistent with it.
---
 verifiable/service_log_consistency_proof.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verifiable/service_log_consistency_proof.go b/verifiable/service_log_consistency_proof.go
index a371121..15ef6b9 100644
--- a/verifiable/service_log_consistency_proof.go
+++ b/verifiable/service_log_consistency_proof.go
@@ -118,6 +118,13 @@ func VerifyLogConsistencyProof(self *pb.LogConsistencyProofResponse, first, seco
 		return ErrVerificationFailed
 	}
 
+	// else the boundary between two hashes that are joined could be moved
+	for _, c := range self.AuditPath {
+		if len(c) != 32 {
+			return ErrVerificationFailed
+		}
+	}
+
 	var proof [][]byte
 	if merkle.IsPow2(self.FromSize) {
 		proof = make([][]byte, 1+len(self.AuditPath))
-- 
2.43.0


From de0888724f4408e65498ac8150e46293789eefc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 14/30] fix: the batch mutator must not drop a mutation for
 another object

When the next mutation in the queue was for another log or map than the batch,
the one that started the batch was applied again in its place.
---
 mutator/batch/mutator_batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index e1ba19f..d82938f 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -121,7 +121,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 	cnt := bm.Conf.BatchSize
 	for {
 		if !bytes.Equal(seed.ns, obj.ns) {
-			return curSize, seed, nil
+			return curSize, obj, nil
 		}
 		curSize, err = verifiable.ApplyMutation(ctx, kw, curSize, obj.mut)
 		if err != nil {
-- 
2.43.0


From e11621b371f89a03d2614d2c0307f833954efe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 15/30] fix: waiting for an entry asks again after a failed
 answer and ends with its context

---
 verifiable/api_highlevel_log.go | 30 +++++++++++++++++++++---------
 verifiable/api_highlevel_map.go |  5 ++++-
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index 3630dd8..547620b 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -24,6 +24,8 @@ import (
 	"github.com/continusec/verifiabledatastructures/pb"
 
 	"golang.org/x/net/context"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 )
 
 // VerifyInclusion will fetch a proof the the specified MerkleTreeHash is included in the
@@ -92,16 +94,13 @@ func (log *Log) BlockUntilPresent(ctx context.Context, leaf []byte) (*pb.LogTree
 			return nil, err
 		}
 		if lth.TreeSize > lastHead {
-			lastHead = lth.TreeSize
 			err = log.VerifyInclusion(ctx, lth, leaf)
-			switch err {
-			case nil: // we found it
+			if err == nil { // we found it
 				return lth, nil
-			case ErrNotFound:
-				// no good, continue
-			default:
-				// Should return error, but we're struggling to differentiate not found vs other errors
-				//return nil, err
+			}
+			if err == ErrNotFound || status.Code(err) == codes.NotFound {
+				// no good, not in this tree head. After other errors we ask again, even if there is no newer one.
+				lastHead = lth.TreeSize
 			}
 			// since we got a new tree head, reset sleep time
 			timeToSleep = time.Second
@@ -109,7 +108,20 @@ func (log *Log) BlockUntilPresent(ctx context.Context, leaf []byte) (*pb.LogTree
 			// no luck, snooze a bit longer
 			timeToSleep *= 2
 		}
-		time.Sleep(timeToSleep)
+		err = sleep(ctx, timeToSleep)
+		if err != nil {
+			return nil, err
+		}
+	}
+}
+
+// sleep returns early, with an error, if the context ends meanwhile.
+func sleep(ctx context.Context, d time.Duration) error {
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-time.After(d):
+		return nil
 	}
 }
 
diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index f58f34a..21d0b68 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -62,7 +62,10 @@ func (vmap *Map) BlockUntilSize(ctx context.Context, treeSize int64) (*pb.MapTre
 			// no luck, snooze a bit longer
 			timeToSleep *= 2
 		}
-		time.Sleep(timeToSleep)
+		err = sleep(ctx, timeToSleep)
+		if err != nil {
+			return nil, err
+		}
 	}
 }
 
-- 
2.43.0


From 15df2fdf14ba13fb2fd5dfd0d6477442e21c4f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 16/30] fix: the batch mutator must keep its own copy of a
 mutation

---
 mutator/batch/mutator_batch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index d82938f..a00be62 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -200,6 +200,7 @@ func (bm *batchMutatorImpl) consume() {
 
 // QueueMutation applies the mutation, normally asynchronously, but synchronously for the InstantMutator
 func (bm *batchMutatorImpl) QueueMutation(ctx context.Context, ns []byte, mut *pb.Mutation) error {
-	bm.Ch <- &chObject{ns: ns, mut: mut}
+	// the caller may reuse the memory of its mutation once we return
+	bm.Ch <- &chObject{ns: ns, mut: proto.Clone(mut).(*pb.Mutation)}
 	return nil
 }
-- 
2.43.0


From 7b51cb0aa545346a0b716510c3565cd7bb34387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 17/30] fix: the REST client must not address another object

---
 server/httprest/client_http_rest.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index dbc848e..907e6cf 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -66,7 +66,22 @@ func (c *Client) MustDial() pb.VerifiableDataStructuresServiceServer {
 
 type httpRestImpl Client
 
+// canAddress returns nil if the paths of the server's API can address the object. Anything else
+// could read as the path of another object, or of another operation.
+func canAddress(account *pb.AccountRef, name string) error {
+	if account.GetId() == "" || strings.Trim(account.GetId(), "0123456789") != "" {
+		return verifiable.ErrInvalidRequest
+	}
+	if name == "" || strings.Trim(name, "0123456789abcdefghijklmnopqrstuvwxyz-_") != "" {
+		return verifiable.ErrInvalidRequest
+	}
+	return nil
+}
+
 func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	if err := canAddress(log.GetAccount(), log.GetName()); err != nil {
+		return nil, nil, err
+	}
 	prefix := ""
 	switch log.LogType {
 	case pb.LogType_STRUCT_TYPE_LOG:
@@ -82,6 +97,9 @@ func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data
 }
 
 func (c *httpRestImpl) makeMapRequest(vmap *pb.MapRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	if err := canAddress(vmap.GetAccount(), vmap.GetName()); err != nil {
+		return nil, nil, err
+	}
 	return c.makeRequest(vmap.Account, method, fmt.Sprintf("/account/%s/map/%s", vmap.Account.Id, vmap.Name)+path, data, headers)
 }
 
-- 
2.43.0


From 3819c3aa5b3581a76b7fec4577a298a05f269e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 18/30] fix: an update over REST with an empty previous hash is
 not a set

---
 server/httprest/server_http_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index fc8ef01..137b069 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -664,7 +664,7 @@ func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[s
 		return
 	}
 
-	if len(prevLeafHash) == 0 {
+	if len(r.Header.Values("X-Previous-LeafHash")) == 0 {
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action: "set",
 			Key:    key,
-- 
2.43.0


From 65c1854421238d0033b5f5a91910c302683e46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 19/30] fix: the REST client must not crash on a proof with a
 negative position

---
 server/httprest/client_http_rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index 907e6cf..8f67472 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -301,7 +301,7 @@ func parseHeadersForProof(headers http.Header) ([][]byte, error) {
 					if err != nil {
 						return nil, err
 					}
-					if idx < 256 {
+					if idx >= 0 && idx < 256 {
 						prv[idx] = bs
 					}
 				}
-- 
2.43.0


From 2eaaa9aea23e12c9b7cf5aef98e6c8f365e312d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 20/30] fix: a request over REST ends with its context

---
 server/httprest/client_http_rest.go | 34 ++++++++++++++---------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index 8f67472..add8c79 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -78,7 +78,7 @@ func canAddress(account *pb.AccountRef, name string) error {
 	return nil
 }
 
-func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+func (c *httpRestImpl) makeLogRequest(ctx context.Context, log *pb.LogRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
 	if err := canAddress(log.GetAccount(), log.GetName()); err != nil {
 		return nil, nil, err
 	}
@@ -93,20 +93,20 @@ func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data
 	default:
 		return nil, nil, verifiable.ErrInvalidRequest
 	}
-	return c.makeRequest(log.Account, method, prefix+path, data, headers)
+	return c.makeRequest(ctx, log.Account, method, prefix+path, data, headers)
 }
 
-func (c *httpRestImpl) makeMapRequest(vmap *pb.MapRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+func (c *httpRestImpl) makeMapRequest(ctx context.Context, vmap *pb.MapRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
 	if err := canAddress(vmap.GetAccount(), vmap.GetName()); err != nil {
 		return nil, nil, err
 	}
-	return c.makeRequest(vmap.Account, method, fmt.Sprintf("/account/%s/map/%s", vmap.Account.Id, vmap.Name)+path, data, headers)
+	return c.makeRequest(ctx, vmap.Account, method, fmt.Sprintf("/account/%s/map/%s", vmap.Account.Id, vmap.Name)+path, data, headers)
 }
 
 // Intended for internal use, MakeRequest makes an HTTP request and converts the error
 // code to those appropriate for the rest of the library.
-func (c *httpRestImpl) makeRequest(account *pb.AccountRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
-	req, err := http.NewRequest(method, c.BaseURL+restAPIVersion+path, bytes.NewReader(data))
+func (c *httpRestImpl) makeRequest(ctx context.Context, account *pb.AccountRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	req, err := http.NewRequestWithContext(ctx, method, c.BaseURL+restAPIVersion+path, bytes.NewReader(data))
 	if err != nil {
 		return nil, nil, err
 	}
@@ -153,7 +153,7 @@ func (c *httpRestImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryReque
 	if err != nil {
 		return nil, err
 	}
-	contents, _, err := c.makeLogRequest(req.Log, "POST", "/entry/extra", reqData, nil)
+	contents, _, err := c.makeLogRequest(ctx, req.Log, "POST", "/entry/extra", reqData, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -167,7 +167,7 @@ func (c *httpRestImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryReque
 
 // LogFetchEntries fetches entries from the log
 func (c *httpRestImpl) LogFetchEntries(ctx context.Context, req *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
-	contents, _, err := c.makeLogRequest(req.Log, "GET", fmt.Sprintf("/entries/%d-%d%s", req.First, req.Last, "/extra"), nil, nil)
+	contents, _, err := c.makeLogRequest(ctx, req.Log, "GET", fmt.Sprintf("/entries/%d-%d%s", req.First, req.Last, "/extra"), nil, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -182,7 +182,7 @@ func (c *httpRestImpl) LogFetchEntries(ctx context.Context, req *pb.LogFetchEntr
 
 // LogTreeHash fetches the tree hash from the log
 func (c *httpRestImpl) LogTreeHash(ctx context.Context, req *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
-	contents, _, err := c.makeLogRequest(req.Log, "GET", fmt.Sprintf("/tree/%d", req.TreeSize), nil, nil)
+	contents, _, err := c.makeLogRequest(ctx, req.Log, "GET", fmt.Sprintf("/tree/%d", req.TreeSize), nil, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -197,7 +197,7 @@ func (c *httpRestImpl) LogTreeHash(ctx context.Context, req *pb.LogTreeHashReque
 // LogInclusionProof fetches an inclusion proof from the logs
 func (c *httpRestImpl) LogInclusionProof(ctx context.Context, req *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
 	if len(req.MtlHash) == 0 {
-		contents, _, err := c.makeLogRequest(req.Log, "GET", fmt.Sprintf("/tree/%d/inclusion/%d", req.TreeSize, req.LeafIndex), nil, nil)
+		contents, _, err := c.makeLogRequest(ctx, req.Log, "GET", fmt.Sprintf("/tree/%d/inclusion/%d", req.TreeSize, req.LeafIndex), nil, nil)
 		if err != nil {
 			return nil, err
 		}
@@ -208,7 +208,7 @@ func (c *httpRestImpl) LogInclusionProof(ctx context.Context, req *pb.LogInclusi
 		}
 		return &rv, nil
 	}
-	contents, _, err := c.makeLogRequest(req.Log, "GET", fmt.Sprintf("/tree/%d/inclusion/h/%s", req.TreeSize, hex.EncodeToString(req.MtlHash)), nil, nil)
+	contents, _, err := c.makeLogRequest(ctx, req.Log, "GET", fmt.Sprintf("/tree/%d/inclusion/h/%s", req.TreeSize, hex.EncodeToString(req.MtlHash)), nil, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -222,7 +222,7 @@ func (c *httpRestImpl) LogInclusionProof(ctx context.Context, req *pb.LogInclusi
 
 // LogConsistencyProof fetches a consistency proof from the log
 func (c *httpRestImpl) LogConsistencyProof(ctx context.Context, req *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
-	contents, _, err := c.makeLogRequest(req.Log, "GET", fmt.Sprintf("/tree/%d/consistency/%d", req.TreeSize, req.FromSize), nil, nil)
+	contents, _, err := c.makeLogRequest(ctx, req.Log, "GET", fmt.Sprintf("/tree/%d/consistency/%d", req.TreeSize, req.FromSize), nil, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -238,7 +238,7 @@ func (c *httpRestImpl) LogConsistencyProof(ctx context.Context, req *pb.LogConsi
 func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
 	switch req.Mutation.Action {
 	case "delete":
-		contents, _, err := c.makeMapRequest(req.Map, "DELETE", "/key/h/"+hex.EncodeToString(req.Mutation.Key), nil, nil)
+		contents, _, err := c.makeMapRequest(ctx, req.Map, "DELETE", "/key/h/"+hex.EncodeToString(req.Mutation.Key), nil, nil)
 		if err != nil {
 			return nil, err
 		}
@@ -253,7 +253,7 @@ func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueReque
 		if err != nil {
 			return nil, err
 		}
-		contents, _, err := c.makeMapRequest(req.Map, "PUT", "/key/h/"+hex.EncodeToString(req.Mutation.Key)+"/extra", reqData, nil)
+		contents, _, err := c.makeMapRequest(ctx, req.Map, "PUT", "/key/h/"+hex.EncodeToString(req.Mutation.Key)+"/extra", reqData, nil)
 		if err != nil {
 			return nil, err
 		}
@@ -268,7 +268,7 @@ func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueReque
 		if err != nil {
 			return nil, err
 		}
-		contents, _, err := c.makeMapRequest(req.Map, "PUT", "/key/h/"+hex.EncodeToString(req.Mutation.Key)+"/extra", reqData, [][2]string{
+		contents, _, err := c.makeMapRequest(ctx, req.Map, "PUT", "/key/h/"+hex.EncodeToString(req.Mutation.Key)+"/extra", reqData, [][2]string{
 			[2]string{"X-Previous-LeafHash", hex.EncodeToString(req.Mutation.PreviousLeafHash)},
 		})
 		if err != nil {
@@ -313,7 +313,7 @@ func parseHeadersForProof(headers http.Header) ([][]byte, error) {
 
 // MapGetValue gets the value from the map
 func (c *httpRestImpl) MapGetValue(ctx context.Context, req *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
-	value, headers, err := c.makeMapRequest(req.Map, "GET", fmt.Sprintf("/tree/%d/key/h/%s%s", req.TreeSize, hex.EncodeToString(req.Key), "/extra"), nil, nil)
+	value, headers, err := c.makeMapRequest(ctx, req.Map, "GET", fmt.Sprintf("/tree/%d/key/h/%s%s", req.TreeSize, hex.EncodeToString(req.Key), "/extra"), nil, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -343,7 +343,7 @@ func (c *httpRestImpl) MapGetValue(ctx context.Context, req *pb.MapGetValueReque
 
 // MapTreeHash gets the tree hash from the map
 func (c *httpRestImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
-	contents, _, err := c.makeMapRequest(req.Map, "GET", fmt.Sprintf("/tree/%d", req.TreeSize), nil, nil)
+	contents, _, err := c.makeMapRequest(ctx, req.Map, "GET", fmt.Sprintf("/tree/%d", req.TreeSize), nil, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 154a812fc35a482615e5333ffa423ad36914f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 21/30] fix: the REST client must not hand out an entry that is
 not there

---
 server/httprest/client_http_rest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index add8c79..f8a8dac 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -177,6 +177,11 @@ func (c *httpRestImpl) LogFetchEntries(ctx context.Context, req *pb.LogFetchEntr
 	if err != nil {
 		return nil, err
 	}
+	for _, entry := range rv.Values {
+		if entry == nil {
+			return nil, verifiable.ErrInvalidRequest
+		}
+	}
 	return &rv, nil
 }
 
-- 
2.43.0


From 1f1983b6c9bffa2bdb7c6602c02fbf6a6ead92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 22/30] fix: the REST server must tell bad requests and absent
 entries from its own failures

---
 server/httprest/server_http_handler.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index 137b069..7f0570d 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -284,6 +284,18 @@ func writeResponseHeader(logger *log.Logger, w http.ResponseWriter, err error) {
 		logger.Println(err.Error())
 	}
 
+	switch err {
+	case verifiable.ErrInvalidRequest:
+		w.WriteHeader(http.StatusBadRequest)
+		return
+	case verifiable.ErrNotFound:
+		w.WriteHeader(http.StatusNotFound)
+		return
+	case verifiable.ErrNotAuthorized:
+		w.WriteHeader(http.StatusUnauthorized)
+		return
+	}
+
 	s, ok := status.FromError(err)
 	if !ok {
 		w.WriteHeader(http.StatusInternalServerError)
-- 
2.43.0


From 7dd55800021f3d52bc4b4cd3fe8f113f2175adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 23/30] fix: the badger store must not take values that it
 cannot read for absent

---
 storage/badger/storage_badger.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 0e2a117..8ac55d3 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -129,9 +129,12 @@ type badgerReaderWriter struct {
 
 func (db *badgerReaderWriter) Get(ctx context.Context, key []byte, value proto.Message) error {
 	item, err := db.Tx.Get(key)
-	if err != nil {
+	if err == badger.ErrKeyNotFound {
 		return verifiable.ErrNoSuchKey
 	}
+	if err != nil {
+		return err
+	}
 	return item.Value(func(bb []byte) error {
 		return proto.Unmarshal(bb, value)
 	})
-- 
2.43.0


From 8e664c7c38b71b182591e74f501d620a659e1f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 24/30] fix: updates of a badger store must take place one at a
 time

---
 storage/badger/storage_badger.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 8ac55d3..222a956 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -36,7 +36,14 @@ type Storage struct {
 	Path string
 
 	dbLock sync.RWMutex
-	dbs    map[string]*badger.DB
+	dbs    map[string]*namespaceDB
+}
+
+// namespaceDB is the DB for one namespace. Badger itself lets updates run concurrently
+// and fails those that conflict, while only one is to take place at a time.
+type namespaceDB struct {
+	*badger.DB
+	updateLock sync.Mutex
 }
 
 // Close calls the underlying Close method on the BoltDBs which releases file locks.
@@ -51,7 +58,7 @@ func (bbs *Storage) Close() {
 }
 
 // Returns nil if not found
-func (bbs *Storage) getDB(key string) *badger.DB {
+func (bbs *Storage) getDB(key string) *namespaceDB {
 	bbs.dbLock.RLock()
 	defer bbs.dbLock.RUnlock()
 
@@ -68,7 +75,7 @@ func (bbs *Storage) getDB(key string) *badger.DB {
 }
 
 // getOrCreateDB gets and/or creates DB
-func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
+func (bbs *Storage) getOrCreateDB(ns []byte) (*namespaceDB, error) {
 	key := hex.EncodeToString(ns)
 
 	// First try with simple read lock
@@ -82,7 +89,7 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
 	defer bbs.dbLock.Unlock()
 
 	if bbs.dbs == nil {
-		bbs.dbs = make(map[string]*badger.DB)
+		bbs.dbs = make(map[string]*namespaceDB)
 	}
 
 	// Check again, as may have been added since last
@@ -96,9 +103,10 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
 	if err != nil {
 		return nil, err
 	}
-	bbs.dbs[key] = db
+	rv = &namespaceDB{DB: db}
+	bbs.dbs[key] = rv
 
-	return db, nil
+	return rv, nil
 }
 
 // ExecuteReadOnly executes a read only query
@@ -118,6 +126,11 @@ func (bbs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(
 	if err != nil {
 		return err
 	}
+
+	// Only one update per namespace to run at once...
+	db.updateLock.Lock()
+	defer db.updateLock.Unlock()
+
 	return db.Update(func(tx *badger.Txn) error {
 		return f(ctx, &badgerReaderWriter{Tx: tx})
 	})
-- 
2.43.0


From 875f076940986c3c9caa93f5613ad03637a4a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 25/30] fix: transactions of a PostgreSQL store must not share
 one on its connection

---
 storage/postgres/storage-postgres.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 908a9a1..71c69b7 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -18,6 +18,9 @@ import (
 type Storage struct {
 	Pool *pgxpool.Conn
 
+	// A connection has one transaction at a time
+	connLock sync.Mutex
+
 	knownTableMutex sync.RWMutex
 	knownTables     map[string]string
 }
@@ -112,6 +115,9 @@ func (pgs *Storage) getOrCreateNS(ctx context.Context, namespace []byte) (string
 // ExecuteReadOnly executes a read only query. Note this will have the side-effect of
 // creating a table for this namespace, if it doesn't already exist.
 func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
+	pgs.connLock.Lock()
+	defer pgs.connLock.Unlock()
+
 	tableName, err := pgs.getOrCreateNS(ctx, namespace)
 	if err != nil {
 		return err
@@ -132,6 +138,9 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 // ExecuteUpdate executes an update query. Only one of these can execute per-namespace
 // at once, and this is enforced by a full table lock.
 func (pgs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
+	pgs.connLock.Lock()
+	defer pgs.connLock.Unlock()
+
 	tableName, err := pgs.getOrCreateNS(ctx, namespace)
 	if err != nil {
 		return err
-- 
2.43.0


From 057fbc4da7dc3e93e913841d31fc3c4a63dd7ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 26/30] fix: a read-only transaction of a PostgreSQL store must
 see one state

---
 storage/postgres/storage-postgres.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 71c69b7..f51da45 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -123,7 +123,8 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 		return err
 	}
 
-	tx, err := pgs.Pool.Begin(ctx)
+	// All reads see the same state, whatever others commit meanwhile
+	tx, err := pgs.Pool.BeginTx(ctx, pgx.TxOptions{IsoLevel: pgx.RepeatableRead, AccessMode: pgx.ReadOnly})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 9a6b74dbf5d11a187560d8f5818020b8b1746605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 27/30] fix: redactable JSON entries must be hashed as they are
 validated

---
 verifiable/util_json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index 3df2298..e915082 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -166,7 +166,7 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 		return nil, err
 	}
 
-	bflh, err := objecthash.ObjectHash(o)
+	bflh, err := objecthash.ObjectHashWithStdRedaction(o)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 96e933e11d1d18a95348cb6d188820e0f8977145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 28/30] fix: values of a map must not replace the entries of
 its mutation log

The values were kept under their leaf hash beside the entries of the
mutation log, so a value with the input of an entry took over the extra
data of that entry (and the other way round), which made every audit of
the map fail from then on.
---
 verifiable/insertion_map.go         |  2 +-
 verifiable/service_map_get_value.go |  2 +-
 verifiable/util_service_data.go     | 20 ++++++++++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index fbdf9c4..278473f 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -154,7 +154,7 @@ func setMapValue(ctx context.Context, db KeyWriter, vmap *pb.MapRef, mutationInd
 
 	// Time to start writing our data
 	if !bytes.Equal(nextLeafHash, nullLeafHash) {
-		err = writeDataByLeafHash(ctx, db, pb.LogType_STRUCT_TYPE_MUTATION_LOG, nextLeafHash, mut.Value)
+		err = writeMapDataByLeafHash(ctx, db, nextLeafHash, mut.Value)
 		if err != nil {
 			return nil, err
 		}
diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 818d6af..12f7f68 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -97,7 +97,7 @@ func (s *localServiceImpl) MapGetValue(ctx context.Context, req *pb.MapGetValueR
 				if bytes.Equal(cur.LeafHash, nullLeafHash) {
 					dataRv = &pb.LeafData{} // empty value
 				} else {
-					dataRv, err = lookupDataByLeafHash(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, cur.LeafHash)
+					dataRv, err = lookupMapDataByLeafHash(ctx, kr, cur.LeafHash)
 					if err != nil {
 						return err
 					}
diff --git a/verifiable/util_service_data.go b/verifiable/util_service_data.go
index 73c553c..f0acfd2 100644
--- a/verifiable/util_service_data.go
+++ b/verifiable/util_service_data.go
@@ -67,6 +67,7 @@ var (
 
 	objSizeKey    = []byte("metadata/size")
 	mapNodeBucket = []byte("map_node/")
+	mapDataBucket = []byte("map_data/")
 )
 
 // Start pair
@@ -194,6 +195,25 @@ func lookupLogTreeHead(ctx context.Context, kr KeyReader, lt pb.LogType) (*pb.Lo
 
 // Start pair
 
+func writeMapDataByLeafHash(ctx context.Context, kr KeyWriter, lh []byte, data *pb.LeafData) error {
+	return kr.Set(ctx, makeStorageKey(mapDataBucket, lh), data)
+}
+
+func lookupMapDataByLeafHash(ctx context.Context, kr KeyReader, lh []byte) (*pb.LeafData, error) {
+	var m pb.LeafData
+	err := kr.Get(ctx, makeStorageKey(mapDataBucket, lh), &m)
+	if err == ErrNoSuchKey {
+		// Maps written by earlier versions have their values beside the entries of their mutation log
+		return lookupDataByLeafHash(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, lh)
+	}
+	if err != nil {
+		return nil, err
+	}
+	return &m, nil
+}
+
+// Start pair
+
 func writeMapHash(ctx context.Context, kr KeyWriter, number int64, path BPath, data *pb.MapNode) error {
 	return kr.Set(ctx, makeStorageKey(mapNodeBucket, append(toIntBinary(uint64(number)), path...)), data)
 }
-- 
2.43.0


From fad21990d7a63c273e025af2bf0515bfe8d27da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 29/30] fix: setting a value must not change the extra data of
 earlier ones

A get at an earlier size, or of another key with a value of the same input,
gave the extra data of the latest such mutation rather than its own.
---
 verifiable/insertion_map.go     |  2 +-
 verifiable/util_service_data.go | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index 278473f..5fd5ad4 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -154,7 +154,7 @@ func setMapValue(ctx context.Context, db KeyWriter, vmap *pb.MapRef, mutationInd
 
 	// Time to start writing our data
 	if !bytes.Equal(nextLeafHash, nullLeafHash) {
-		err = writeMapDataByLeafHash(ctx, db, nextLeafHash, mut.Value)
+		err = addMapDataByLeafHash(ctx, db, nextLeafHash, mut.Value)
 		if err != nil {
 			return nil, err
 		}
diff --git a/verifiable/util_service_data.go b/verifiable/util_service_data.go
index f0acfd2..4d07df6 100644
--- a/verifiable/util_service_data.go
+++ b/verifiable/util_service_data.go
@@ -195,8 +195,14 @@ func lookupLogTreeHead(ctx context.Context, kr KeyReader, lt pb.LogType) (*pb.Lo
 
 // Start pair
 
-func writeMapDataByLeafHash(ctx context.Context, kr KeyWriter, lh []byte, data *pb.LeafData) error {
-	return kr.Set(ctx, makeStorageKey(mapDataBucket, lh), data)
+// As for a log, the data first given for a leaf hash stays, since earlier sizes of the map refer to it
+func addMapDataByLeafHash(ctx context.Context, kr KeyWriter, lh []byte, data *pb.LeafData) error {
+	key := makeStorageKey(mapDataBucket, lh)
+	err := kr.Get(ctx, key, &pb.LeafData{})
+	if err == ErrNoSuchKey {
+		return kr.Set(ctx, key, data)
+	}
+	return err
 }
 
 func lookupMapDataByLeafHash(ctx context.Context, kr KeyReader, lh []byte) (*pb.LeafData, error) {
-- 
2.43.0


From cdd47f293d7cd034484c7264003c736985a7cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 30/30] fix: the gRPC client must accept the DER certificate
 that it documents

---
 server/grpc/client_grpc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/grpc/client_grpc.go b/server/grpc/client_grpc.go
index 8bbc05d..0f7632a 100644
--- a/server/grpc/client_grpc.go
+++ b/server/grpc/client_grpc.go
@@ -59,7 +59,9 @@ func (g *Client) Dial() (pb.VerifiableDataStructuresServiceServer, error) {
 	} else if len(g.CertDer) != 0 {
 		// use baked in cert
 		cp := x509.NewCertPool()
-		if !cp.AppendCertsFromPEM([]byte(g.CertDer)) {
+		if cert, err := x509.ParseCertificate(g.CertDer); err == nil {
+			cp.AddCert(cert)
+		} else if !cp.AppendCertsFromPEM(g.CertDer) { // accept PEM too
 			return nil, ErrNoCertsFound
 		}
 		dialOptions = append(dialOptions, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{RootCAs: cp})))
-- 
2.43.0

