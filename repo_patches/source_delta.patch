From aedbf346f7722d365050bfd8349386ca4e4e2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 01/70] fix: compare all the elements of an entry's data in
 Data.Equal

---
 merkletree/merkletree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index b3d2dcf..41d8f17 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -78,8 +78,7 @@ func (d *Data) Bytes() (b [ElemBytesLen * DataLen]byte) {
 }
 
 func (d1 *Data) Equal(d2 *Data) bool {
-	return bytes.Equal(d1[0][:], d2[0][:]) && bytes.Equal(d1[1][:], d2[1][:]) &&
-		bytes.Equal(d1[2][:], d2[2][:]) && bytes.Equal(d1[3][:], d2[3][:])
+	return *d1 == *d2
 }
 
 func (d Data) MarshalText() ([]byte, error) {
-- 
2.43.0


From 752f7bf52de57fcd8232c60c2385825ebde0c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 02/70] fix: PrintGraphViz prints the tree of the requested
 root

---
 merkletree/merkletree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 41d8f17..bb3021d 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -566,7 +566,7 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 	}
 	w := bytes.NewBufferString("")
 	fmt.Fprintf(w, "--------\nGraphViz of the MerkleTree with RootKey "+rootKey.Hex()+"\n")
-	err := mt.GraphViz(w, nil)
+	err := mt.GraphViz(w, rootKey)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a0097c68b293c3607f13a6e22e549682c9dfd1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 03/70] fix: do not reset a stored merkle tree when reading its
 root fails

---
 merkletree/merkletree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index bb3021d..59d3331 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -228,7 +228,7 @@ type MerkleTree struct {
 func NewMerkleTree(storage db.Storage, maxLevels int) (*MerkleTree, error) {
 	mt := MerkleTree{storage: storage, maxLevels: maxLevels, writable: true}
 	_, gettedRoot, err := mt.dbGet(rootNodeValue)
-	if err != nil {
+	if err == db.ErrNotFound {
 		tx, err := mt.storage.NewTx()
 		if err != nil {
 			return nil, err
@@ -244,6 +244,10 @@ func NewMerkleTree(storage db.Storage, maxLevels int) (*MerkleTree, error) {
 			return nil, err
 		}
 		return &mt, nil
+	} else if err != nil {
+		return nil, err
+	} else if len(gettedRoot) != len(Hash{}) {
+		return nil, ErrInvalidDBValue
 	}
 	mt.rootKey = &Hash{}
 	copy(mt.rootKey[:], gettedRoot)
-- 
2.43.0


From d9fac4bbfe4b3dccc8e8692aa27793283523861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 04/70] fix: update the merkle tree root in memory only after
 the commit succeeded

---
 merkletree/merkletree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 59d3331..23587d4 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -479,12 +479,12 @@ func (mt *MerkleTree) AddEntry(e *Entry) error {
 	if err != nil {
 		return err
 	}
-	mt.rootKey = newRootKey
-	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, mt.rootKey[:])
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, newRootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	mt.rootKey = newRootKey
 	return nil
 }
 
-- 
2.43.0


From 515d9be6817c1b84d49073d13f5d80451d2b259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 05/70] fix: accept an insertion whose nodes are in the storage
 already

---
 merkletree/merkletree.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 23587d4..5ec6cd4 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -1065,9 +1065,14 @@ func (mt *MerkleTree) addNode(tx db.Tx, n *Node) (*Hash, error) {
 		return nil, err
 	}
 	v := n.Value()
-	// Check that the node key doesn't already exist
-	if _, err := tx.Get(k[:]); err == nil {
-		return nil, ErrNodeKeyAlreadyExists
+	// Check that the node key doesn't already exist with another value.  The
+	// same node can be in the storage already, for example when an older
+	// tree was imported in it.
+	if old, err := tx.Get(k[:]); err == nil {
+		if !bytes.Equal(old, v) {
+			return nil, ErrNodeKeyAlreadyExists
+		}
+		return k, nil
 	}
 	tx.Put(k[:], v)
 	return k, nil
-- 
2.43.0


From b44e8492df8a54bb46b77fd7e6a8de2411fe4d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 06/70] fix: dump the nodes and the root record of the same
 merkle tree root

---
 merkletree/merkletree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 5ec6cd4..4eba7a0 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -590,6 +590,9 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 // to compute the Tree, while with DumpClaims will require to compute the Tree
 // (with the computational cost of each hash)
 func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
+	if rootKey == nil {
+		rootKey = mt.RootKey()
+	}
 	var errS error
 	err := mt.Walk(rootKey, func(n *Node) {
 		if n.Type != NodeTypeEmpty {
@@ -610,9 +613,6 @@ func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
 		return errS
 	}
 
-	if rootKey == nil {
-		rootKey = mt.RootKey()
-	}
 	err = serializeKV(w, rootNodeValue, rootKey.Bytes())
 
 	return err
-- 
2.43.0


From 4e40bf99edcd07d5ac09a568a7c248e11f167892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 07/70] fix: reject serialized merkle proofs deeper than their
 bitmap

---
 merkletree/merkletree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 4eba7a0..f75b1f1 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -792,6 +792,9 @@ func NewProofFromBytes(bs []byte) (*Proof, error) {
 	p.depth = uint(bs[1])
 	copy(p.notempties[:], bs[proofFlagsLen:ElemBytesLen])
 	siblingBytes := bs[ElemBytesLen:]
+	if p.depth > uint(8*len(p.notempties)) {
+		return nil, ErrInvalidProofBytes
+	}
 	sibIdx := 0
 	for i := uint(0); i < p.depth; i++ {
 		if common.TestBitBigEndian(p.notempties[:], i) {
-- 
2.43.0


From bc3ff6df8da570be4a2bc86bf43295ae392cc83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 08/70] fix: drop the cached hashes of an entry when decoding
 new data into it

---
 merkletree/merkletree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index f75b1f1..f1d60de 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -203,6 +203,7 @@ func (e Entry) MarshalText() ([]byte, error) {
 }
 
 func (e *Entry) UnmarshalText(text []byte) error {
+	e.hIndex, e.hValue = nil, nil
 	return e.Data.UnmarshalText(text)
 }
 
-- 
2.43.0


From 70739df41160279e51cc85bbec789f4c651eba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 09/70] fix: do not panic decoding short base64 strings

---
 common/common.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/common.go b/common/common.go
index 5c531c4..92a583a 100644
--- a/common/common.go
+++ b/common/common.go
@@ -20,11 +20,11 @@ func Base64ToBytes(base64String string) ([]byte, error) {
 // of bytes.
 func Base64Decode(b64 string) ([]byte, error) {
 	l := len(b64)
-	if b64[l-3] == '=' {
+	if l >= 3 && b64[l-3] == '=' {
 		b64 = b64[:l-3]
-	} else if b64[l-2] == '=' {
+	} else if l >= 2 && b64[l-2] == '=' {
 		b64 = b64[:l-2]
-	} else if b64[l-1] == '=' {
+	} else if l >= 1 && b64[l-1] == '=' {
 		b64 = b64[:l-1]
 	}
 	return base64.RawStdEncoding.DecodeString(b64)
-- 
2.43.0


From a4b1d291cca54ff568a92bd2966cde796319898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 10/70] fix: do not keep the caller's root key in a merkle tree
 snapshot

---
 merkletree/merkletree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index f1d60de..a0ab3f0 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -262,7 +262,9 @@ func (mt *MerkleTree) Snapshot(rootKey *Hash) (*MerkleTree, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &MerkleTree{storage: mt.storage, maxLevels: mt.maxLevels, rootKey: rootKey, writable: false}, nil
+	// The snapshot must not follow later changes of the caller's variable.
+	snapshotRootKey := *rootKey
+	return &MerkleTree{storage: mt.storage, maxLevels: mt.maxLevels, rootKey: &snapshotRootKey, writable: false}, nil
 }
 
 // Storage returns the MT storage
-- 
2.43.0


From 70e37a8a8744e710119ff9e25120b5bc96436065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 11/70] fix: import only complete merkle tree dumps and store
 their root like any other

---
 merkletree/merkletree.go | 93 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 82 insertions(+), 11 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index a0ab3f0..4442ef1 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -124,6 +124,10 @@ var (
 	// ErrEntryDataNotMatch is used when the entry data doesn't match the expected one.
 	ErrEntryDataNotMatch = errors.New("Entry data doesn't match the expected one")
 
+	// ErrInvalidDump is used when the dump of a tree doesn't contain the
+	// tree of its root.
+	ErrInvalidDump = errors.New("the dump doesn't contain the merkle tree of its root")
+
 	// HashZero is a hash value of zeros, and is the key of an empty node.
 	HashZero = Hash{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
 	// ElemBytesOne is a constant element used as a prefix to compute leaf node keys.
@@ -674,15 +678,15 @@ func deserializeKV(r io.Reader) ([]byte, []byte, error) {
 	return kv[:kLen], kv[kLen:], nil
 }
 
-// ImportTree imports the tree from the output from the DumpTree function
+// ImportTree imports the tree from the output from the DumpTree function.  A
+// dump that doesn't contain exactly the tree of its root is rejected.
 func (mt *MerkleTree) ImportTree(i io.Reader) error {
-	tx, err := mt.storage.NewTx()
-	if err != nil {
-		return err
+	// verify that the MerkleTree is writable
+	if !mt.writable {
+		return ErrNotWritable
 	}
-	mt.Lock()
-	defer mt.Unlock()
-
+	nodes := make(map[Hash][]byte)
+	var rootKey *Hash
 	r := bufio.NewReader(i)
 	for {
 		k, v, err := deserializeKV(r)
@@ -691,23 +695,90 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 		} else if err != nil {
 			return err
 		}
-		tx.Put(k, v)
+		if bytes.Equal(k, rootNodeValue) && len(v) == len(Hash{}) {
+			rootKey = &Hash{}
+			copy(rootKey[:], v)
+		} else if len(k) == len(Hash{}) {
+			var key Hash
+			copy(key[:], k)
+			nodes[key] = v
+		} else {
+			return ErrInvalidDump
+		}
+	}
+	if rootKey == nil {
+		return ErrInvalidDump
 	}
 
-	v, err := tx.Get(rootNodeValue)
+	mt.Lock()
+	defer mt.Unlock()
+	tx, err := mt.storage.NewTx()
 	if err != nil {
 		return err
 	}
+	defer tx.Close()
+	if err := mt.importNode(tx, nodes, rootKey, []bool{}); err != nil {
+		return err
+	}
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, rootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
-	mt.rootKey = &Hash{}
-	copy(mt.rootKey[:], v)
+	mt.rootKey = rootKey
 
 	return nil
 }
 
+// importNode recursively checks that the nodes contain the subtree of key,
+// found at path, and puts its nodes in the open db transaction.
+func (mt *MerkleTree) importNode(tx db.Tx, nodes map[Hash][]byte, key *Hash, path []bool) error {
+	if *key == HashZero {
+		return nil
+	}
+	if len(path) > mt.maxLevels-1 {
+		return ErrReachedMaxLevel
+	}
+	v, ok := nodes[*key]
+	if !ok {
+		return ErrInvalidDump
+	}
+	delete(nodes, *key) // A node is only once in a tree
+	n, err := NewNodeFromBytes(v)
+	if err != nil {
+		return err
+	}
+	k, err := n.Key()
+	if err != nil {
+		return err
+	}
+	if *k != *key {
+		return ErrInvalidDump
+	}
+	tx.Put(key[:], v)
+	switch n.Type {
+	case NodeTypeLeaf:
+		hIndex, err := n.Entry.HIndex()
+		if err != nil {
+			return err
+		}
+		for lvl, right := range getPath(len(path), hIndex) {
+			if right != path[lvl] {
+				return ErrInvalidDump
+			}
+		}
+		return nil
+	case NodeTypeMiddle:
+		path = path[:len(path):len(path)]
+		if err := mt.importNode(tx, nodes, n.ChildL, append(path, false)); err != nil {
+			return err
+		}
+		return mt.importNode(tx, nodes, n.ChildR, append(path, true))
+	default:
+		return ErrInvalidNodeFound
+	}
+}
+
 // DumpClaimsIoWriter uses Walk function to get all the Claims of the tree and write
 // them to w.  The output is JSON encoded with claims in hex.
 func (mt *MerkleTree) DumpClaimsIoWriter(w io.Writer, rootKey *Hash) error {
-- 
2.43.0


From c1f16a93ca4214b63e195a6fb28a1537c75cc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 12/70] fix: decode the subject position flag of a claim header

---
 core/claims/claim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index e8628fa..ac48ccd 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -188,7 +188,7 @@ func (c *ClaimHeader) Unmarshal(e *merkletree.Entry) {
 	copy(c.Type[:], index[0][:ClaimTypeLen])
 	flags0 := index[0][ClaimTypeLen]
 	c.Subject = ClaimSubject(flags0 & 0b00000011)
-	c.SubjectPos = ClaimSubjectPos(flags0 & (1 << 2))
+	c.SubjectPos = ClaimSubjectPos((flags0 >> 2) & 1)
 	c.Expiration = byte2bool(flags0 & (1 << 3))
 	c.Version = byte2bool(flags0 & (1 << 4))
 }
-- 
2.43.0


From f892a9f572d57c8342a26815a2dd190ae1b0090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 13/70] fix: reject JSON claim metadata with a subject but no
 id

---
 core/claims/claim.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index ac48ccd..7422c90 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -320,6 +320,9 @@ func (m *Metadata) UnmarshalJSON(b []byte) error {
 		return err
 	}
 	if m.header.Subject != ClaimSubjectSelf {
+		if metadata.ID == nil {
+			return fmt.Errorf("claim metadata without the ID of its subject")
+		}
 		m.Subject = metadata.ID
 	}
 	if m.header.Expiration {
-- 
2.43.0


From 30b19ca6f772fb524c1035c65a850780ccaee73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 14/70] fix: build the entry of a generic claim without stale
 cached hashes

---
 core/claims/utils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index 757d865..f4dd60c 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -19,8 +19,11 @@ func NewClaimGeneric(entry *merkletree.Entry) *ClaimGeneric {
 }
 
 func (c *ClaimGeneric) Entry() *merkletree.Entry {
-	c.metadata.Marshal(c.entry)
-	return c.entry
+	// Use a copy because the cached hashes of the original entry won't be
+	// updated when the metadata changes.
+	e := c.entry.Clone()
+	c.metadata.Marshal(e)
+	return e
 }
 
 func (c *ClaimGeneric) Metadata() *Metadata {
-- 
2.43.0


From 48329e522e8ca364b36456e87e464013ad12d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 15/70] fix: decode the metadata and check the length of hex
 encoded generic claims

---
 core/claims/utils.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index f4dd60c..2ed6a7a 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -35,16 +35,11 @@ func HexToClaimGeneric(h string) (ClaimGeneric, error) {
 	if err != nil {
 		return ClaimGeneric{}, err
 	}
-	var dataBytes [merkletree.ElemBytesLen * merkletree.DataLen]byte
-	copy(dataBytes[:], bytesValue)
-	data := merkletree.NewDataFromBytes(dataBytes)
-	entry := merkletree.Entry{
-		Data: *data,
-	}
-	entrier := ClaimGeneric{
-		entry: &entry,
+	entry, err := merkletree.NewEntryFromBytes(bytesValue)
+	if err != nil {
+		return ClaimGeneric{}, err
 	}
-	return entrier, nil
+	return *NewClaimGeneric(entry), nil
 }
 
 func HexArrayToClaimGenericArray(arrH []string) ([]ClaimGeneric, error) {
-- 
2.43.0


From 2ffc831e9cbab2c015ffaff41eb280f5b813ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 16/70] fix: report an error for identity state roots outside
 the field instead of panicking

---
 components/idenpuboffchain/idenpuboffchain.go |  5 ++++-
 components/verifier/verifier.go               | 10 ++++++++--
 core/id.go                                    | 17 ++++++++++++++---
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index b0a9f2d..4c4c3d8 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -72,8 +72,11 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
 			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
 	}
-	idenState := core.IdenState(&publicDataBlobs.ClaimsTreeRoot,
+	idenState, err := core.CheckedIdenState(&publicDataBlobs.ClaimsTreeRoot,
 		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(&publicDataBlobs.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index f947ed2..82410ea 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -69,7 +69,10 @@ func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistenc
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	idenState, err := core.CheckedIdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credExist.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
@@ -149,7 +152,10 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	idenState, err := core.CheckedIdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credValid.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/core/id.go b/core/id.go
index d8968e5..0fd2966 100644
--- a/core/id.go
+++ b/core/id.go
@@ -153,16 +153,27 @@ func IdGenesisFromIdenState(hash *merkletree.Hash) *ID {
 }
 
 // IdenState calculates the Identity State from the Claims Tree Root, Revocation Tree Root and Roots Tree Root.
+// The roots must be inside the field.
 func IdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) *merkletree.Hash {
+	idenState, err := CheckedIdenState(clr, rer, ror)
+	if err != nil {
+		panic(err)
+	}
+	return idenState
+}
+
+// CheckedIdenState is like IdenState, for roots that come from an untrusted
+// source: it returns an error if they are not inside the field.
+func CheckedIdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) (*merkletree.Hash, error) {
 	bi, err := merkletree.ElemBytesToPoseidonInput(merkletree.ElemBytes(*clr),
 		merkletree.ElemBytes(*rer),
 		merkletree.ElemBytes(*ror))
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	idenState, err := poseidon.PoseidonHash(bi)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return merkletree.NewHashFromBigInt(idenState)
+	return merkletree.NewHashFromBigInt(idenState), nil
 }
-- 
2.43.0


From 74818b1ed3fe4c8d9abc035e167be82b3e9c0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 17/70] fix: reject credentials with missing fields instead of
 panicking

---
 components/verifier/verifier.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index 82410ea..0647d5f 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -22,6 +22,7 @@ var (
 	ErrMtpExistence                   = fmt.Errorf("The Merkle Tree Proof is of existence")
 	ErrCalculatedIdenStateDoesntMatch = fmt.Errorf("Calculated IdenState doesn't match the one in the credential")
 	ErrClaimExpired                   = fmt.Errorf("Expired claim")
+	ErrIncompleteCredential           = fmt.Errorf("The credential has missing fields")
 	ErrFailedVerifyZkProofCredential  = fmt.Errorf("failed verifing generated zk proof of credential")
 )
 
@@ -56,6 +57,11 @@ func NewWithTimeNow(idenPubOnChain idenpubonchain.IdenPubOnChainer, timeNow func
 // VerifyCredentialExistence verifies a credential of existence.  That is, that
 // the claim was issued by a particular identity.
 func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistence) error {
+	if credExist.Id == nil || credExist.IdenStateData.IdenState == nil ||
+		credExist.MtpClaim == nil || credExist.Claim == nil ||
+		credExist.RevocationsTreeRoot == nil || credExist.RootsTreeRoot == nil {
+		return ErrIncompleteCredential
+	}
 	if !credExist.MtpClaim.Existence {
 		return ErrMtpNonExistence
 	}
@@ -118,6 +124,11 @@ func (v *Verifier) validateFreshness(id *core.ID, idenState *merkletree.Hash, bl
 // the claim was issued by a particular identity, and that it has not been
 // revoked passed the freshness time.
 func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity, freshness time.Duration) error {
+	if credValid.CredentialExistence.Claim == nil ||
+		credValid.IdenStateData.IdenState == nil || credValid.MtpNotNonce == nil ||
+		credValid.ClaimsTreeRoot == nil || credValid.RootsTreeRoot == nil {
+		return ErrIncompleteCredential
+	}
 	// If the claim has an expiration date, check that it hasn't expired.
 	var metadata claims.Metadata
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
-- 
2.43.0


From 0ca7914c3b6d591716fa42eddc01293dfdbfb015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 18/70] fix: do not take claims that expire in a very distant
 future as expired

---
 components/verifier/verifier.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index 0647d5f..e48a2a2 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -134,7 +134,9 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
 	if metadata.Header().Expiration {
 		now := v.timeNow()
-		if time.Unix(metadata.Expiration, 0).Before(now) {
+		// Compare seconds: time.Unix overflows with very big timestamps.
+		if metadata.Expiration < now.Unix() ||
+			(metadata.Expiration == now.Unix() && now.Nanosecond() > 0) {
 			return ErrClaimExpired
 		}
 	}
-- 
2.43.0


From 62f5e136ac18b7edd7b58373fdd325c763ea528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 19/70] fix: reject malformed public signals and proofs in zk
 credentials

---
 components/verifier/verifier.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index e48a2a2..41fdf00 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -199,6 +199,18 @@ func (v *Verifier) VerifyZkProofCredential(
 		return fmt.Errorf("error loading zk vk: %w", err)
 	}
 
+	if zkProof == nil || zkProof.A == nil || zkProof.B == nil || zkProof.C == nil ||
+		len(pubSignals) == 0 {
+		return ErrFailedVerifyZkProofCredential
+	}
+	// The verification of the proof is done modulo the order of the field,
+	// don't accept other representations of the same signal.
+	for _, s := range pubSignals {
+		if s == nil || s.Sign() < 0 || s.Cmp(zktypes.R) >= 0 {
+			return ErrFailedVerifyZkProofCredential
+		}
+	}
+
 	// Verify the zkp
 	if !verifier.Verify(vk, zkProof, pubSignals) {
 		return ErrFailedVerifyZkProofCredential
-- 
2.43.0


From 73fe4da93796174cb06dcddce1c53cd903b23176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 20/70] fix: report an error for stored values of a wrong size

---
 db/storage.go      | 3 +++
 db/storageutils.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/db/storage.go b/db/storage.go
index 5182b1e..6c96666 100644
--- a/db/storage.go
+++ b/db/storage.go
@@ -6,6 +6,9 @@ import (
 
 var ErrNotFound = errors.New("key not found")
 
+// ErrInvalidValue is used when a stored value can't be parsed.
+var ErrInvalidValue = errors.New("invalid stored value")
+
 type KV struct {
 	K []byte
 	V []byte
diff --git a/db/storageutils.go b/db/storageutils.go
index a1d131b..c1d6124 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -29,6 +29,9 @@ func (sv *StorageValue) Get(tx Tx) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
+	if len(vBytes) != 4 {
+		return 0, ErrInvalidValue
+	}
 	return binary.LittleEndian.Uint32(vBytes), nil
 }
 
-- 
2.43.0


From a6962fdfa910c6d52a577eeaddd4433f89543749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 21/70] fix: do not share the backing arrays of storage list
 prefixes and keys

---
 db/storageutils.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/db/storageutils.go b/db/storageutils.go
index c1d6124..03c68ec 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -47,9 +47,9 @@ type StorageList struct {
 // the dbPrefix in a Storage.
 func NewStorageList(dbPrefix []byte) *StorageList {
 	return &StorageList{
-		length:            NewStorageValue(append(dbPrefix, []byte("len")...)),
-		dbPrefixList:      append(dbPrefix, []byte("list:")...),
-		dbPrefixListByIdx: append(dbPrefix, []byte("byidx:")...),
+		length:            NewStorageValue(concat(dbPrefix, []byte("len"))),
+		dbPrefixList:      concat(dbPrefix, []byte("list:")),
+		dbPrefixListByIdx: concat(dbPrefix, []byte("byidx:")),
 	}
 }
 
@@ -70,8 +70,8 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 	}
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	tx.Put(append(sl.dbPrefixList, key...), valueJSON)
-	tx.Put(append(sl.dbPrefixListByIdx, idxBytes[:]...), key)
+	tx.Put(concat(sl.dbPrefixList, key), valueJSON)
+	tx.Put(concat(sl.dbPrefixListByIdx, idxBytes[:]), key)
 	sl.length.Set(tx, idx+1)
 	return nil
 }
@@ -80,7 +80,7 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, error) {
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	key, err := tx.Get(append(sl.dbPrefixListByIdx, idxBytes[:]...))
+	key, err := tx.Get(concat(sl.dbPrefixListByIdx, idxBytes[:]))
 	if err != nil {
 		return nil, err
 	}
@@ -90,7 +90,7 @@ func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, e
 
 // GetByIdx returns the value given the key of the StorageList in an open db transaction.
 func (sl *StorageList) Get(tx Tx, key []byte, value interface{}) error {
-	valueJSON, err := tx.Get(append(sl.dbPrefixList, key...))
+	valueJSON, err := tx.Get(concat(sl.dbPrefixList, key))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 47df8ec699f83e28dd6486f550c051a8ab86d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 22/70] fix: keep stored keys and values independent of the
 caller's buffers

---
 db/kvmap.go        | 4 ++--
 db/storageutils.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/kvmap.go b/db/kvmap.go
index b36dddd..8da208e 100644
--- a/db/kvmap.go
+++ b/db/kvmap.go
@@ -8,8 +8,8 @@ type kvMap map[[sha256.Size]byte]KV
 
 func (m kvMap) Get(k []byte) ([]byte, bool) {
 	v, ok := m[sha256.Sum256(k)]
-	return v.V, ok
+	return clone(v.V), ok
 }
 func (m kvMap) Put(k, v []byte) {
-	m[sha256.Sum256(k)] = KV{k, v}
+	m[sha256.Sum256(k)] = KV{clone(k), clone(v)}
 }
diff --git a/db/storageutils.go b/db/storageutils.go
index 03c68ec..a9a8fcc 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -13,7 +13,7 @@ type StorageValue struct {
 // NewStorageValue creates a new StorageValue that uses the dbKey in a
 // Storage to store the value.
 func NewStorageValue(dbKey []byte) *StorageValue {
-	return &StorageValue{dbKey: dbKey}
+	return &StorageValue{dbKey: clone(dbKey)}
 }
 
 // Set sets the value in an open db transaction.
-- 
2.43.0


From 3fbb3ab6a5c9498d5e4d4f7a02548e5d3a72b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 23/70] fix: make the in-memory storage safe for concurrent use

---
 db/memory.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/db/memory.go b/db/memory.go
index 8d6dcfd..c4aca4b 100644
--- a/db/memory.go
+++ b/db/memory.go
@@ -3,11 +3,14 @@ package db
 import (
 	"bytes"
 	"sort"
+	"sync"
 )
 
 type MemoryStorage struct {
 	prefix []byte
 	kv     kvMap
+	// rw protects kv, it's shared by all the views with a prefix
+	rw *sync.RWMutex
 }
 
 type MemoryStorageTx struct {
@@ -17,7 +20,7 @@ type MemoryStorageTx struct {
 
 func NewMemoryStorage() *MemoryStorage {
 	kvmap := make(kvMap)
-	return &MemoryStorage{[]byte{}, kvmap}
+	return &MemoryStorage{[]byte{}, kvmap, &sync.RWMutex{}}
 }
 
 func (l *MemoryStorage) Info() string {
@@ -25,7 +28,7 @@ func (l *MemoryStorage) Info() string {
 }
 
 func (m *MemoryStorage) WithPrefix(prefix []byte) Storage {
-	return &MemoryStorage{concat(m.prefix, prefix), m.kv}
+	return &MemoryStorage{concat(m.prefix, prefix), m.kv, m.rw}
 }
 
 func (m *MemoryStorage) NewTx() (Tx, error) {
@@ -34,7 +37,8 @@ func (m *MemoryStorage) NewTx() (Tx, error) {
 
 // Get retreives a value from a key in the mt.Lvl
 func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
-
+	l.rw.RLock()
+	defer l.rw.RUnlock()
 	if v, ok := l.kv.Get(concat(l.prefix, key[:])); ok {
 		return v, nil
 	}
@@ -43,6 +47,7 @@ func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
 
 func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	kvs := make([]KV, 0)
+	l.rw.RLock()
 	for _, v := range l.kv {
 		if len(v.K) < len(l.prefix) || !bytes.Equal(v.K[:len(l.prefix)], l.prefix) {
 			continue
@@ -51,6 +56,7 @@ func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 		kvs = append(kvs, KV{localkey, v.V})
 
 	}
+	l.rw.RUnlock()
 	sort.SliceStable(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].K, kvs[j].K) < 0 })
 
 	for _, kv := range kvs {
@@ -68,6 +74,8 @@ func (tx *MemoryStorageTx) Get(key []byte) ([]byte, error) {
 	if v, ok := tx.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
+	tx.s.rw.RLock()
+	defer tx.s.rw.RUnlock()
 	if v, ok := tx.s.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
@@ -80,6 +88,8 @@ func (tx *MemoryStorageTx) Put(k, v []byte) {
 }
 
 func (tx *MemoryStorageTx) Commit() error {
+	tx.s.rw.Lock()
+	defer tx.s.rw.Unlock()
 	for _, v := range tx.kv {
 		tx.s.kv.Put(v.K, v.V)
 	}
-- 
2.43.0


From 4e712ed93ae99457bb82e7e1ca260053b89e5ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 24/70] fix: do not panic counting empty values in
 LevelDbStorage.Info

---
 db/leveldb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index fea3165..5a32be3 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -46,7 +46,7 @@ func (l *LevelDbStorage) Info() string {
 	claimcount := 0
 	iter := snapshot.NewIterator(nil, nil)
 	for iter.Next() {
-		if iter.Value()[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
+		if v := iter.Value(); len(v) > 0 && v[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
 			claimcount++
 		}
 
-- 
2.43.0


From bc03911efb92414afebea328ed273df82d29b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 25/70] fix: create an issuer with a single commit and never
 over an existing one

---
 identity/issuer/issuer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index dd80a2d..8b04a41 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -33,6 +33,7 @@ import (
 
 var (
 	ErrIdenGenesisOnly                    = fmt.Errorf("identity is genesis only")
+	ErrIssuerAlreadyCreated               = fmt.Errorf("the storage already contains an issuer")
 	ErrIdenPubOnChainNil                  = fmt.Errorf("idenPubOnChain is nil")
 	ErrIdenStateSNARKPathsNil             = fmt.Errorf("idenStateZkProofConf is nil")
 	ErrEthClientNil                       = fmt.Errorf("ethClient is nil")
@@ -250,7 +251,16 @@ func loadMTs(cfg *Config, storage db.Storage) (*merkletree.MerkleTree, *merkletr
 // storages.  The extraGenesisClaims metadata's are updated.
 func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []claims.Claimer,
 	storage db.Storage, keyStore *keystore.KeyStore) (*core.ID, error) {
-	clt, ret, rot, err := loadMTs(&cfg, storage)
+	if _, err := storage.Get(dbKeyConfig); err == nil {
+		return nil, ErrIssuerAlreadyCreated
+	} else if err != db.ErrNotFound {
+		return nil, err
+	}
+
+	// The trees are built in memory and written to the storage together
+	// with everything else, so that an interrupted creation can be repeated.
+	treesStorage := db.NewMemoryStorage()
+	clt, ret, rot, err := loadMTs(&cfg, treesStorage)
 	if err != nil {
 		return nil, err
 	}
@@ -260,6 +270,7 @@ func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []cla
 	if err != nil {
 		return nil, err
 	}
+	defer tx.Close()
 
 	// Initialize the UniqueNonceGen to generate revocation nonces for claims.
 	nonceGen := NewUniqueNonceGen(db.NewStorageValue(dbKeyNonceIdx))
@@ -353,6 +364,13 @@ func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []cla
 		return nil, err
 	}
 
+	if err := treesStorage.Iterate(func(k, v []byte) (bool, error) {
+		tx.Put(k, v)
+		return true, nil
+	}); err != nil {
+		return nil, err
+	}
+
 	if err := tx.Commit(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7eb38d3104bd5b74de3fe0b1b38273ca8d931609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 26/70] fix: check the error of opening a transaction before
 deferring its closing

---
 identity/issuer/issuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 8b04a41..85d5bee 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -678,10 +678,10 @@ func (is *Issuer) PublishState() error {
 	idenState, idenStateTreeRoots := is.state()
 
 	tx0, err := is.storage.NewTx() // Read only Tx
-	defer tx0.Close()
 	if err != nil {
 		return err
 	}
+	defer tx0.Close()
 	idenStateLast, idenStateTreeRootsLast, err := is.getIdenStateByIdx(tx0, -1)
 	if err != nil {
 		return err
-- 
2.43.0


From 6f28c01b88b6390b351facb7501e8df14d610fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 27/70] fix: publish the identity state when its claims root is
 in the roots tree already

---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 85d5bee..aa4dfa6 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -700,7 +700,10 @@ func (is *Issuer) PublishState() error {
 		// If the ClaimsTreeRoot has changed (claims have been added), add the
 		// ClaimsTreeRoot to the RootsTree.
 		if !idenStateTreeRoots.ClaimsTreeRoot.Equals(idenStateTreeRootsLast.ClaimsTreeRoot) {
-			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+			// The ClaimsTreeRoot is in the RootsTree already if a
+			// previous publication was interrupted at this point.
+			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil &&
+				err != merkletree.ErrEntryIndexAlreadyExists {
 				return err
 			}
 			idenState, idenStateTreeRoots = is.state()
-- 
2.43.0


From 0f8d30a38a341271bc8cfd389bc58a6fddafae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 28/70] fix: retry the publication of the pending identity
 state with its own roots

---
 identity/issuer/issuer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index aa4dfa6..a41fbe0 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -682,7 +682,7 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 	defer tx0.Close()
-	idenStateLast, idenStateTreeRootsLast, err := is.getIdenStateByIdx(tx0, -1)
+	idenStateLast, lastTreeRoots, err := is.getIdenStateByIdx(tx0, -1)
 	if err != nil {
 		return err
 	}
@@ -699,7 +699,7 @@ func (is *Issuer) PublishState() error {
 
 		// If the ClaimsTreeRoot has changed (claims have been added), add the
 		// ClaimsTreeRoot to the RootsTree.
-		if !idenStateTreeRoots.ClaimsTreeRoot.Equals(idenStateTreeRootsLast.ClaimsTreeRoot) {
+		if !idenStateTreeRoots.ClaimsTreeRoot.Equals(lastTreeRoots.ClaimsTreeRoot) {
 			// The ClaimsTreeRoot is in the RootsTree already if a
 			// previous publication was interrupted at this point.
 			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil &&
@@ -724,7 +724,10 @@ func (is *Issuer) PublishState() error {
 			return err
 		}
 	} else {
-		idenStateLast, idenStateTreeRootsLast, err = is.getIdenStateByIdx(tx0, -2)
+		// There's a state pending from a previous publication that
+		// failed.  Publish that one, even if there are newer changes.
+		idenState, idenStateTreeRoots = idenStateLast, *lastTreeRoots
+		idenStateLast, _, err = is.getIdenStateByIdx(tx0, -2)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e84e7072136655fd6113dad636b0ecb885b24779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 29/70] fix: publish the off chain data before updating the
 state on chain

---
 identity/issuer/issuer.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index a41fbe0..b41b7e6 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -740,6 +740,21 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
+	publicData := idenpuboffchain.PublicData{
+		IdenState:           idenState,
+		ClaimsTreeRoot:      idenStateTreeRoots.ClaimsTreeRoot,
+		RevocationsTreeRoot: idenStateTreeRoots.RevocationsTreeRoot,
+		RevocationsTree:     is.revocationsTree,
+		RootsTreeRoot:       idenStateTreeRoots.RootsTreeRoot,
+		RootsTree:           is.rootsTree,
+	}
+
+	// Publish the Public Off Chain identity data first: once the state is
+	// on chain, its data must be available.
+	if err := is.idenPubOffChainWriter.Publish(is.id, &publicData); err != nil {
+		return err
+	}
+
 	tx, err := is.storage.NewTx()
 	if err != nil {
 		return err
@@ -773,20 +788,6 @@ func (is *Issuer) PublishState() error {
 	if err := tx.Commit(); err != nil {
 		return err
 	}
-
-	publicData := idenpuboffchain.PublicData{
-		IdenState:           idenState,
-		ClaimsTreeRoot:      idenStateTreeRoots.ClaimsTreeRoot,
-		RevocationsTreeRoot: idenStateTreeRoots.RevocationsTreeRoot,
-		RevocationsTree:     is.revocationsTree,
-		RootsTreeRoot:       idenStateTreeRoots.RootsTreeRoot,
-		RootsTree:           is.rootsTree,
-	}
-
-	// finally, Publish the Public Off Chain identity data
-	if err := is.idenPubOffChainWriter.Publish(is.id, &publicData); err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From 9020baf0f7e46ae3866acf2648b562b0adfc9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 30/70] fix: update the issuer's view of the chain in memory
 only after the commit succeeded

---
 identity/issuer/issuer.go | 46 +++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index b41b7e6..4b068da 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -134,8 +134,9 @@ type Issuer struct {
 
 func (is *Issuer) idenStateDataOnChain() *proof.IdenStateData { return is._idenStateDataOnChain }
 
-func (is *Issuer) setIdenStateDataOnChain(tx db.Tx, v *proof.IdenStateData) error {
-	is._idenStateDataOnChain = v
+// storeIdenStateDataOnChain only writes to the tx, the value in memory must be
+// set once the tx is committed.  The same applies to the other store functions.
+func (is *Issuer) storeIdenStateDataOnChain(tx db.Tx, v *proof.IdenStateData) error {
 	return db.StoreJSON(tx, dbKeyIdenStateDataOnChain, v)
 }
 
@@ -176,9 +177,12 @@ func bool2byte(v bool) byte {
 	}
 }
 
-func (is *Issuer) setIdenStatePending(tx db.Tx, v *merkletree.Hash, transacted bool) {
+func (is *Issuer) setIdenStatePending(v *merkletree.Hash, transacted bool) {
 	is._idenStatePending = v
 	is._idenStatePendingTransacted = transacted
+}
+
+func (is *Issuer) storeIdenStatePending(tx db.Tx, v *merkletree.Hash, transacted bool) {
 	tx.Put(dbKeyIdenStatePending, v[:])
 	tx.Put(dbKeyIdenStatePendingTransacted, []byte{bool2byte(transacted)})
 }
@@ -202,8 +206,7 @@ func (is *Issuer) loadIdenStatePending() error {
 
 func (is *Issuer) ethTxSetState() *types.Transaction { return is._ethTxSetState }
 
-func (is *Issuer) setEthTxSetState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxSetState = v
+func (is *Issuer) storeEthTxSetState(tx db.Tx, v *types.Transaction) error {
 	return db.StoreJSON(tx, dbKeyEthTxSetState, v)
 }
 
@@ -214,8 +217,7 @@ func (is *Issuer) loadEthTxSetState() error {
 
 func (is *Issuer) ethTxInitState() *types.Transaction { return is._ethTxInitState }
 
-func (is *Issuer) setEthTxInitState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxInitState = v
+func (is *Issuer) storeEthTxInitState(tx db.Tx, v *types.Transaction) error {
 	return db.StoreJSON(tx, dbKeyEthTxInitState, v)
 }
 
@@ -353,14 +355,14 @@ func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []cla
 	}
 
 	// Initialize IdenStateDataOnChain and IdenStatePending to zero (writes to storage).
-	if err := is.setIdenStateDataOnChain(tx, &proof.IdenStateData{IdenState: &merkletree.HashZero}); err != nil {
+	if err := is.storeIdenStateDataOnChain(tx, &proof.IdenStateData{IdenState: &merkletree.HashZero}); err != nil {
 		return nil, err
 	}
-	is.setIdenStatePending(tx, &merkletree.HashZero, false)
-	if err := is.setEthTxInitState(tx, nil); err != nil {
+	is.storeIdenStatePending(tx, &merkletree.HashZero, false)
+	if err := is.storeEthTxInitState(tx, nil); err != nil {
 		return nil, err
 	}
-	if err := is.setEthTxSetState(tx, nil); err != nil {
+	if err := is.storeEthTxSetState(tx, nil); err != nil {
 		return nil, err
 	}
 
@@ -578,13 +580,15 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		if err != nil {
 			return err
 		}
-		is.setIdenStatePending(tx, &merkletree.HashZero, false)
-		if err := is.setIdenStateDataOnChain(tx, idenStateData); err != nil {
+		is.storeIdenStatePending(tx, &merkletree.HashZero, false)
+		if err := is.storeIdenStateDataOnChain(tx, idenStateData); err != nil {
 			return err
 		}
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is.setIdenStatePending(&merkletree.HashZero, false)
+		is._idenStateDataOnChain = idenStateData
 		return nil
 	}
 
@@ -718,11 +722,12 @@ func (is *Issuer) PublishState() error {
 			return err
 		}
 
-		is.setIdenStatePending(tx, idenState, false)
+		is.storeIdenStatePending(tx, idenState, false)
 
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is.setIdenStatePending(idenState, false)
 	} else {
 		// There's a state pending from a previous publication that
 		// failed.  Publish that one, even if there are newer changes.
@@ -760,34 +765,37 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
+	ethTxInitState, ethTxSetState := is.ethTxInitState(), is.ethTxSetState()
 	if is.idenStateOnChain().Equals(&merkletree.HashZero) {
 		// Identity State not present in the Smart Contract. First time
 		// publishing it.
-		ethTx, err := is.idenPubOnChain.InitState(is.id, idenStateLast, idenState, &zkProofOut.Proof)
+		ethTxInitState, err = is.idenPubOnChain.InitState(is.id, idenStateLast, idenState, &zkProofOut.Proof)
 		if err != nil {
 			return fmt.Errorf("error calling idenstates smart contract initState: %w", err)
 		}
 
-		if err := is.setEthTxInitState(tx, ethTx); err != nil {
+		if err := is.storeEthTxInitState(tx, ethTxInitState); err != nil {
 			return err
 		}
 	} else {
 		// Identity State already present in the Smart Contract.
 		// Update it.
-		ethTx, err := is.idenPubOnChain.SetState(is.id, idenState, &zkProofOut.Proof)
+		ethTxSetState, err = is.idenPubOnChain.SetState(is.id, idenState, &zkProofOut.Proof)
 		if err != nil {
 			return fmt.Errorf("error calling idenstates smart contract setState: %w", err)
 		}
 
-		if err := is.setEthTxSetState(tx, ethTx); err != nil {
+		if err := is.storeEthTxSetState(tx, ethTxSetState); err != nil {
 			return err
 		}
 	}
-	is.setIdenStatePending(tx, idenState, true)
+	is.storeIdenStatePending(tx, idenState, true)
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	is.setIdenStatePending(idenState, true)
+	is._ethTxInitState, is._ethTxSetState = ethTxInitState, ethTxSetState
 	return nil
 }
 
-- 
2.43.0


From 90edb707bb5b794648a8e261b5f015df9692b01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 31/70] fix: retry the publication of a state whose transaction
 failed

---
 identity/issuer/issuer.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 4b068da..7650374 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -511,6 +511,10 @@ func (is *Issuer) SyncIdenStatePublic() error {
 	}
 	is.rw.Lock()
 	defer is.rw.Unlock()
+	return is.syncIdenStatePublic()
+}
+
+func (is *Issuer) syncIdenStatePublic() error {
 	// If there's a pending state, check that the ethereum Tx was
 	// succsefully and only call GetState when the number of confirmed
 	// blocks is equal or higher than is.cfg.ConfirmBlocks
@@ -528,6 +532,21 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		confirmBlocks, err := is.idenPubOnChain.TxConfirmBlocks(ethTx)
 		if err == eth.ErrReceiptNotReceived {
 			return nil
+		} else if err == eth.ErrReceiptStatusFailed {
+			// The transaction will never be confirmed, so the
+			// pending state must be transacted again unless the
+			// Smart Contract already has it.
+			log.WithField("tx", ethTx.Hash().Hex()).Error("State Update Tx failed")
+			tx, err := is.storage.NewTx()
+			if err != nil {
+				return err
+			}
+			is.storeIdenStatePending(tx, idenStatePending, false)
+			if err := tx.Commit(); err != nil {
+				return err
+			}
+			is.setIdenStatePending(idenStatePending, false)
+			return is.syncIdenStatePublic()
 		} else if err != nil {
 			return fmt.Errorf("TxConfirmBlocks: %w", err)
 		}
-- 
2.43.0


From 761d3476c80653dd254525de1602497d9fb7a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 32/70] fix: update the revocation nonce of a claim only if it
 is issued

---
 identity/issuer/issuer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 7650374..c91c923 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -638,9 +638,11 @@ func (is *Issuer) IssueClaim(claim claims.Claimer) error {
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	revNonce := claim.Metadata().RevNonce
 	claim.Metadata().RevNonce = nonce
 	err = is.claimsTree.AddClaim(claim)
 	if err != nil {
+		claim.Metadata().RevNonce = revNonce
 		return err
 	}
 	return nil
-- 
2.43.0


From 7f0ae4bc96323fc7ac807fd2480a83c572ac0beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:54 +0000
Subject: [PATCH 33/70] fix: lock the issuer when reading its on chain and
 pending states

---
 identity/issuer/issuer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index c91c923..a7d16b1 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -146,6 +146,8 @@ func (is *Issuer) loadIdenStateDataOnChain() error {
 }
 
 func (is *Issuer) IdenStateOnChain() *merkletree.Hash {
+	is.rw.RLock()
+	defer is.rw.RUnlock()
 	return is._idenStateDataOnChain.IdenState
 }
 
@@ -154,6 +156,8 @@ func (is *Issuer) idenStateOnChain() *merkletree.Hash {
 }
 
 func (is *Issuer) IdenStatePending() (*merkletree.Hash, bool) {
+	is.rw.RLock()
+	defer is.rw.RUnlock()
 	return is._idenStatePending, is._idenStatePendingTransacted
 }
 
-- 
2.43.0


From a2e3bf8895103c36dd38c235bbe21973957667e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 34/70] fix: return a transaction that can be stored and
 confirmed from the local SetState

---
 components/idenpubonchain/local/local.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 2500d85..66831b2 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -145,7 +145,7 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		IdenState: newState,
 	}
 	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState})
-	return &types.Transaction{}, nil
+	return ip.newTx(), nil
 }
 
 // InitState initializes the first Identity State of the given ID in the IdenStates Smart Contract.
@@ -167,8 +167,13 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 		IdenState: newState,
 	}
 	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	return ip.newTx(), nil
+}
+
+// newTx returns a transaction that carries the number of the current block.
+func (ip *IdenPubOnChain) newTx() *types.Transaction {
 	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
-		new(big.Int).SetUint64(ip.blockNow()).Bytes()), nil
+		new(big.Int).SetUint64(ip.blockNow()).Bytes())
 }
 
 // TxConfirmBlocks returns the number of confirmed blocks of transaction tx.
-- 
2.43.0


From 5f6821da4088c95e539a36e1fdd2947af3b0bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 35/70] fix: apply a pending local state transition only to the
 state it was verified against

---
 components/idenpubonchain/local/local.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 66831b2..d5b546c 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -36,9 +36,15 @@ func (h *IdenStateHistory) Add(idenStateData *proof.IdenStateData) {
 	h.ByBlock[idenStateData.BlockN] = idenStateData
 }
 
+func (h *IdenStateHistory) last() *proof.IdenStateData {
+	return h.IdenStates[len(h.IdenStates)-1]
+}
+
 type IdIdenStateData struct {
 	Id            *core.ID
 	IdenStateData *proof.IdenStateData
+	// OldState is the state for which the transition was verified.
+	OldState *merkletree.Hash
 }
 
 // IdenPubOnChain is an implementation of the IdenPubOnnChainer that instead of
@@ -72,12 +78,19 @@ func (ip *IdenPubOnChain) Sync() {
 	ip.rw.Lock()
 	defer ip.rw.Unlock()
 	for _, idIdenStateData := range ip.pendingInit {
+		if _, ok := ip.idenStatesData[*idIdenStateData.Id]; ok {
+			continue
+		}
 		idenStatesData := NewIdenStateHistory()
 		idenStatesData.Add(idIdenStateData.IdenStateData)
 		ip.idenStatesData[*idIdenStateData.Id] = idenStatesData
 	}
 	for _, idIdenStateData := range ip.pendingSet {
-		ip.idenStatesData[*idIdenStateData.Id].Add(idIdenStateData.IdenStateData)
+		idenStatesData := ip.idenStatesData[*idIdenStateData.Id]
+		if !idenStatesData.last().IdenState.Equals(idIdenStateData.OldState) {
+			continue
+		}
+		idenStatesData.Add(idIdenStateData.IdenStateData)
 	}
 	ip.pendingInit = make([]*IdIdenStateData, 0)
 	ip.pendingSet = make([]*IdIdenStateData, 0)
@@ -91,7 +104,7 @@ func (ip *IdenPubOnChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
 	if !ok {
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
-	return idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1], nil
+	return idenStatesData.last(), nil
 }
 
 // GetStateByBlock returns the Identity State Data of the given ID published at
@@ -135,7 +148,7 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	if !ok {
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
-	oldState := idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1].IdenState
+	oldState := idenStatesData.last().IdenState
 	if !ip.verifyZKP(zkProof, id, oldState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
@@ -144,7 +157,7 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		BlockTs:   ip.timeNow().Unix(),
 		IdenState: newState,
 	}
-	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState, OldState: oldState})
 	return ip.newTx(), nil
 }
 
-- 
2.43.0


From e5a133207c0192047b6295987e7589b98139aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 36/70] fix: keep the history of the local chain independent of
 its callers

---
 components/idenpubonchain/local/local.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index d5b546c..9b81a8e 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -73,6 +73,11 @@ func New(timeNow func() time.Time, blockNow func() uint64, verifyingKey *zktypes
 	}
 }
 
+func copyIdenStateData(d *proof.IdenStateData) *proof.IdenStateData {
+	idenState := *d.IdenState
+	return &proof.IdenStateData{BlockTs: d.BlockTs, BlockN: d.BlockN, IdenState: &idenState}
+}
+
 // Sync all the pending writes to the local state.
 func (ip *IdenPubOnChain) Sync() {
 	ip.rw.Lock()
@@ -104,7 +109,7 @@ func (ip *IdenPubOnChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
 	if !ok {
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
-	return idenStatesData.last(), nil
+	return copyIdenStateData(idenStatesData.last()), nil
 }
 
 // GetStateByBlock returns the Identity State Data of the given ID published at
@@ -120,7 +125,7 @@ func (ip *IdenPubOnChain) GetStateByBlock(id *core.ID, queryBlockN uint64) (*pro
 	if !ok {
 		return nil, idenpubonchain.ErrIdenByBlockNotFound
 	}
-	return idenState, nil
+	return copyIdenStateData(idenState), nil
 }
 
 // GetStateByTime returns the Identity State Data of the given ID published at
@@ -136,7 +141,7 @@ func (ip *IdenPubOnChain) GetStateByTime(id *core.ID, queryBlockTs int64) (*proo
 	if !ok {
 		return nil, idenpubonchain.ErrIdenByTimeNotFound
 	}
-	return idenState, nil
+	return copyIdenStateData(idenState), nil
 }
 
 // SetState updates the Identity State of the given ID in the IdenStates Smart Contract.
@@ -157,7 +162,9 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		BlockTs:   ip.timeNow().Unix(),
 		IdenState: newState,
 	}
-	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState, OldState: oldState})
+	idCopy := *id
+	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: &idCopy,
+		IdenStateData: copyIdenStateData(&idenState), OldState: oldState})
 	return ip.newTx(), nil
 }
 
@@ -179,7 +186,9 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 		BlockTs:   ip.timeNow().Unix(),
 		IdenState: newState,
 	}
-	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	idCopy := *id
+	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: &idCopy,
+		IdenStateData: copyIdenStateData(&idenState)})
 	return ip.newTx(), nil
 }
 
-- 
2.43.0


From 74287e3f95d321f50a31e0a545e4d7dcf0b7a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 37/70] fix: keep what the local off chain publisher serves as
 it was published

---
 components/idenpuboffchain/local/local.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/components/idenpuboffchain/local/local.go b/components/idenpuboffchain/local/local.go
index 7bc7801..f661e4b 100644
--- a/components/idenpuboffchain/local/local.go
+++ b/components/idenpuboffchain/local/local.go
@@ -52,6 +52,16 @@ func (ip *IdenPubOffChain) Url() string {
 }
 
 func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.PublicData) error {
+	// The trees keep changing after the publication, so take a snapshot of them.
+	revocationsTree, err := publicData.RevocationsTree.Snapshot(publicData.RevocationsTreeRoot)
+	if err != nil {
+		return err
+	}
+	rootsTree, err := publicData.RootsTree.Snapshot(publicData.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
+	idenState, claimsTreeRoot := *publicData.IdenState, *publicData.ClaimsTreeRoot
 	ip.rw.Lock()
 	defer ip.rw.Unlock()
 	iden, ok := ip.idens[*id]
@@ -62,7 +72,14 @@ func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.Publ
 		}
 		ip.idens[*id] = iden
 	}
-	iden.datas[*publicData.IdenState] = publicData
-	iden.last = publicData.IdenState
+	iden.datas[idenState] = &idenpuboffchain.PublicData{
+		IdenState:           &idenState,
+		ClaimsTreeRoot:      &claimsTreeRoot,
+		RevocationsTreeRoot: revocationsTree.RootKey(),
+		RevocationsTree:     revocationsTree,
+		RootsTreeRoot:       rootsTree.RootKey(),
+		RootsTree:           rootsTree,
+	}
+	iden.last = &idenState
 	return nil
 }
-- 
2.43.0


From d73eeac8b2a46f0c1834c01e685d4db5b260e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 38/70] fix: return the last publication after the cache index
 wrapped around

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 2807ca9..5854e2e 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -134,7 +134,10 @@ func (i *IdenPubOffChainWriteHttp) prevCacheIdx(tx db.Tx) (byte, error) {
 	if err != nil {
 		return 0, err
 	}
-	return (cacheIdx[0] - 1) % i.cfg.CacheLen, nil
+	if cacheIdx[0] == 0 {
+		return i.cfg.CacheLen - 1, nil
+	}
+	return cacheIdx[0] - 1, nil
 }
 
 // nextCacheIdx returns the current cacheIdx and stores the next one.
@@ -143,7 +146,7 @@ func (i *IdenPubOffChainWriteHttp) nextCacheIdx(tx db.Tx) (byte, error) {
 	if err != nil {
 		return 0, err
 	}
-	next := (cacheIdx[0] + 1) % i.cfg.CacheLen
+	next := byte((int(cacheIdx[0]) + 1) % int(i.cfg.CacheLen))
 	tx.Put(dbKeyCacheIdx, []byte{next})
 	return cacheIdx[0], nil
 }
-- 
2.43.0


From 1fa10b99494ea15df9988f07fa5d0accdfc60a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 39/70] fix: report a state that is not in a partially filled
 cache as not found

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 5854e2e..470f180 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -188,7 +188,9 @@ func (i *IdenPubOffChainWriteHttp) GetPublicData(queryIdenState *merkletree.Hash
 		for ; cacheIdx < i.cfg.CacheLen; cacheIdx++ {
 			// idenState
 			idenState, err := tx.Get(keyIdx(dbKeyIdenState, cacheIdx))
-			if err != nil {
+			if err == db.ErrNotFound {
+				return nil, ErrIdenStateNotFound
+			} else if err != nil {
 				return nil, err
 			}
 			if bytes.Equal(queryIdenState[:], idenState) {
@@ -201,7 +203,9 @@ func (i *IdenPubOffChainWriteHttp) GetPublicData(queryIdenState *merkletree.Hash
 	}
 	// idenState
 	idenState, err := tx.Get(keyIdx(dbKeyIdenState, cacheIdx))
-	if err != nil {
+	if err == db.ErrNotFound {
+		return nil, ErrIdenStateNotFound
+	} else if err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 8e3b5750de36626c908fdb74bccf0063a64e6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 40/70] fix: reject an off chain publication cache without
 length

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 470f180..2880aff 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -13,6 +13,7 @@ import (
 
 var (
 	ErrIdenStateNotFound = fmt.Errorf("identity state not found in the cache")
+	ErrCacheLenZero      = fmt.Errorf("the length of the cache can't be zero")
 )
 
 var (
@@ -44,6 +45,9 @@ type IdenPubOffChainWriteHttp struct {
 
 // NewIdenPubOffChainWriteHttp returns a new IdenPubOffChainWriteHttp
 func NewIdenPubOffChainWriteHttp(cfg *Config, storage db.Storage) (*IdenPubOffChainWriteHttp, error) {
+	if cfg.CacheLen == 0 {
+		return nil, ErrCacheLenZero
+	}
 	i := IdenPubOffChainWriteHttp{
 		rw:      &sync.RWMutex{},
 		storage: storage,
-- 
2.43.0


From ae0813fdef499d539c9fcc39146b69877c15b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 41/70] fix: do not use a new cache entry to publish again the
 last identity state

---
 .../idenpuboffchain/writerhttp/writerhttp.go       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 2880aff..dd8f4fb 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -114,10 +114,22 @@ func (i *IdenPubOffChainWriteHttp) Publish(id *core.ID, publicData *idenpuboffch
 	i.rw.Lock()
 	defer i.rw.Unlock()
 
-	cacheIdx, err := i.nextCacheIdx(tx)
+	// Publishing the last state again (for instance, because it couldn't be
+	// set on chain) must not evict the older ones.
+	cacheIdx, err := i.prevCacheIdx(tx)
 	if err != nil {
 		return err
 	}
+	lastIdenState, err := tx.Get(keyIdx(dbKeyIdenState, cacheIdx))
+	if err != nil && err != db.ErrNotFound {
+		return err
+	}
+	if err != nil || !bytes.Equal(lastIdenState, publicData.IdenState[:]) {
+		cacheIdx, err = i.nextCacheIdx(tx)
+		if err != nil {
+			return err
+		}
+	}
 
 	tx.Put(keyIdx(dbKeyIdenState, cacheIdx), publicData.IdenState[:])
 	tx.Put(keyIdx(dbKeyClaimsRoot, cacheIdx), publicData.ClaimsTreeRoot[:])
-- 
2.43.0


From 122da11dffcbdde4ff979174d024df74914ba004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 42/70] fix: reject incomplete credentials and invalid public
 data in the holder instead of panicking

---
 identity/holder/holder.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/identity/holder/holder.go b/identity/holder/holder.go
index 5687ce6..2b75150 100644
--- a/identity/holder/holder.go
+++ b/identity/holder/holder.go
@@ -32,6 +32,7 @@ var (
 	ErrRevokedClaim                   = fmt.Errorf("revocation nonce exists in the Revocation Tree.  The claim is revoked.")
 	ErrRootNotFound                   = fmt.Errorf("claims tree root not found in roots tree.")
 	ErrFailedVerifyZkProofCredential  = fmt.Errorf("failed verifing generated zk proof of credential")
+	ErrIncompleteCredential           = fmt.Errorf("The credential has missing fields")
 	ErrCalculatedIdenStateDoesntMatch = fmt.Errorf("Calculated IdenState from public data doesn't match the one queried")
 )
 
@@ -93,6 +94,9 @@ type CredentialValidityAux struct {
 // a validity proof from a credential existence proof.
 func (h *Holder) HolderGetCredentialValidityData(
 	credExist *proof.CredentialExistence) (*CredentialValidityAux, error) {
+	if credExist.Id == nil || credExist.Claim == nil {
+		return nil, ErrIncompleteCredential
+	}
 	idenStateData, err := h.idenPubOnChain.GetState(credExist.Id)
 	if err != nil {
 		return nil, err
@@ -104,8 +108,11 @@ func (h *Holder) HolderGetCredentialValidityData(
 	}
 
 	// Verify that the returned public data is consistent with the queried IdenState
-	idenState := core.IdenState(publicData.ClaimsTreeRoot, publicData.RevocationsTree.RootKey(),
+	idenState, err := core.CheckedIdenState(publicData.ClaimsTreeRoot, publicData.RevocationsTree.RootKey(),
 		publicData.RootsTree.RootKey())
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(idenStateData.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
@@ -190,6 +197,9 @@ func (h *Holder) HolderGetCredentialProofInputs(
 	credExist *proof.CredentialExistence,
 	credValidData *CredentialValidityAux,
 	issuerLevels int) (*CredentialProofInputs, error) {
+	if credExist.Claim == nil || credExist.MtpClaim == nil {
+		return nil, ErrIncompleteCredential
+	}
 	hi, err := credExist.Claim.HIndex()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e2beaf807e8a3ad192f515ed8ac58ad4032da8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:44 +0000
Subject: [PATCH 43/70] fix: reject missing or incomplete proofs in the local
 chain instead of panicking

---
 components/idenpubonchain/local/local.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 9b81a8e..8b52d71 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -207,6 +207,9 @@ func (ip *IdenPubOnChain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, erro
 
 func (ip *IdenPubOnChain) verifyZKP(zkProof *zktypes.Proof,
 	id *core.ID, oldState, newState *merkletree.Hash) bool {
+	if zkProof == nil || zkProof.A == nil || zkProof.B == nil || zkProof.C == nil {
+		return false
+	}
 	var idElem merkletree.ElemBytes
 	copy(idElem[:], id[:])
 	publicSignals := []*big.Int{idElem.BigInt(), oldState.BigInt(), newState.BigInt()}
-- 
2.43.0


From 3313039fcbd54dbffd4e04f37bc83b6b62f926d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 44/70] fix: do not write into the spare capacity of the slices
 given to sign or verify

---
 components/idensigner/idensigner.go |  2 +-
 crypto/signatures.go                |  2 +-
 identity/issuer/issuer.go           |  5 ++++-
 keystore/keystore.go                | 17 +++++++++++------
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/components/idensigner/idensigner.go b/components/idensigner/idensigner.go
index 09bac2b..cfd95bf 100644
--- a/components/idensigner/idensigner.go
+++ b/components/idensigner/idensigner.go
@@ -38,6 +38,6 @@ func (s *IdenSigner) SignEthMsg(msg []byte) (*babyjub.SignatureComp, error) {
 func (s *IdenSigner) SignEthMsgDate(msg []byte) (*babyjub.SignatureComp, int64, error) {
 	dateInt64 := time.Now().Unix()
 	dateBytes := common.Uint64ToEthBytes(uint64(dateInt64))
-	sig, err := s.SignEthMsg(append(msg, dateBytes...))
+	sig, err := s.SignEthMsg(append(append([]byte{}, msg...), dateBytes...))
 	return sig, dateInt64, err
 }
diff --git a/crypto/signatures.go b/crypto/signatures.go
index 6de1c6d..a5541fb 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -78,7 +78,7 @@ func VerifySigEthMsg(addr common.Address, sig *SignatureEthMsg, msg []byte) bool
 // appended given an ethereum address.
 func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte, date int64) bool {
 	dateBytes := common3.Uint64ToEthBytes(uint64(date))
-	return VerifySigEthMsg(addr, sig, append(msg[:], dateBytes...))
+	return VerifySigEthMsg(addr, sig, append(append([]byte{}, msg...), dateBytes...))
 }
 
 // VerifySig verifies a given signature and the msgHash with the expected address
diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index a7d16b1..c8510d8 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -863,7 +863,10 @@ func (is *Issuer) Sign(string) (string, error) {
 
 // SignBinary signs a binary message by the kOp of the issuer.
 func (is *Issuer) SignBinary(prefix, msg []byte) (*babyjub.SignatureComp, error) {
-	return is.keyStore.SignRaw(is.kOpComp, append(prefix, msg...))
+	prefixedMsg := make([]byte, 0, len(prefix)+len(msg))
+	prefixedMsg = append(prefixedMsg, prefix...)
+	prefixedMsg = append(prefixedMsg, msg...)
+	return is.keyStore.SignRaw(is.kOpComp, prefixedMsg)
 }
 
 // SignState signs the Identity State transition (oldState+newState) by the kOp of the issuer.
diff --git a/keystore/keystore.go b/keystore/keystore.go
index 04ead5f..79771ca 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -353,13 +353,20 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	return &sigComp, nil
 }
 
+// prefixedMsg returns a new byte slice with [prefix | date | rawMsg].
+func prefixedMsg(prefix PrefixType, date int64, rawMsg []byte) []byte {
+	dateBytes := common.Uint64ToEthBytes(uint64(date))
+	msg := make([]byte, 0, len(prefix)+len(dateBytes)+len(rawMsg))
+	msg = append(msg, prefix...)
+	msg = append(msg, dateBytes...)
+	return append(msg, rawMsg...)
+}
+
 // Sign uses the key corresponding to the public key pk to sign the mimc7 hash
 // of the [prefix | date | msg] byte slice.
 func (ks *KeyStore) Sign(pk *babyjub.PublicKeyComp, prefix PrefixType, rawMsg []byte) (*babyjub.SignatureComp, int64, error) {
 	date := time.Now()
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date.Unix()))...)
-	msg = append(msg, rawMsg...)
-	sig, err := ks.SignRaw(pk, msg)
+	sig, err := ks.SignRaw(pk, prefixedMsg(prefix, date.Unix(), rawMsg))
 	return sig, date.Unix(), err
 }
 
@@ -389,9 +396,7 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 // VerifySignature verifies that the signature sigComp of the poseidon hash of
 // the [prefix | date | msg] byte slice was signed with the public key pkComp.
 func VerifySignature(pkComp *babyjub.PublicKeyComp, sigComp *babyjub.SignatureComp, prefix PrefixType, date int64, rawMsg []byte) (bool, error) {
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date))...)
-	msg = append(msg, rawMsg...)
-	return VerifySignatureRaw(pkComp, sigComp, msg)
+	return VerifySignatureRaw(pkComp, sigComp, prefixedMsg(prefix, date, rawMsg))
 }
 
 // VerifySignatureRaw verifies that the signature sigComp of the poseidon hash of
-- 
2.43.0


From 7da28a4e14fec5664313d1483dd8bcb4e2ffa25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:11 +0000
Subject: [PATCH 45/70] fix: forget the keys of a closed key store and unlock
 its storage only once

---
 keystore/keystore.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 79771ca..7fb7f3b 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -223,6 +223,7 @@ type KeyStore struct {
 	params        KeyStoreParams
 	encryptedKeys KeysStored
 	cache         map[babyjub.PublicKeyComp]*babyjub.PrivateKey
+	closed        bool
 	rw            sync.RWMutex
 }
 
@@ -264,11 +265,19 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 	return ks, nil
 }
 
+// Close clears the unlocked keys and unlocks the storage.
 func (ks *KeyStore) Close() error {
+	ks.rw.Lock()
+	defer ks.rw.Unlock()
 	zero := [32]byte{}
-	for _, sk := range ks.cache {
+	for pk, sk := range ks.cache {
 		copy(sk[:], zero[:])
+		delete(ks.cache, pk)
+	}
+	if ks.closed {
+		return nil
 	}
+	ks.closed = true
 	return ks.storage.Unlock()
 }
 
-- 
2.43.0


From 51a8b30775ed1fa356a472c816487a50c4ee9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:11 +0000
Subject: [PATCH 46/70] fix: export a copy of the unlocked key instead of the
 key in the cache

---
 keystore/keystore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 7fb7f3b..eb9f414 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -326,7 +326,8 @@ func (ks *KeyStore) ExportKey(pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, e
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
-	return sk, nil
+	skCopy := *sk
+	return &skCopy, nil
 }
 
 // UnlockKey decrypts the key corresponding to the public key pk and loads it
-- 
2.43.0


From 9c5be83df430db02e4f36c951983de69515687e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:12 +0000
Subject: [PATCH 47/70] fix: check that an unlocked key is the key of the
 record's public key

---
 keystore/keystore.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index eb9f414..b32e7d8 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -344,7 +344,13 @@ func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 		return err
 	}
 	var sk babyjub.PrivateKey
+	if len(skBuf) != len(sk) {
+		return ErrInvalidEncData
+	}
 	copy(sk[:], skBuf)
+	if sk.Public().Compress() != *pk {
+		return ErrInvalidEncData
+	}
 	ks.cache[*pk] = &sk
 	return nil
 }
-- 
2.43.0


From d4262e96dbb048456ba43ace3f20eaec6c35103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 48/70] fix: reject key store records with malformed nonces or
 huge key derivation costs

---
 keystore/keystore.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index b32e7d8..8c6695b 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -44,6 +44,12 @@ const (
 
 	scryptR     = 8
 	scryptDKLen = 32
+
+	// Limits of the key derivation cost, so that a malformed record can not
+	// exhaust the memory or block.
+	maxScryptN    = 1 << 20
+	maxScryptP    = 1 << 10
+	maxScryptCost = 1 << 22
 )
 
 var (
@@ -52,6 +58,8 @@ var (
 	ErrKeyNotInCache   = fmt.Errorf("public key not found in the cache.  Maybe it's not unlocked")
 	ErrKeyNotFound     = fmt.Errorf("public key not found in the key store")
 	ErrInvalidEncData  = fmt.Errorf("invalid encrypted data")
+	// ErrKeyDerivationCost is returned when the scrypt parameters are out of range.
+	ErrKeyDerivationCost = fmt.Errorf("invalid key derivation cost")
 )
 
 // prefixes for msg to be signed
@@ -90,13 +98,24 @@ type EncryptedData struct {
 	EncryptedData common3.Hex
 }
 
+// deriveKey derives the encryption key from pass.
+func deriveKey(pass, salt []byte, scryptN, scryptP int) ([]byte, error) {
+	if scryptN > maxScryptN || scryptP > maxScryptP || scryptN*scryptP > maxScryptCost {
+		return nil, ErrKeyDerivationCost
+	}
+	if scryptP < 1 {
+		return nil, ErrKeyDerivationCost
+	}
+	return scrypt.Key(pass, salt, scryptN, scryptR, scryptP, scryptDKLen)
+}
+
 // EncryptedData encrypts data with a key derived from pass
 func EncryptData(data, pass []byte, scryptN, scryptP int) (*EncryptedData, error) {
 	var salt [32]byte
 	if _, err := io.ReadFull(rand.Reader, salt[:]); err != nil {
 		panic("reading from crypto/rand failed: " + err.Error())
 	}
-	derivedKey, err := scrypt.Key(pass, salt[:], scryptN, scryptR, scryptP, scryptDKLen)
+	derivedKey, err := deriveKey(pass, salt[:], scryptN, scryptP)
 	if err != nil {
 		return nil, err
 	}
@@ -120,14 +139,16 @@ func EncryptData(data, pass []byte, scryptN, scryptP int) (*EncryptedData, error
 
 // DecryptData decrypts the encData with the key derived from pass.
 func DecryptData(encData *EncryptedData, pass []byte) ([]byte, error) {
-	derivedKey, err := scrypt.Key(pass, encData.Salt[:],
-		encData.ScryptN, scryptR, encData.ScryptP, scryptDKLen)
+	var nonce [24]byte
+	if len(encData.Nonce) != len(nonce) {
+		return nil, ErrInvalidEncData
+	}
+	derivedKey, err := deriveKey(pass, encData.Salt[:], encData.ScryptN, encData.ScryptP)
 	if err != nil {
 		return nil, err
 	}
 	var key [32]byte
 	copy(key[:], derivedKey)
-	var nonce [24]byte
 	copy(nonce[:], encData.Nonce)
 	var data []byte
 	data, ok := secretbox.Open(data, encData.EncryptedData, &nonce, &key)
-- 
2.43.0


From c4a4c2c76e97fcb18085cf7bae9139a0438e784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 49/70] fix: open a key store without records whose content is
 null

---
 keystore/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 8c6695b..f7870cc 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -272,6 +272,9 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 			return nil, err
 		}
 	}
+	if encryptedKeys == nil {
+		encryptedKeys = make(map[babyjub.PublicKeyComp]EncryptedData)
+	}
 	ks := &KeyStore{
 		storage:       storage,
 		params:        params,
-- 
2.43.0


From e92f4c1fdb9c3d372c2046826e950afec6180cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 50/70] fix: keep the records of the key store as stored when
 writing a new key fails

---
 keystore/keystore.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index f7870cc..9ea0d6c 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -332,14 +332,19 @@ func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.Publ
 	}
 	pk := sk.Public()
 	pubComp := pk.Compress()
-	ks.encryptedKeys[pubComp] = *encryptedKey
-	encryptedKeysJSON, err := json.Marshal(ks.encryptedKeys)
+	encryptedKeys := make(KeysStored, len(ks.encryptedKeys)+1)
+	for k, v := range ks.encryptedKeys {
+		encryptedKeys[k] = v
+	}
+	encryptedKeys[pubComp] = *encryptedKey
+	encryptedKeysJSON, err := json.Marshal(encryptedKeys)
 	if err != nil {
 		return nil, err
 	}
 	if err := ks.storage.Write(encryptedKeysJSON); err != nil {
 		return nil, err
 	}
+	ks.encryptedKeys = encryptedKeys
 	return &pubComp, nil
 }
 
-- 
2.43.0


From 5e8e231bb349588c60659553afa728f291334604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 51/70] fix: replace the key store file atomically

---
 keystore/keystore.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 9ea0d6c..02790b7 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -198,7 +198,31 @@ func (fs *FileStorage) Write(data []byte) error {
 	if !fs.lock.Locked() {
 		return ErrStorageUnlocked
 	}
-	return ioutil.WriteFile(fs.path, data, 0600)
+	return writeFileAtomic(fs.path, data)
+}
+
+// writeFileAtomic replaces the contents of the file in path, so that the file
+// has either the old or the new contents whenever the writing is interrupted.
+func writeFileAtomic(path string, data []byte) error {
+	tmpPath := path + ".tmp"
+	f, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if err1 := f.Close(); err == nil {
+		err = err1
+	}
+	if err == nil {
+		err = os.Rename(tmpPath, path)
+	}
+	if err != nil {
+		os.Remove(tmpPath) //nolint:errcheck
+	}
+	return err
 }
 
 // TryLocks the storage file with a .lock file.
-- 
2.43.0


From 4543d0b0c2d2849bfb1ba128dfb4634aa07e16da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 52/70] fix: keep the lock file of the key store, that other
 owners may already use

---
 keystore/keystore.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 02790b7..cf9cae6 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -229,17 +229,19 @@ func writeFileAtomic(path string, data []byte) error {
 func (fs *FileStorage) TryLock() (bool, error) {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
+	if fs.lock.Locked() {
+		return false, nil
+	}
 	return fs.lock.TryLock()
 }
 
-// Unlocks the storage file and removes the .lock file.
+// Unlocks the storage file.  The .lock file is kept: if it was removed, an
+// owner that has it open and another one that creates it again could both lock
+// the storage.
 func (fs *FileStorage) Unlock() error {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
-	if err := fs.lock.Unlock(); err != nil {
-		return err
-	}
-	return os.Remove(fs.path + ".lock")
+	return fs.lock.Unlock()
 }
 
 // MemStorage is a storage backed by a slice.
-- 
2.43.0


From 6cb674331c1abc62ac3547a271eac2e97c0721d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 53/70] fix: keep a copy of the data in the key store's memory
 storage

---
 keystore/keystore.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index cf9cae6..0f98484 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -249,12 +249,12 @@ type MemStorage []byte
 
 // Read reads the slice contents.
 func (ms *MemStorage) Read() ([]byte, error) {
-	return []byte(*ms), nil
+	return append([]byte{}, *ms...), nil
 }
 
 // Write copies the data to the slice.
 func (ms *MemStorage) Write(data []byte) error {
-	*ms = data
+	*ms = append([]byte{}, data...)
 	return nil
 }
 
-- 
2.43.0


From c87ef1dfdff353c04301c399eff11dfb03386e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 54/70] fix: reject signatures that are not reduced and
 messages out of the field

---
 keystore/keystore.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 0f98484..297b7b1 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -19,6 +19,7 @@ import (
 	common3 "github.com/iden3/go-iden3-core/common"
 	"github.com/iden3/go-iden3-crypto/babyjub"
 	"github.com/iden3/go-iden3-crypto/poseidon"
+	"github.com/iden3/go-iden3-crypto/utils"
 	"golang.org/x/crypto/nacl/secretbox"
 	"golang.org/x/crypto/scrypt"
 )
@@ -58,6 +59,8 @@ var (
 	ErrKeyNotInCache   = fmt.Errorf("public key not found in the cache.  Maybe it's not unlocked")
 	ErrKeyNotFound     = fmt.Errorf("public key not found in the key store")
 	ErrInvalidEncData  = fmt.Errorf("invalid encrypted data")
+	// ErrMsgNotInField is returned when the message is not a field element.
+	ErrMsgNotInField = fmt.Errorf("message is not a field element")
 	// ErrKeyDerivationCost is returned when the scrypt parameters are out of range.
 	ErrKeyDerivationCost = fmt.Errorf("invalid key derivation cost")
 )
@@ -410,6 +413,11 @@ func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 	return nil
 }
 
+// inField returns true if v is the canonical representation of a field element.
+func inField(v *big.Int) bool {
+	return v.Sign() >= 0 && utils.CheckBigIntInField(v)
+}
+
 // SignElem uses the key corresponding to the public key pk to sign the field
 // element msg.
 func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.SignatureComp, error) {
@@ -419,6 +427,9 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
+	if !inField(msg) {
+		return nil, ErrMsgNotInField
+	}
 	sig := sk.SignPoseidon(msg)
 	sigComp := sig.Compress()
 	return &sigComp, nil
@@ -460,6 +471,12 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 	if err != nil {
 		return false, err
 	}
+	if sig.S.Cmp(babyjub.SubOrder) >= 0 {
+		return false, nil
+	}
+	if !inField(msg) {
+		return false, ErrMsgNotInField
+	}
 	pk := babyjub.PublicKey(*pkPoint)
 	return pk.VerifyPoseidon(msg, sig), nil
 }
-- 
2.43.0


From fca2c0c429db1e8ffefe69dc623cc785c6412ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 55/70] fix: reject ecdsa signatures that are not canonical

---
 crypto/signatures.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/signatures.go b/crypto/signatures.go
index a5541fb..85d0d67 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -5,6 +5,7 @@ import (
 	"crypto/ecdsa"
 	"encoding/json"
 	"fmt"
+	"math/big"
 
 	"github.com/ethereum/go-ethereum/accounts"
 	"github.com/ethereum/go-ethereum/accounts/keystore"
@@ -83,6 +84,12 @@ func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte,
 
 // VerifySig verifies a given signature and the msgHash with the expected address
 func VerifySig(addr common.Address, sig *Signature, msgHash []byte) bool {
+	// Reject the second signature with a high s that anybody can compute
+	// from a valid signature.
+	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
+	if !crypto.ValidateSignatureValues(sig[64], r, s, true) {
+		return false
+	}
 	recoveredPub, err := crypto.Ecrecover(msgHash, sig[:])
 	if err != nil {
 		fmt.Printf("ECRecover error: %s\n", err)
-- 
2.43.0


From 8a539701ff9e19ff7f7b64b59cb407ae75a1ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 56/70] fix: do not delete a valid nonce when an old use of it
 expires

---
 utils/noncedb/nonce_db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 06e29e2..3eb36c9 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -186,7 +186,10 @@ func (ndb *NonceDb) DeleteOld() {
 		}
 		if nObj.Expiration < now {
 			ndb.noncesHeap.Pop()
-			delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			// The nonce may have been deleted and added again.
+			if ndb.nonceObjsByNonce[nObj.Nonce] == nObj {
+				delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From ccc997c6a6875be3623bc1d39cdb138ae37ce673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 57/70] fix: return copies of the nonce objects, that other
 calls may update

---
 utils/noncedb/nonce_db.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 3eb36c9..c25f0ef 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -95,7 +95,12 @@ func (ndb *NonceDb) Add(nonce string, delta int64, aux interface{}) *NonceObj {
 	expiration := time.Now().Unix() + delta
 	ndb.mutex.Lock()
 	defer ndb.mutex.Unlock()
-	return ndb.add(nonce, expiration, aux)
+	nObj := ndb.add(nonce, expiration, aux)
+	if nObj == nil {
+		return nil
+	}
+	nObjCopy := *nObj
+	return &nObjCopy
 }
 
 // New adds a new nonce to the db that expires after delta seconds, and returns
@@ -130,11 +135,14 @@ func (ndb *NonceDb) AddAux(nonce string, aux interface{}) bool {
 func (ndb *NonceDb) Search(nonce string) (*NonceObj, bool) {
 	ndb.DeleteOldOportunistic()
 	ndb.mutex.RLock()
-	nObj, ok := ndb.nonceObjsByNonce[nonce]
-	ndb.mutex.RUnlock()
+	entry, ok := ndb.nonceObjsByNonce[nonce]
 	if !ok {
+		ndb.mutex.RUnlock()
 		return nil, false
 	}
+	nObj := new(NonceObj)
+	*nObj = *entry
+	ndb.mutex.RUnlock()
 	if nObj.Expiration < time.Now().Unix() {
 		ok = false
 	}
-- 
2.43.0


From 45eaff50e9fcf6004923c49a3664df212a243472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 58/70] fix: keep nonces that expire in a very distant future

---
 utils/noncedb/nonce_db.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index c25f0ef..6206da1 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -4,6 +4,7 @@ import (
 	"container/heap"
 	"crypto/rand"
 	common3 "github.com/iden3/go-iden3-core/common"
+	"math"
 	"sync"
 	"time"
 )
@@ -92,7 +93,12 @@ func (ndb *NonceDb) add(nonce string, expiration int64, aux interface{}) *NonceO
 
 // Add adds a nonce with aux data that expires after delta seconds
 func (ndb *NonceDb) Add(nonce string, delta int64, aux interface{}) *NonceObj {
-	expiration := time.Now().Unix() + delta
+	expiration := time.Now().Unix()
+	if delta > math.MaxInt64-expiration {
+		expiration = math.MaxInt64
+	} else {
+		expiration += delta
+	}
 	ndb.mutex.Lock()
 	defer ndb.mutex.Unlock()
 	nObj := ndb.add(nonce, expiration, aux)
-- 
2.43.0


From 65cd8bcaa55f5daa4436fba6a8a8e44643b478f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 59/70] fix: reject malformed and missing http response bodies
 and keep the message of other errors

---
 components/httpclient/httpclient.go | 31 +++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/components/httpclient/httpclient.go b/components/httpclient/httpclient.go
index 4eb43f5..63c9c1a 100644
--- a/components/httpclient/httpclient.go
+++ b/components/httpclient/httpclient.go
@@ -1,8 +1,12 @@
 package httpclient
 
 import (
+	"encoding/json"
 	"fmt"
+	"io/ioutil"
+	"net/http"
 	"reflect"
+	"strings"
 
 	"github.com/dghubble/sling"
 	"gopkg.in/go-playground/validator.v9"
@@ -23,7 +27,7 @@ type HttpClient struct {
 }
 
 func NewHttpClient(urlBase string) *HttpClient {
-	if urlBase[len(urlBase)-1] != '/' {
+	if !strings.HasSuffix(urlBase, "/") {
 		urlBase += "/"
 	}
 	client := sling.New().Base(urlBase)
@@ -35,17 +39,40 @@ func (p *HttpClient) NewRequest() *sling.Sling {
 	return p.client.New()
 }
 
+// bodyDecoder decodes the whole body of a response as one JSON value.
+type bodyDecoder struct{}
+
+func (bodyDecoder) Decode(resp *http.Response, v interface{}) error {
+	body, err := ioutil.ReadAll(resp.Body)
+	if err != nil {
+		return err
+	}
+	err = json.Unmarshal(body, v)
+	if serverError, ok := v.(*ServerError); ok && err != nil {
+		// The error message is not JSON.
+		serverError.Err = fmt.Sprintf("%v: %s", resp.Status, body)
+		return nil
+	}
+	return err
+}
+
 func (p *HttpClient) DoRequest(s *sling.Sling, res interface{}) error {
 	var serverError ServerError
-	resp, err := s.Receive(res, &serverError)
+	resp, err := s.ResponseDecoder(bodyDecoder{}).Receive(res, &serverError)
 	if err != nil {
 		return err
 	}
 	defer resp.Body.Close()
 	if !(200 <= resp.StatusCode && resp.StatusCode < 300) {
+		if serverError.Err == "" {
+			serverError.Err = resp.Status
+		}
 		return serverError
 	}
 	if res != nil {
+		if resp.StatusCode == http.StatusNoContent {
+			return fmt.Errorf("the response has no content")
+		}
 		rv := reflect.ValueOf(res)
 		if rv.Kind() == reflect.Ptr && rv.Elem().Kind() == reflect.Struct {
 			return p.validate.Struct(res)
-- 
2.43.0


From 830ed4c1a87be95a943bad453833d24522b0602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 60/70] fix: keep the lock file of zk file downloads, that
 other processes may already use

---
 utils/zk/zk.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 5a5bb19..eef5655 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -100,14 +100,10 @@ func download(url, filename string) (err error) {
 			return err
 		}
 		if ok {
-			defer func() {
-				lock.Unlock()
-				if err = lock.Unlock(); err != nil {
-					return
-				}
-				err = os.Remove(filenameTmp + ".lock")
-				return
-			}()
+			// The lock file is kept: if it was removed, one that has
+			// it open and another one that creates it again could
+			// both get the lock.
+			defer lock.Unlock() //nolint:errcheck
 			break
 		}
 		log.WithField("filename", filename).Debug("ZkFile downloading locked, waiting...")
-- 
2.43.0


From fd7f78093817a828ebe1fae425eda571c6c3eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 61/70] fix: do not leave in place downloaded zk files with a
 wrong hash

---
 utils/zk/zk.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index eef5655..96aca69 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -82,7 +82,9 @@ func PrintProof(proof *zktypes.Proof) {
 		proofC[0], proofC[1])
 }
 
-func download(url, filename string) (err error) {
+// download the file from url into filename if it doesn't exist yet.  The file
+// is put in place only if check accepts it.
+func download(url, filename string, check func(filename string) error) (err error) {
 	// If the file already exists, return early
 	_, err = os.Stat(filename)
 	if err == nil {
@@ -150,19 +152,20 @@ func download(url, filename string) (err error) {
 	}
 
 	if _, err = io.Copy(f, resp.Body); err != nil {
+		f.Close() //nolint:errcheck
 		return err
 	}
 	if err := f.Sync(); err != nil {
+		f.Close() //nolint:errcheck
 		return err
 	}
 	if err := f.Close(); err != nil {
 		return err
 	}
-	if err = os.Rename(filenameTmp, filename); err != nil {
+	if err := check(filenameTmp); err != nil {
 		return err
 	}
-
-	return err
+	return os.Rename(filenameTmp, filename)
 }
 
 // calcHash uses sha256
@@ -262,10 +265,7 @@ func (z *ZkFiles) insecureDownload(basename string) error {
 	}
 	filename := path.Join(z.Path, basename)
 	url := fmt.Sprintf("%s/%s", z.Url, basename)
-	if err := download(url, filename); err != nil {
-		return err
-	}
-	return nil
+	return download(url, filename, func(string) error { return nil })
 }
 
 // InsecureDownloadAll downloads all the zk files but doesn't check the hashes.
@@ -329,13 +329,10 @@ func (z *ZkFiles) DebugDownloadPrintHashes(provingKeyFormat ProvingKeyFormat) er
 func (z *ZkFiles) downloadCheckFile(basename, hash string) error {
 	filename := path.Join(z.Path, basename)
 	url := fmt.Sprintf("%s/%s", z.Url, basename)
-	if err := download(url, filename); err != nil {
+	if err := download(url, filename, func(f string) error { return checkHash(f, hash) }); err != nil {
 		return err
 	}
-	if err := checkHash(filename, hash); err != nil {
-		return err
-	}
-	return nil
+	return checkHash(filename, hash)
 }
 
 func (z *ZkFiles) downloadFile(basename, hash string, filePath *string) error {
-- 
2.43.0


From 4ec4a3dd4c8db7c120f0410ea7dbf24bfe792fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:27 +0000
Subject: [PATCH 62/70] fix: report that the zk files can not be downloaded to
 print their hashes

---
 utils/zk/zk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 96aca69..0df9f28 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -312,7 +312,7 @@ func (z *ZkFiles) DebugDownloadPrintHashes(provingKeyFormat ProvingKeyFormat) er
 	defer os.RemoveAll(dir) // clean up
 	z0 := NewZkFiles(z.Url, dir, provingKeyFormat, ZkFilesHashes{}, false)
 	if err := z0.InsecureDownloadAll(); err != nil {
-		return nil
+		return err
 	}
 	hashes, err := z0.InsecureCalcHashes()
 	if err != nil {
-- 
2.43.0


From 1434e01d73bc0e54ac6c2b475f8e2864ba21f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:28 +0000
Subject: [PATCH 63/70] fix: check the hashes of zk files whenever they are
 read

---
 utils/zk/zk.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 0df9f28..be5cc2b 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -199,6 +199,23 @@ func checkHash(filename, hashStr string) error {
 	return nil
 }
 
+// readFileCheckHash returns the content of the file if it matches the hash.
+func readFileCheckHash(filename, hashStr string) ([]byte, error) {
+	content, err := ioutil.ReadFile(filename)
+	if err != nil {
+		return nil, err
+	}
+	h := sha256.Sum256(content)
+	hash, err := hex.DecodeString(hashStr)
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(h[:], hash) {
+		return nil, fmt.Errorf("hash mismatch: expected %v but got %v", hashStr, hex.EncodeToString(h[:]))
+	}
+	return content, nil
+}
+
 // ZkFilesHashes are the sha256 hash in hex of the zk files
 type ZkFilesHashes struct {
 	ProvingKey      string
@@ -395,6 +412,10 @@ func (z *ZkFiles) DownloadAll() error {
 
 func (z *ZkFiles) parseProvingKey() (*zktypes.Pk, error) {
 	start := time.Now()
+	// The file may have changed since it was downloaded.
+	if err := checkHash(z.pathProvingKey, z.hashes.ProvingKey); err != nil {
+		return nil, err
+	}
 	var pk *zktypes.Pk
 	switch z.provingKeyFormat {
 	case ProvingKeyFormatJSON:
@@ -478,7 +499,7 @@ func (z *ZkFiles) loadVerificationKey() error {
 			return err
 		}
 	}
-	vkJSON, err := ioutil.ReadFile(z.pathVerificationKey)
+	vkJSON, err := readFileCheckHash(z.pathVerificationKey, z.hashes.VerificationKey)
 	if err != nil {
 		return err
 	}
@@ -507,7 +528,7 @@ func (z *ZkFiles) loadWitnessCalcWASM() error {
 			return err
 		}
 	}
-	wasmBytes, err := ioutil.ReadFile(z.pathWitnessCalcWASM)
+	wasmBytes, err := readFileCheckHash(z.pathWitnessCalcWASM, z.hashes.WitnessCalcWASM)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f0a3300699c8b9289fd3fb0484523857a25cdc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 64/70] fix: write the key store file through symbolic links

---
 keystore/keystore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 297b7b1..29a5bff 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -11,6 +11,7 @@ import (
 	"io/ioutil"
 	"math/big"
 	"os"
+	"path/filepath"
 	"runtime"
 	"sync"
 
@@ -207,6 +208,9 @@ func (fs *FileStorage) Write(data []byte) error {
 // writeFileAtomic replaces the contents of the file in path, so that the file
 // has either the old or the new contents whenever the writing is interrupted.
 func writeFileAtomic(path string, data []byte) error {
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	}
 	tmpPath := path + ".tmp"
 	f, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
-- 
2.43.0


From a3b906e66ba2c172ae52f500019ebcd7eb5179d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 65/70] fix: return a copy of a consumed nonce, which is still
 in the heap

---
 utils/noncedb/nonce_db.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 6206da1..3edfd10 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -160,11 +160,13 @@ func (ndb *NonceDb) Search(nonce string) (*NonceObj, bool) {
 func (ndb *NonceDb) SearchAndDelete(nonce string) (*NonceObj, bool) {
 	ndb.DeleteOldOportunistic()
 	ndb.mutex.Lock()
-	nObj, ok := ndb.nonceObjsByNonce[nonce]
+	entry, ok := ndb.nonceObjsByNonce[nonce]
 	if !ok {
 		ndb.mutex.Unlock()
 		return nil, false
 	}
+	nObj := new(NonceObj)
+	*nObj = *entry
 	delete(ndb.nonceObjsByNonce, nonce)
 	ndb.mutex.Unlock()
 	if nObj.Expiration < time.Now().Unix() {
-- 
2.43.0


From cb44baca22980fb21a89a0b79857eb685e6fa7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:07 +0000
Subject: [PATCH 66/70] fix: do not return the public data of another identity
 state than the requested one

---
 components/idenpuboffchain/readerhttp/readerhttp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/idenpuboffchain/readerhttp/readerhttp.go b/components/idenpuboffchain/readerhttp/readerhttp.go
index f95637e..2a800e3 100644
--- a/components/idenpuboffchain/readerhttp/readerhttp.go
+++ b/components/idenpuboffchain/readerhttp/readerhttp.go
@@ -37,5 +37,9 @@ func (i *IdenPubOffChainReadHttp) GetPublicData(idenPubUrl string, id *core.ID,
 	if err != nil {
 		return nil, err
 	}
+	if idenState != nil && !publicData.IdenState.Equals(idenState) {
+		return nil, fmt.Errorf("the public data of the identity state %v was requested, but the one of %v was returned",
+			idenState, publicData.IdenState)
+	}
 	return publicData, nil
 }
-- 
2.43.0


From 8fc161eb6d56257b18f45b206444ae35f2c35632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 67/70] fix: reject texts that are too long for an id before
 decoding them

---
 core/id.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/id.go b/core/id.go
index 0fd2966..7ebfd45 100644
--- a/core/id.go
+++ b/core/id.go
@@ -77,8 +77,15 @@ func (id1 *ID) Equals(id2 *ID) bool {
 	return bytes.Equal(id1[:], id2[:])
 }
 
+// maxIDStringLen is the maximum length of the base58 encoding of an ID.
+const maxIDStringLen = 43
+
 // IDFromString returns the ID from a given string
 func IDFromString(s string) (ID, error) {
+	// The time to decode base58 grows quadratically with the length.
+	if len(s) > maxIDStringLen {
+		return ID{}, errors.New("IDFromString error: string too long")
+	}
 	b := base58.Decode(s)
 	return IDFromBytes(b)
 }
-- 
2.43.0


From 76df30768559d5facd1c2e396da791aae1d76b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 68/70] fix: reading claim metadata into a used variable keeps
 nothing of the other one

---
 core/claims/claim.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index 7422c90..32b7bd0 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -250,6 +250,7 @@ func (m Metadata) Marshal(e *merkletree.Entry) {
 
 // Unmarshal the Metadata from an entry
 func (m *Metadata) Unmarshal(e *merkletree.Entry) {
+	*m = Metadata{}
 	m.header.Unmarshal(e)
 	index := e.Index()
 	value := e.Value()
@@ -309,16 +310,17 @@ func (m *Metadata) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, &metadata); err != nil {
 		return err
 	}
-	m.header = ClaimHeader{
+	header := ClaimHeader{
 		Type:       metadata.Type,
 		Subject:    metadata.Subject,
 		SubjectPos: metadata.SubjectPos,
 		Expiration: metadata.Expiration != nil,
 		Version:    metadata.Version != nil,
 	}
-	if err := checkHeader(&m.header); err != nil {
+	if err := checkHeader(&header); err != nil {
 		return err
 	}
+	*m = NewMetadata(header)
 	if m.header.Subject != ClaimSubjectSelf {
 		if metadata.ID == nil {
 			return fmt.Errorf("claim metadata without the ID of its subject")
-- 
2.43.0


From 42cf07038fa9c94ae258bae38cf2df7161073cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 69/70] fix: refuse credentials for the true reason when
 reading the storage fails

---
 identity/issuer/issuer.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index c8510d8..34c2fc6 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -901,6 +901,16 @@ func generateExistenceMTProof(mt *merkletree.MerkleTree, hi, root *merkletree.Ha
 	return mtp, nil
 }
 
+// claimsTreeEntryExists returns ErrClaimNotFoundClaimsTree if the entry is not
+// in the claims tree under the given root.
+func claimsTreeEntryExists(mt *merkletree.MerkleTree, entry *merkletree.Entry, root *merkletree.Hash) error {
+	err := mt.EntryExists(entry, root)
+	if err == merkletree.ErrEntryIndexNotFound || err == merkletree.ErrEntryDataNotMatch {
+		return ErrClaimNotFoundClaimsTree
+	}
+	return err
+}
+
 // GenCredentialExistence generates an existence credential (claim + proof of
 // existence) of an issued claim.  The result contains all data necessary to
 // validate the credential against the Identity State found in the blockchain.
@@ -934,21 +944,22 @@ func (is *Issuer) GenCredentialExistence(claim merkletree.Entrier) (*proof.Crede
 	}
 	mtpExist, err := generateExistenceMTProof(is.claimsTree, hi,
 		idenStateTreeRoots.ClaimsTreeRoot)
-	if err != nil {
+	if err == ErrClaimNotFoundStateOnChain {
 		// We were unable to generate a proof from the claims tree
 		// associated with the on chain identity state.  Check if the
 		// claim exists in the current claims tree.
-		if err := is.claimsTree.EntryExists(claimEntry, nil); err != nil {
-			return nil, ErrClaimNotFoundClaimsTree
-		} else {
-			return nil, ErrClaimNotYetInOnChainState
-		}
-	} else {
-		// We were able to generate a proof from the claims tree with
-		// the HIndex.  Check the HValue is also valid!
-		if err := is.claimsTree.EntryExists(claimEntry, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
-			return nil, ErrClaimNotFoundClaimsTree
+		if err := claimsTreeEntryExists(is.claimsTree, claimEntry, nil); err != nil {
+			return nil, err
 		}
+		return nil, ErrClaimNotYetInOnChainState
+	} else if err != nil {
+		return nil, err
+	}
+	// We were able to generate a proof from the claims tree with the
+	// HIndex.  Check the HValue is also valid!
+	if err := claimsTreeEntryExists(is.claimsTree, claimEntry,
+		idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+		return nil, err
 	}
 	return &proof.CredentialExistence{
 		Id:                  is.id,
-- 
2.43.0


From 2a70cf0ce1f28f68470af199cf559b3a15ac60de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:50 +0000
Subject: [PATCH 70/70] fix: a key file reached through a symbolic link has one
 lock

---
 keystore/keystore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 29a5bff..ede0d4e 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -182,6 +182,10 @@ type FileStorage struct {
 
 // NewFileStorage returns a new FileStorage backed by a file in path.
 func NewFileStorage(path string) *FileStorage {
+	// A file that is also reached through a symbolic link has only one lock.
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	}
 	return &FileStorage{path: path, lock: flock.New(path + ".lock")}
 }
 
-- 
2.43.0

