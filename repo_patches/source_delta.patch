From ea6e238ff37e65f7c9fdd1f42e702c02554095e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 01/19] fix: restore the recorded size when decoding metadata

---
 unixfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unixfs.go b/unixfs.go
index f5020e0..643dbf6 100644
--- a/unixfs.go
+++ b/unixfs.go
@@ -365,6 +365,7 @@ func MetadataFromBytes(b []byte) (*Metadata, error) {
 	}
 	md := new(Metadata)
 	md.MimeType = pbm.GetMimeType()
+	md.Size = pbd.GetFilesize()
 	return md, nil
 }
 
-- 
2.43.0


From ee7d7a08d31613536408c621c56fda448f6757e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 02/19] fix: keep the data of a single-node file when appending
 to it

---
 importer/trickle/trickledag.go | 43 ++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index c2e6d03..40eb8a9 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -104,6 +104,11 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 		return nil, err
 	}
 
+	fsn, err = moveDataToLeaf(fsn, db)
+	if err != nil {
+		return nil, err
+	}
+
 	// Get depth of this 'tree'
 	depth, repeatNumber := trickleDepthInfo(fsn, db.Maxlinks())
 	if depth == 0 {
@@ -208,6 +213,11 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 		return fsn, fsn.FileSize(), nil
 	}
 
+	fsn, err := moveDataToLeaf(fsn, db)
+	if err != nil {
+		return nil, 0, err
+	}
+
 	// Get depth of this 'tree'
 	depth, repeatNumber := trickleDepthInfo(fsn, db.Maxlinks())
 	if depth == 0 {
@@ -251,6 +261,39 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 	return fsn, fsn.FileSize(), nil
 }
 
+// moveDataToLeaf prepares a node that keeps its file data inline (a file made
+// of a single node) for receiving children: as the content of a file with
+// links is that of its leaves only, the data has to be moved to a first leaf.
+// Any other node is returned as it is.
+func moveDataToLeaf(fsn *h.FSNodeOverDag, db *h.DagBuilderHelper) (*h.FSNodeOverDag, error) {
+	if fsn.NumChildren() > 0 || db.Done() {
+		return fsn, nil
+	}
+
+	nd, err := fsn.GetDagNode()
+	if err != nil {
+		return nil, err
+	}
+	inner, err := ft.ExtractFSNode(nd)
+	if err != nil {
+		return nil, err
+	}
+	data := inner.Data()
+	if len(data) == 0 {
+		return fsn, nil
+	}
+
+	leaf, err := db.NewLeafNode(data, ft.TRaw)
+	if err != nil {
+		return nil, err
+	}
+	node := db.NewFSNodeOverDag(ft.TFile)
+	if err := node.AddChild(leaf, uint64(len(data)), db); err != nil {
+		return nil, err
+	}
+	return node, nil
+}
+
 // Deduce where we left off in `fillTrickleRec`, returns the `depth`
 // with which new sub-graphs were being added and, within that depth,
 // in which `repeatNumber` of the total `depthRepeat` we should add.
-- 
2.43.0


From 836a65a4f00d54b88021ecd595aa1b56e8fda641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 03/19] fix: a failed seek leaves the reader where it says it
 is

---
 io/dagreader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index 7284bdc..5fd3294 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -462,6 +462,9 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 		})
 
 		if err != nil {
+			// The walker may have stopped anywhere on the way down, don't
+			// leave it out of step with the (reset) offset.
+			dr.resetPosition()
 			return 0, err
 		}
 
-- 
2.43.0


From 5651b51bcf3282ebb4a7cc21f30269e03c64e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 04/19] fix: count the bytes consumed by a write-out that fails

---
 io/dagreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/io/dagreader.go b/io/dagreader.go
index 5fd3294..ecd3a0f 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -265,6 +265,8 @@ func (dr *dagReader) readNodeDataBuffer(out []byte) int {
 func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 
 	n, err := dr.currentNodeData.WriteTo(w)
+	// Count what was consumed even if the writer failed.
+	dr.offset += n
 	if err != nil {
 		return n, err
 	}
@@ -276,7 +278,6 @@ func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 		// single node's data, not the entire DAG.
 	}
 
-	dr.offset += int64(n)
 	return n, nil
 }
 
-- 
2.43.0


From a6cb7ea04356720f4dd6477ad9eb2d9d0ef999c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 05/19] fix: modifier Seek from the end, and to negative
 positions

---
 mod/dagmodifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 6cc484a..18e185d 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -466,10 +466,13 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 	case io.SeekStart:
 		newoffset = uint64(offset)
 	case io.SeekEnd:
-		newoffset = uint64(fisize) - uint64(offset)
+		newoffset = uint64(fisize) + uint64(offset)
 	default:
 		return 0, ErrUnrecognizedWhence
 	}
+	if int64(newoffset) < 0 {
+		return 0, errors.New("invalid offset")
+	}
 
 	if int64(newoffset) > fisize {
 		if err := dm.expandSparse(int64(newoffset) - fisize); err != nil {
-- 
2.43.0


From b3d3954dc75fd72687e6afa0bf78cadcb4d3710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 06/19] fix: the modifier keeps the node it expanded, and no
 reader of the old one

---
 mod/dagmodifier.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 18e185d..b7763ef 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -138,7 +138,21 @@ func (dm *DagModifier) expandSparse(size int64) error {
 		return err
 	}
 	err = dm.dagserv.Add(dm.ctx, nnode)
-	return err
+	if err != nil {
+		return err
+	}
+	dm.setNode(nnode)
+	return nil
+}
+
+// setNode replaces the current node. An open reader would keep reading the
+// previous one, so it is dropped.
+func (dm *DagModifier) setNode(nd ipld.Node) {
+	dm.curNode = nd
+	if dm.read != nil {
+		dm.read = nil
+		dm.readCancel()
+	}
 }
 
 // Write continues writing to the dag at the current offset
@@ -483,7 +497,7 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 	dm.writeStart = newoffset
 
 	if dm.read != nil {
-		_, err = dm.read.Seek(offset, whence)
+		_, err = dm.read.Seek(int64(newoffset), io.SeekStart)
 		if err != nil {
 			return 0, err
 		}
@@ -523,7 +537,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 		return err
 	}
 
-	dm.curNode = nnode
+	dm.setNode(nnode)
 	return nil
 }
 
-- 
2.43.0


From 281347af4c8007210d6fffd8e15a6e69e0c708f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 07/19] fix: WriteAt writes where it is told to, and the
 position follows it

---
 mod/dagmodifier.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index b7763ef..610f164 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -91,11 +91,10 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
-	if offset == int64(dm.writeStart) && dm.wrBuf != nil {
-		// If we would overwrite the previous write
-		if len(b) >= dm.wrBuf.Len() {
-			dm.wrBuf.Reset()
-		}
+	if offset == int64(dm.writeStart) && dm.wrBuf != nil && len(b) >= dm.wrBuf.Len() {
+		// We would overwrite the previous write
+		dm.wrBuf.Reset()
+		dm.curWrOff = dm.writeStart
 	} else if uint64(offset) != dm.curWrOff {
 		size, err := dm.Size()
 		if err != nil {
@@ -113,6 +112,7 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 			return 0, err
 		}
 		dm.writeStart = uint64(offset)
+		dm.curWrOff = uint64(offset)
 	}
 
 	return dm.Write(b)
-- 
2.43.0


From 6012120d9efebb24ceec88fb2a4099d3ca8a9548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 08/19] fix: writing after a read starts at the current
 position

---
 mod/dagmodifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 610f164..aafd42e 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -399,6 +399,8 @@ func (dm *DagModifier) Read(b []byte) (int, error) {
 
 	n, err := dm.read.Read(b)
 	dm.curWrOff += uint64(n)
+	// nothing is pending here, the next write starts where the read ended
+	dm.writeStart = dm.curWrOff
 	return n, err
 }
 
@@ -443,6 +445,8 @@ func (dm *DagModifier) CtxReadFull(ctx context.Context, b []byte) (int, error) {
 
 	n, err := dm.read.CtxReadFull(ctx, b)
 	dm.curWrOff += uint64(n)
+	// nothing is pending here, the next write starts where the read ended
+	dm.writeStart = dm.curWrOff
 	return n, err
 }
 
-- 
2.43.0


From 74c4a056cea5bd81153cbf447e5375d5aa967935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 09/19] fix: append to a file made of a single raw leaf

---
 importer/trickle/trickledag.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index 40eb8a9..1d5dca4 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -92,16 +92,26 @@ func fillTrickleRec(db *h.DagBuilderHelper, node *h.FSNodeOverDag, maxDepth int)
 //
 // Deprecated: use github.com/ipfs/boxo/ipld/unixfs/importer/trickle.Append
 func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out ipld.Node, errOut error) {
-	base, ok := basen.(*dag.ProtoNode)
-	if !ok {
-		return nil, dag.ErrNotProtobuf
-	}
-
 	// Convert to unixfs node for working with easily
-
-	fsn, err := h.NewFSNFromDag(base)
-	if err != nil {
-		return nil, err
+	var fsn *h.FSNodeOverDag
+	var err error
+	switch base := basen.(type) {
+	case *dag.ProtoNode:
+		fsn, err = h.NewFSNFromDag(base)
+		if err != nil {
+			return nil, err
+		}
+	case *dag.RawNode:
+		// A file made of a single raw leaf, put it under a root.
+		if db.Done() {
+			return base, nil
+		}
+		fsn = db.NewFSNodeOverDag(ft.TFile)
+		if err := fsn.AddChild(base, uint64(len(base.RawData())), db); err != nil {
+			return nil, err
+		}
+	default:
+		return nil, dag.ErrNotProtobuf
 	}
 
 	fsn, err = moveDataToLeaf(fsn, db)
-- 
2.43.0


From 86c5996c5745a1d5cc95695cda80b16592bddb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 10/19] fix: overwriting file data does not change nodes handed
 out earlier

---
 mod/dagmodifier.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index aafd42e..a5d4ebd 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -335,6 +335,15 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 		return cid.Cid{}, err
 	}
 
+	// Copies of a node share its links, so change new ones.
+	node = node.Copy().(*mdag.ProtoNode)
+	links := make([]*ipld.Link, len(node.Links()))
+	for i, lnk := range node.Links() {
+		cp := *lnk
+		links[i] = &cp
+	}
+	node.SetLinks(links)
+
 	var cur uint64
 	for i, bs := range fsn.BlockSizes() {
 		// We found the correct child to write into
-- 
2.43.0


From 31c0ce13551d6c5eb9c5d920d88fb5e9f4b327bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 11/19] fix: refuse entries without a name in a sharded
 directory

---
 hamt/hamt.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index e789aa8..b9a827b 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -46,6 +46,10 @@ const (
 	HashMurmur3 uint64 = 0x22
 )
 
+// errEmptyName is returned when an entry without a name is added: the link of
+// such an entry could not be told from the link to a sub-shard.
+var errEmptyName = fmt.Errorf("hamt entry name must not be empty")
+
 func init() {
 	internal.HAMTHashFunction = murmur3Hash
 }
@@ -257,6 +261,10 @@ func (ds *Shard) Set(ctx context.Context, name string, nd ipld.Node) error {
 // given link. This avoids writing the given node, then reading it to making a
 // link out of it.
 func (ds *Shard) SetLink(ctx context.Context, name string, lnk *ipld.Link) error {
+	if name == "" {
+		return errEmptyName
+	}
+
 	hv := newHashBits(name)
 
 	newLink := ipld.Link{
@@ -277,6 +285,10 @@ func (ds *Shard) SetLink(ctx context.Context, name string, lnk *ipld.Link) error
 // name key in this Shard or its children. It also returns the previous link
 // under that name key (if any).
 func (ds *Shard) Swap(ctx context.Context, name string, node ipld.Node) (*ipld.Link, error) {
+	if name == "" {
+		return nil, errEmptyName
+	}
+
 	hv := newHashBits(name)
 	err := ds.dserv.Add(ctx, node)
 	if err != nil {
-- 
2.43.0


From 9d30502825d472f4ea793ab8fca0fe8cbfd84b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 12/19] fix: end the size estimate's enumeration before the
 directory is changed

---
 io/directory.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index a0ec307..6028f3d 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -517,9 +517,16 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 
 	// We stop the enumeration once we have enough information and exit this function.
 	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
+	linkResults := d.EnumLinksAsync(ctx)
+	defer func() {
+		cancel()
+		// Wait for the enumeration to end: it must not be looking at the shards
+		// any more when the caller goes on to change them.
+		for range linkResults {
+		}
+	}()
 
-	for linkResult := range d.EnumLinksAsync(ctx) {
+	for linkResult := range linkResults {
 		if linkResult.Err != nil {
 			return false, linkResult.Err
 		}
-- 
2.43.0


From 9cdd82fa7634ba376b163751884774fb64a9f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 13/19] fix: count size changes from where the directory became
 sharded

---
 io/directory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/io/directory.go b/io/directory.go
index 6028f3d..778a6d7 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -600,6 +600,8 @@ func (d *DynamicDirectory) AddChild(ctx context.Context, name string, nd ipld.No
 	if err != nil {
 		return err
 	}
+	// The threshold was reached with the new entry: size changes count from here.
+	hamtDir.sizeChange = 0
 	d.Directory = hamtDir
 	return nil
 }
-- 
2.43.0


From 1ea39896636b597538e6847f795153a58d8d9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 14/19] fix: a cancelled directory enumeration ends with an
 error

---
 hamt/hamt.go    | 26 +++++++++++++++++++++++---
 io/directory.go |  9 ++++++++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index b9a827b..b816c77 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -426,7 +426,7 @@ func (ds *Shard) ForEachLink(ctx context.Context, f func(*ipld.Link) error) erro
 // EnumLinksAsync returns a channel which will receive Links in the directory
 // as they are enumerated, where order is not guaranteed
 func (ds *Shard) EnumLinksAsync(ctx context.Context) <-chan format.LinkResult {
-	linkResults := make(chan format.LinkResult)
+	linkResults := make(chan format.LinkResult, 1)
 	ctx, cancel := context.WithCancel(ctx)
 	go func() {
 		defer close(linkResults)
@@ -437,7 +437,7 @@ func (ds *Shard) EnumLinksAsync(ctx context.Context) <-chan format.LinkResult {
 			return nil
 		})
 		if err != nil {
-			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})
+			emitLastResult(linkResults, format.LinkResult{Link: nil, Err: err})
 		}
 	}()
 	return linkResults
@@ -614,7 +614,11 @@ dispatcherLoop:
 		}
 	}
 	close(feed)
-	return grp.Wait()
+	if err := grp.Wait(); err != nil {
+		return err
+	}
+	// The workers stop quietly when the context ends: the walk may be incomplete.
+	return ctx.Err()
 }
 
 func emitResult(ctx context.Context, linkResults chan<- format.LinkResult, r format.LinkResult) {
@@ -633,6 +637,22 @@ func emitResult(ctx context.Context, linkResults chan<- format.LinkResult, r for
 	}
 }
 
+// emitLastResult delivers the error that ends an enumeration whether or not
+// anybody is still reading. The caller is the only sender left and the channel
+// has room for one result, which the error may displace.
+func emitLastResult(linkResults chan format.LinkResult, r format.LinkResult) {
+	select {
+	case linkResults <- r:
+		return
+	default:
+	}
+	select {
+	case <-linkResults:
+	default:
+	}
+	linkResults <- r
+}
+
 func (ds *Shard) walkTrie(ctx context.Context, cb func(*Shard) error) error {
 	return ds.childer.each(ctx, func(s *Shard) error {
 		if s.isValueNode() {
diff --git a/io/directory.go b/io/directory.go
index 778a6d7..549ab66 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -261,7 +261,7 @@ func (d *BasicDirectory) addLinkChild(ctx context.Context, name string, link *ip
 // EnumLinksAsync returns a channel which will receive Links in the directory
 // as they are enumerated, where order is not gauranteed
 func (d *BasicDirectory) EnumLinksAsync(ctx context.Context) <-chan format.LinkResult {
-	linkResults := make(chan format.LinkResult)
+	linkResults := make(chan format.LinkResult, 1)
 	go func() {
 		defer close(linkResults)
 		for _, l := range d.node.Links() {
@@ -271,6 +271,13 @@ func (d *BasicDirectory) EnumLinksAsync(ctx context.Context) <-chan format.LinkR
 				Err:  nil,
 			}:
 			case <-ctx.Done():
+				// Report that the enumeration is incomplete, in place of
+				// a result nobody has read yet if need be.
+				select {
+				case <-linkResults:
+				default:
+				}
+				linkResults <- format.LinkResult{Link: nil, Err: ctx.Err()}
 				return
 			}
 		}
-- 
2.43.0


From 2050f262f493ab66ef8190c5248dbd7db579a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:02 +0000
Subject: [PATCH 15/19] fix: refuse a shard whose bitfield does not fit its
 width or its links

---
 hamt/hamt.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index b816c77..2add790 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -169,8 +169,16 @@ func NewHamtFromDag(dserv ipld.DAGService, nd ipld.Node) (*Shard, error) {
 		return nil, err
 	}
 
+	if len(fsn.Data()) > len(ds.childer.bitfield) {
+		return nil, fmt.Errorf("hamt bitfield of %d bytes does not fit width %d", len(fsn.Data()), size)
+	}
+
 	ds.childer.makeChilder(fsn.Data(), pbnd.Links())
 
+	if ones := ds.childer.bitfield.Ones(); ones != len(pbnd.Links()) {
+		return nil, fmt.Errorf("hamt bitfield has %d bits set for %d links", ones, len(pbnd.Links()))
+	}
+
 	ds.hashFunc = fsn.HashType()
 	ds.builder = pbnd.CidBuilder()
 
-- 
2.43.0


From 2bcc1c2841ebb33e727c6bc76d83f81c47625b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 16/19] fix: report a link name without index instead of
 panicking

---
 hamt/hamt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 2add790..fda201d 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -221,6 +221,9 @@ func (ds *Shard) Node() (ipld.Node, error) {
 		} else {
 			// child unloaded, just copy in link with updated name
 			lnk := ds.childer.link(sliceIndex)
+			if _, err := ds.childLinkType(lnk); err != nil {
+				return nil, err
+			}
 			label := lnk.Name[ds.maxpadlen:]
 
 			err := out.AddRawLink(ds.linkNamePrefix(childIndex)+label, lnk)
-- 
2.43.0


From a88d82dddcd46afb11edaa34fa1b617d5e9ae27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:01 +0000
Subject: [PATCH 17/19] fix: WriteAt refuses a negative offset

The offset wrapped around and the data was appended to the file.
---
 mod/dagmodifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index a5d4ebd..c57ee5b 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -88,6 +88,10 @@ func NewDagModifier(ctx context.Context, from ipld.Node, serv ipld.DAGService, s
 
 // WriteAt will modify a dag file in place
 func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
+	if offset < 0 {
+		return 0, errors.New("invalid offset")
+	}
+
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
-- 
2.43.0


From 8cdad7ca6d848ae27ab4f308211dd3046054e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:01 +0000
Subject: [PATCH 18/19] fix: Truncate refuses a negative size

No child holds the place of the cut then: it panicked.
---
 mod/dagmodifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index c57ee5b..4f5c397 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -526,6 +526,10 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 // Truncate truncates the current Node to 'size' and replaces it with the
 // new one.
 func (dm *DagModifier) Truncate(size int64) error {
+	if size < 0 {
+		return errors.New("invalid size")
+	}
+
 	err := dm.Sync()
 	if err != nil {
 		return err
-- 
2.43.0


From 35e11653107b4cf12c243ee8478ea2b2f568f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:33 +0000
Subject: [PATCH 19/19] fix: io: an empty sharded directory stays sharded when
 the added entry alone reaches the threshold

---
 io/directory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index 549ab66..2ee0f00 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -546,8 +546,9 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		}
 	}
 
-	// We enumerated *all* links in all shards and didn't reach the threshold.
-	return true, nil
+	// We enumerated *all* links in all shards and didn't reach the threshold,
+	// unless there were none and the change alone reaches it.
+	return partialSize+sizeChange < HAMTShardingSize, nil
 }
 
 // DynamicDirectory wraps a Directory interface and provides extra logic
-- 
2.43.0

