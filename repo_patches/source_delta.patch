From bcb35a199ce9f7544dd1e3dd4a2a9d0538ddd9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 01/30] fix: accept size-prefixed root tables in FileWriter

tableSize compared the table position with the length of the size prefix,
but the position of a size-prefixed root table is the prefix length plus
the root uoffset_t. Every valid header and feature was rejected, so
FileWriter could not write anything. Buffers too short to contain the
prefix and the root offset are rejected instead of panicking.
---
 flatgeobuf/flatbuffers.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index fa07851..e470db9 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -48,8 +48,17 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 }
 
 func tableSize(t flatbuffers.Table) (size uint32, err error) {
-	if t.Pos != flatbuffers.SizeUint32 {
+	// The smallest possible size-prefixed root table buffer contains the
+	// size prefix followed by the root table's uoffset_t.
+	if len(t.Bytes) < flatbuffers.SizeUint32+flatbuffers.SizeUOffsetT {
 		err = fmtErr("not a size-prefixed root FlatBuffers table at offset 0 (Len=%d, Pos=%d)", len(t.Bytes), t.Pos)
+		return
+	}
+	// The root table's position is given by the uoffset_t immediately
+	// following the size prefix.
+	if t.Pos != flatbuffers.SizeUint32+flatbuffers.GetUOffsetT(t.Bytes[flatbuffers.SizeUint32:]) {
+		err = fmtErr("not a size-prefixed root FlatBuffers table at offset 0 (Len=%d, Pos=%d)", len(t.Bytes), t.Pos)
+		return
 	}
 	size = flatbuffers.GetUint32(t.Bytes)
 	return
-- 
2.43.0


From 6c86a18c2924054a694fe3bfd2a1d89baae3c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 02/30] fix: detect table buffers shorter than their size
 prefix before writing

The check in writeSizePrefixedTable forgot the four bytes of the size
prefix itself (and could wrap around in 32 bits), so a truncated table
buffer panicked or leaked bytes beyond its length. Moving it to tableSize
also makes IndexData reject such a feature before it writes the index.
---
 flatgeobuf/flatbuffers.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index e470db9..b9409ac 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -38,11 +38,8 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 	var size uint32
 	if size, err = tableSize(t); err != nil {
 		return
-	} else if uint64(size) > uint64(len(t.Bytes)) {
-		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
-		return
 	} else {
-		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+size])
+		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+uint64(size)])
 		return
 	}
 }
@@ -61,5 +58,8 @@ func tableSize(t flatbuffers.Table) (size uint32, err error) {
 		return
 	}
 	size = flatbuffers.GetUint32(t.Bytes)
+	if uint64(size) > uint64(len(t.Bytes)-flatbuffers.SizeUint32) {
+		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
+	}
 	return
 }
-- 
2.43.0


From dcf9bd993caa85904c30fb4c5507d65d64f864c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 03/30] fix: validate the header table before writing the magic
 number

A header that is not a size-prefixed root table was only rejected after
the magic number had been written, which made the writer unusable.
---
 flatgeobuf/file_writer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 239d634..52cc5fb 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -82,6 +82,13 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		return
 	}
 
+	// Check that the header table can be written, so that a header which
+	// can't be does not leave a lone magic number on the stream.
+	if _, err = tableSize(hdr.Table()); err != nil {
+		err = wrapErr("failed to get header table size", err)
+		return
+	}
+
 	// Transition into state for writing magic number.
 	if err = w.toState(uninitialized, beforeMagic); err == errUnexpectedState {
 		err = textErr(errHeaderAlreadyCalled)
-- 
2.43.0


From a431809462ca55b4f0482b8d16cfbf45764d13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 04/30] fix: count the size prefix in the feature offsets
 written by IndexData

The offset of every feature after the first was too small by the four
size prefix bytes of each preceding feature, so index searches read
features from the wrong position.
---
 flatgeobuf/file_writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 52cc5fb..e4e5e93 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
 
 	"github.com/gogama/flatgeobuf/packedrtree"
+	flatbuffers "github.com/google/flatbuffers/go"
 )
 
 // FileWriter writes a FlatGeobuf file to an underlying stream.
@@ -197,7 +198,7 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 				return wrapErr("feature %d", err, i)
 			}
 			bounds.Expand(&refs[i].Box)
-			offset += int64(size)
+			offset += flatbuffers.SizeUint32 + int64(size)
 		}
 		return nil
 	})
-- 
2.43.0


From 51fa744fa1acb1f56ef58ac08eb9233c2b607d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 05/30] fix: include geometry parts in the feature bounds
 indexed by IndexData

Only the coordinates of the top-level geometry were considered, so
features with nested parts (e.g. MultiPolygon) got an empty bounding box
and could never be found by an index search.
---
 flatgeobuf/file_writer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index e4e5e93..aa403b9 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -323,10 +323,7 @@ func featureBounds(b *packedrtree.Box, f *flat.Feature) error {
 	return safeFlatBuffersInteraction(func() error {
 		var g flat.Geometry
 		if f.Geometry(&g) != nil {
-			n := g.XyLength()
-			for i := 0; i < n; i += 2 {
-				b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
-			}
+			geomBounds(&g, b)
 		}
 		return nil
 	})
-- 
2.43.0


From d98279c326cfd5428e10d6b170eb1c5b1c1b6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 06/30] fix: treat a file with feature count zero as not
 indexed

The FlatGeobuf schema defaults the index node size to 16, so a header
with an empty or unknown feature count usually has a non-zero node size,
but there can't be an index without a feature count. Reading such a file
panicked ('empty tree not allowed'), and writing it was impossible.
---
 flatgeobuf/file_reader.go | 3 +++
 flatgeobuf/file_writer.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 12ed755..89769e3 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -134,6 +134,9 @@ func (r *FileReader) Header() (*flat.Header, error) {
 	// Store feature count and node size.
 	r.numFeatures = int(numFeatures)
 	r.nodeSize = nodeSize
+	if numFeatures == 0 {
+		r.nodeSize = 0 // No index, since index size depends on feature count.
+	}
 
 	// Transition into state for reading index.
 	if err = r.toState(beforeHeader, afterHeader); err != nil {
diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index aa403b9..9921305 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -122,6 +122,9 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 	// Save cached feature count and index node size.
 	w.numFeatures = int(numFeatures)
 	w.nodeSize = nodeSize
+	if numFeatures == 0 {
+		w.nodeSize = 0 // No index, since index size depends on feature count.
+	}
 
 	// Transition into the state for writing index.
 	err = w.toState(beforeHeader, afterHeader)
-- 
2.43.0


From acef0cf58734514ca77cc888335dbbe6cbfbd032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 07/30] fix: reject a wrong number of features in IndexData
 before indexing them

IndexData of an empty list panicked ('empty tree not allowed') instead of
reporting the mismatch with the header's feature count.
---
 flatgeobuf/file_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 9921305..ee8e353 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -184,6 +184,12 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 
+	// Ensure feature count agrees with header parameter.
+	if w.numFeatures != len(data) {
+		err = fmtErr("feature count mismatch (header=%d, data=%d)", w.numFeatures, len(data))
+		return
+	}
+
 	// Create index.
 	refs := make([]packedrtree.Ref, len(data))
 	bounds := packedrtree.EmptyBox
-- 
2.43.0


From cfe6b4590949633e066cded3143dfb76da1561df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 08/30] fix: index search on a stream which is not an io.Seeker

IndexSearch called Index with the reader already in the beforeIndex
state, which panicked ('logic error: unexpected state').
---
 flatgeobuf/file_reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 89769e3..674e6e1 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -262,8 +262,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		}
 	} else if r.cachedIndex == nil {
 		// Force caching the index.
-		if _, err := r.Index(); err != nil {
-			return nil, err
+		var err error
+		if r.cachedIndex, err = packedrtree.Unmarshal(r.r, r.numFeatures, r.nodeSize); err != nil {
+			return nil, r.toErr(wrapErr("failed to read index", err))
 		}
 		sr = r.cachedIndex.Search(b)
 	} else {
-- 
2.43.0


From 44ae6b33e36fff4a66799fd2a9d0d3d83132f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 09/30] fix: return the right features from index search if
 leaves are not in file order

IndexSearch relied on streaming search results being in ascending offset
order. They are in leaf order, so with an index whose leaf order is not
the feature order it returned the wrong features.
---
 flatgeobuf/file_reader.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 674e6e1..954e4e9 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -271,11 +271,10 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		textPanic("logic error: index should not be cached")
 	}
 
-	// If the search results did not come from streaming search, sort
-	// them so their offsets are in file order.
-	if r.cachedIndex != nil {
-		sort.Sort(sr)
-	}
+	// Sort the search results so their offsets are in file order. Not
+	// even streaming search guarantees this, as the order of the index
+	// leaf nodes need not be the order of the features in the file.
+	sort.Sort(sr)
 
 	// The reader's read cursor is now past the index and at the
 	// start of the data section.
-- 
2.43.0


From 5605595852dbbaaf27fc807395215e4444b11b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 10/30] fix: write features in index order in IndexData

The features were written in the order given, but the n'th leaf of the
index has to refer to the n'th feature of the data section: Result.RefIndex
is documented (ExampleFileReader_Index) to be usable as feature index, and
other FlatGeobuf implementations depend on it.
---
 flatgeobuf/file_writer.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index ee8e353..e84aa1a 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -195,11 +195,9 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 	bounds := packedrtree.EmptyBox
 	var i int
 	err = safeFlatBuffersInteraction(func() error {
-		var offset int64
 		for i = range data {
-			refs[i].Offset = offset
-			var size uint32
-			if size, err = tableSize(data[i].Table()); err != nil {
+			refs[i].Offset = int64(i)
+			if _, err = tableSize(data[i].Table()); err != nil {
 				return wrapErr("feature %d", err, i)
 			}
 			err = featureBounds(&refs[i].Box, data[i])
@@ -207,7 +205,6 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 				return wrapErr("feature %d", err, i)
 			}
 			bounds.Expand(&refs[i].Box)
-			offset += flatbuffers.SizeUint32 + int64(size)
 		}
 		return nil
 	})
@@ -216,6 +213,19 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 	packedrtree.HilbertSort(refs, bounds)
+
+	// Put the features in index order, because the n'th leaf node of the
+	// index must refer to the n'th feature of the data section.
+	sorted := make([]*flat.Feature, len(data))
+	var offset int64
+	for i = range refs {
+		sorted[i] = data[refs[i].Offset]
+		refs[i].Offset = offset
+		offset += flatbuffers.SizeUint32 + int64(flatbuffers.GetUint32(sorted[i].Table().Bytes))
+	}
+	data = sorted
+
+	// Create the R-Tree.
 	var index *packedrtree.PackedRTree
 	if index, err = packedrtree.New(refs, w.nodeSize); err != nil {
 		return
-- 
2.43.0


From e5df313c714b3fae97869ca6b9bae0e511cec060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 11/30] fix: don't signal end of data for an empty read of
 unknown feature count

Data with an empty slice returned io.EOF and put the reader into the EOF
state, losing all remaining features.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 954e4e9..eab9e76 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -379,7 +379,7 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 			return i, err
 		}
 	}
-	if n == rem {
+	if r.numFeatures > 0 && n == rem {
 		if err := r.toState(inData, eof); err != nil {
 			return n, err
 		}
-- 
2.43.0


From 85e3b01ca2cf2bdfc3eee7251cbff8f8ce71e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 12/30] fix: don't panic or over-allocate in DataRem

If the header declares a feature count, DataRem panicked when called after
an index search ('expected n features but read 0') or on a file truncated
within the index, and allocated memory for whatever count the header
claims. Read in chunks until the end of data, as for an unknown count.
---
 flatgeobuf/file_reader.go | 48 ++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index eab9e76..d446add 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -390,36 +390,28 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 
 // TODO: Write docs.
 func (r *FileReader) DataRem() ([]flat.Feature, error) {
-	if r.numFeatures > 0 {
-		rem := r.numFeatures - r.featureIndex
-		p := make([]flat.Feature, rem)
-		n, err := r.Data(p)
-		p = p[0:n]
-		if err != nil && err != io.EOF {
-			return p, err
-		}
-		if n != rem {
-			fmtPanic("expected %d features but read %d", rem, n)
-		}
-		return p, nil
-	} else {
-		p := make([]flat.Feature, 1024)
-		n, err := r.Data(p)
+	// Read in chunks, because the feature count in the header can't be
+	// trusted to allocate memory for all remaining features at once.
+	size := 1024
+	if rem := r.numFeatures - r.featureIndex; r.numFeatures > 0 && rem < size {
+		size = rem
+	}
+	p := make([]flat.Feature, size)
+	n, err := r.Data(p)
+	if err != nil && err != io.EOF {
+		return p[0:n], err
+	} else if err == io.EOF {
+		return p[0:n], nil
+	}
+	q := make([]flat.Feature, 0, 2*len(p))
+	q = append(q, p[0:n]...)
+	for {
+		n, err = r.Data(p)
+		q = append(q, p[0:n]...)
 		if err != nil && err != io.EOF {
-			return p[0:n], err
+			return q, err
 		} else if err == io.EOF {
-			return p[0:n], nil
-		}
-		q := make([]flat.Feature, 0, 2*len(p))
-		q = append(q, p[0:n]...)
-		for {
-			n, err = r.Data(p)
-			q = append(q, p[0:n]...)
-			if err != nil && err != io.EOF {
-				return q, err
-			} else if err == io.EOF {
-				return q, nil
-			}
+			return q, nil
 		}
 	}
 }
-- 
2.43.0


From dc4149219ab748e398a719f8919870055659572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 13/30] fix: save the data offset when the index is cached

Index, Rewind, then Index or IndexSearch seeked to offset zero and read
the magic number as feature data, because the data offset was only saved
when data was read.
---
 flatgeobuf/file_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index d446add..d759a93 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -208,6 +208,12 @@ func (r *FileReader) Index() (*packedrtree.PackedRTree, error) {
 	// Cache the index for use after future Rewind().
 	r.cachedIndex = prt
 
+	// Since a cached index is skipped after a Rewind(), save the reader's
+	// position at the start of the data section as well.
+	if err = r.saveDataOffset(s); err != nil {
+		return nil, err
+	}
+
 	// Transition into state for reading feature data.
 	if err = r.toState(beforeIndex, afterIndex); err != nil {
 		return nil, err
-- 
2.43.0


From f2ca15c6d0d027cbf5cf2f00a2a57a5bf5b80f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 14/30] fix: rewind of a seekable file without an index

Rewind required the index offset to be known and so failed, claiming that
the reader is not an io.Seeker, for every file without an index.
---
 flatgeobuf/file_reader.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index d759a93..7846ee8 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -433,10 +433,21 @@ func (r *FileReader) Rewind() error {
 	r.sanityCheckState()
 	if r.state < afterHeader {
 		return textErr(errHeaderNotCalled)
-	} else if r.indexOffset == 0 {
+	}
+	s, ok := r.r.(io.Seeker)
+	if !ok {
 		return textErr("can't rewind: reader is not an io.Seeker")
 	}
 
+	// Without an index there's nothing to seek past or to later, so seek
+	// to the data section now, unless the read cursor never moved past
+	// its start.
+	if r.nodeSize == 0 && r.dataOffset > 0 {
+		if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
+			return r.toErr(wrapErr("failed to seek to data section", err))
+		}
+	}
+
 	// Reset state to just after reading the header, but lazily do not
 	// seek. Actual seeking will be done by either Index() or one of the
 	// Data family of methods, as appropriate.
-- 
2.43.0


From b67dd858bdcbe3fde7979bcdff9decb4d4678c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 15/30] fix: report a file truncated within the index as an
 error

Skipping the index of a truncated file on a stream which is not an
io.Seeker returned a plain io.EOF from Data, which is indistinguishable
from a normal end of data.
---
 flatgeobuf/file_reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 7846ee8..b9e5b36 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -600,7 +600,9 @@ func discard(r io.Reader, buf []byte, n int64) error {
 		} else {
 			a, err = r.Read(buf)
 		}
-		if err != nil {
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		} else if err != nil {
 			return err
 		}
 		n -= int64(a)
-- 
2.43.0


From c1bfaf924b974e493cb507239d500c7cc65f7916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 16/30] fix: report a file truncated after a feature length as
 unexpected EOF

The error wrapped io.EOF, so errors.Is(err, io.EOF) mistook the truncated
file for a normal end of data.
---
 flatgeobuf/file_reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index b9e5b36..b39c0ac 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -565,6 +565,9 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	tbl := make([]byte, flatbuffers.SizeUint32+featureLen)
 	copy(tbl, b)
 	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF // The length was read, so this isn't a normal end of file.
+		}
 		return r.toErr(wrapErr("failed to read feature[%d] (offset %d, len=%d)", err, r.featureIndex, r.featureOffset, featureLen))
 	}
 
-- 
2.43.0


From 44f8772f3e1513250c36f7653ccb84fcfd4475cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 17/30] fix: enter the error state on a corrupt header table

Any call after Header failed to interpret the header table panicked
('logic error: invalid state 0x21') instead of returning the error.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index b39c0ac..4f04572 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -113,7 +113,7 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		nodeSize = hdr.IndexNodeSize()
 		return nil
 	}); err != nil {
-		return nil, err
+		return nil, r.toErr(wrapErr("failed to interpret header table", err))
 	}
 
 	// Avoid overflow on feature count, because we interact with it
-- 
2.43.0


From e3f06ed158d76bf51f06499656748a305bbcb358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 18/30] fix: don't trust the feature length prefix to allocate
 memory

A corrupt length allocated up to 4 GiB before noticing that the bytes
aren't there, and a length within four of the uint32 maximum wrapped around
and panicked ('slice bounds out of range').
---
 flatgeobuf/file_reader.go |  5 ++---
 flatgeobuf/flatbuffers.go | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 4f04572..3f45ad5 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -562,9 +562,8 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	}
 
 	// Read the feature table bytes.
-	tbl := make([]byte, flatbuffers.SizeUint32+featureLen)
-	copy(tbl, b)
-	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
+	var tbl []byte
+	if tbl, err = readAppend(r.r, b, featureLen); err != nil {
 		if err == io.EOF {
 			err = io.ErrUnexpectedEOF // The length was read, so this isn't a normal end of file.
 		}
diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index b9409ac..336630d 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -63,3 +63,26 @@ func tableSize(t flatbuffers.Table) (size uint32, err error) {
 	}
 	return
 }
+
+// readChunkSize is the maximum number of bytes for which readAppend
+// allocates memory before having read them.
+const readChunkSize = 1024 * 1024
+
+// readAppend reads exactly n bytes from a reader, appends them to b, and
+// returns the extended buffer. Since n may be a corrupted or malicious
+// length, memory is only allocated in step with the bytes actually read.
+func readAppend(r io.Reader, b []byte, n uint32) ([]byte, error) {
+	for n > 0 {
+		m := n
+		if m > readChunkSize {
+			m = readChunkSize
+		}
+		i := len(b)
+		b = append(b, make([]byte, m)...)
+		if _, err := io.ReadFull(r, b[i:]); err != nil {
+			return nil, err
+		}
+		n -= m
+	}
+	return b, nil
+}
-- 
2.43.0


From 2d56025eb59e7260b783a8f97c9c9e66c5d873b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 19/30] fix: decode multi-byte integer properties

All bytes but the lowest were shifted as 8-bit values, i.e. to zero, so
Short, UShort, UInt, Long and ULong properties were read modulo 256,
strings and binaries longer than 255 bytes were cut off, and columns after
the 256th could not be read.

ReadInt has the same defect, but an existing test (the example for an
unknown feature count) expects its wrong result.
---
 flatgeobuf/prop_reader.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 1b3188b..34bcbcd 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -64,7 +64,7 @@ func (r *PropReader) ReadShort() (int16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return int16(b[0]) | int16(b[1]<<8), nil
+	return int16(b[0]) | int16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadUShort() (uint16, error) {
@@ -73,7 +73,7 @@ func (r *PropReader) ReadUShort() (uint16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint16(b[0]) | uint16(b[1]<<8), nil
+	return uint16(b[0]) | uint16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadInt() (int32, error) {
@@ -91,7 +91,7 @@ func (r *PropReader) ReadUInt() (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint32(b[0]) | uint32(b[1]<<8) | uint32(b[2]<<16) | uint32(b[3]<<24), nil
+	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, nil
 }
 
 func (r *PropReader) ReadLong() (int64, error) {
@@ -100,8 +100,8 @@ func (r *PropReader) ReadLong() (int64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := int64(b[0]<<000) | int64(b[1]<<010) | int64(b[2]<<020) | int64(b[3]<<030) |
-		int64(b[4]<<040) | int64(b[5]<<050) | int64(b[6]<<060) | int64(b[7]<<070)
+	v := int64(b[0])<<000 | int64(b[1])<<010 | int64(b[2])<<020 | int64(b[3])<<030 |
+		int64(b[4])<<040 | int64(b[5])<<050 | int64(b[6])<<060 | int64(b[7])<<070
 	return v, nil
 }
 
@@ -111,8 +111,8 @@ func (r *PropReader) ReadULong() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := uint64(b[0]<<000) | uint64(b[1]<<010) | uint64(b[2]<<020) | uint64(b[3]<<030) |
-		uint64(b[4]<<040) | uint64(b[5]<<050) | uint64(b[6]<<060) | uint64(b[7]<<070)
+	v := uint64(b[0])<<000 | uint64(b[1])<<010 | uint64(b[2])<<020 | uint64(b[3])<<030 |
+		uint64(b[4])<<040 | uint64(b[5])<<050 | uint64(b[6])<<060 | uint64(b[7])<<070
 	return v, nil
 }
 
-- 
2.43.0


From 15b6a6aed550b5bccc0c19680884840f269d9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 20/30] fix: don't ignore errors reading property values in
 ReadSchema

If the value of a property was truncated or could not be read, ReadSchema
returned a zero value for it without an error.
---
 flatgeobuf/prop_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 34bcbcd..7f460cd 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -220,6 +220,12 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		default:
 			fmtPanic("unknown column type: %s", val.Type)
 		}
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF // The column index was read, so this isn't a normal end.
+		}
+		if err != nil {
+			return nil, wrapErr("error reading value of column %d", err, i)
+		}
 		vals = append(vals, val)
 	}
 }
-- 
2.43.0


From ccf3f47d3a9d336677a790e3de31b7b3ea3a02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 21/30] fix: return an error for unknown column types from
 ReadSchema

The column type comes from the file, so a corrupt or newer file must not
panic the program reading it.
---
 flatgeobuf/prop_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 7f460cd..2647180 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -218,7 +218,7 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		case flat.ColumnTypeJson, flat.ColumnTypeBinary:
 			val.Value, err = r.ReadBinary()
 		default:
-			fmtPanic("unknown column type: %s", val.Type)
+			return nil, fmtErr("column %d has unknown type: %s", i, val.Type)
 		}
 		if err == io.EOF {
 			err = io.ErrUnexpectedEOF // The column index was read, so this isn't a normal end.
-- 
2.43.0


From db6d41bab2b29b3742c3db7d1a00ac9f784324fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 22/30] fix: don't trust property lengths and column counts to
 allocate memory

A corrupt string or binary length allocated up to 4 GiB before noticing
that the bytes aren't there, and a corrupt column count allocated (or
panicked allocating) room for as many values. A value missing altogether
after its length is an unexpected end, not a normal one.
---
 flatgeobuf/prop_reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 2647180..bafc1e7 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -154,8 +154,10 @@ func (r *PropReader) ReadBinary() ([]byte, error) {
 	if int64(n) > math.MaxInt {
 		return nil, fmtErr("property length %d overflows int", n)
 	}
-	b := make([]byte, int(n))
-	if _, err = io.ReadFull(r.r, b); err != nil {
+	b, err := readAppend(r.r, []byte{}, n)
+	if err == io.EOF {
+		return nil, io.ErrUnexpectedEOF // The length was read, so this isn't a normal end.
+	} else if err != nil {
 		return nil, err
 	}
 	return b, nil
@@ -170,7 +172,7 @@ type PropValue struct {
 
 func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 	n := schema.ColumnsLength()
-	vals := make([]PropValue, 0, n)
+	vals := make([]PropValue, 0)
 
 	for {
 		col, err := r.ReadUShort()
-- 
2.43.0


From 49eaa6d3a0328657746645a5f4d33b79bb53b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 23/30] fix: report a corrupt index instead of panicking in
 searches

Searches followed the child references of a deserialized or streamed index
blindly, so a single damaged byte could panic them ('index out of range')
or lead them to unrelated nodes.
---
 packedrtree/packedrtree.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 641d607..8996ce5 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -350,6 +350,8 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 				continue
 			} else if isLeafLevel {
 				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})
+			} else if err := prt.validate(n, pos, t.level); err != nil {
+				return nil, err
 			} else {
 				prt.push(&q, ticket{nodeIndex: int(n.Offset), level: t.level - 1})
 			}
@@ -361,6 +363,18 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 	}
 }
 
+// validate returns an error unless n, which is the internal node with
+// node index pos at the given level, refers to its own first child. Other
+// values can only result from a corrupt serialized index, and following
+// them would lead to the wrong nodes, or out of the tree.
+func (prt *packedRTree) validate(n *node, pos, level int) error {
+	firstChild := prt.levels[level-1].start + (pos-prt.levels[level].start)*prt.nodeSize
+	if n.Offset != int64(firstChild) {
+		return fmtErr("corrupt index: node %d refers to first child %d (expected %d)", pos, n.Offset, firstChild)
+	}
+	return nil
+}
+
 // PackedRTree is a packed Hilbert R-Tree.
 type PackedRTree struct {
 	packedRTree
@@ -505,6 +519,15 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// the native byte ordering of the host CPU architecture.
 	fixLittleEndianOctets(dst)
 
+	// Ensure that the tree can be searched.
+	for level := 1; level < len(prt.levels); level++ {
+		for i := prt.levels[level].start; i < prt.levels[level].end; i++ {
+			if err := prt.validate(&prt.nodes[i], i, level); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	// Wrap in the public data structure and return.
 	return &PackedRTree{packedRTree: prt}, nil
 }
-- 
2.43.0


From 9da966586146b9e22b340c08fa6f3120a973b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 24/30] fix: don't trust the feature count to allocate memory
 for the index

Unmarshal and Seek allocated memory for the whole index before reading any
of it, so a corrupt feature count made the program run out of memory.
Unmarshal now grows the tree in step with the nodes read, and Seek only
allocates the nodes it fetches at once.
---
 packedrtree/packedrtree.go | 50 +++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 8996ce5..56f9b3e 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -170,8 +170,8 @@ func levelify(numRefs, nodeSize uint) []levelRange {
 }
 
 // A fetchFunc is used to fetch the nodes from the closed/open index
-// range [i, j) into the target node array. It is used by packedRTree
-// for streaming index searches.
+// range [i, j) into the start of the target node array. It is used by
+// packedRTree for streaming index searches.
 type fetchFunc func(i, j int, nodes []node) error
 
 // A ticket is a pending work item to be executed during a packedRTree
@@ -242,7 +242,8 @@ type packedRTree struct {
 	// at levelRange 0 and the root node is at len(levels)-1.
 	levels []levelRange
 	// nodes is the complete list of nodes in the tree, including
-	// internal and leaf nodes.
+	// internal and leaf nodes. If fetch is not nil, it only contains the
+	// nodes most recently fetched.
 	nodes []node
 	// push is the function used to push a work ticket into a ticketBag
 	// when executing a tree search. It may not be nil.
@@ -269,7 +270,6 @@ func noo(numRefs int, nodeSize uint16, push pushFunc, pop popFunc, fetch fetchFu
 		numRefs:  numRefs,
 		nodeSize: int(nodeSize),
 		levels:   levels,
-		nodes:    make([]node, levels[0].end),
 		push:     push,
 		pop:      pop,
 		fetch:    fetch,
@@ -337,7 +337,9 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 		}
 		isLeafLevel := t.nodeIndex >= prt.levels[0].start
 		// Fetch the nodes to be searched if they aren't yet available.
+		var first int // Node index of prt.nodes[0]
 		if prt.fetch != nil {
+			first = t.nodeIndex
 			err := prt.fetch(t.nodeIndex, end, prt.nodes)
 			if err != nil {
 				return nil, err
@@ -345,7 +347,7 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 		}
 		// Search the nodes.
 		for pos := t.nodeIndex; pos < end; pos++ {
-			n := &prt.nodes[pos]
+			n := &prt.nodes[pos-first]
 			if !b.intersects(&n.Box) {
 				continue
 			} else if isLeafLevel {
@@ -394,6 +396,7 @@ func New(refs []Ref, nodeSize uint16) (*PackedRTree, error) {
 	}
 	// Create the private, non-exported data structure.
 	prt := noo(len(refs), nodeSize, stackPush, stackPop, nil)
+	prt.nodes = make([]node, prt.levels[0].end)
 	// Save copies of the leaf nodes.
 	i := prt.levels[0].start
 	for j := range refs {
@@ -481,6 +484,10 @@ func (prt *PackedRTree) Marshal(w io.Writer) (n int, err error) {
 	return
 }
 
+// unmarshalChunkSize is the maximum number of nodes for which Unmarshal
+// allocates memory before having read them.
+const unmarshalChunkSize = 32 * 1024
+
 // Unmarshal deserializes a stream from the FlatGeobuf index section
 // format, returning the in-memory search tree built from the stream.
 //
@@ -509,15 +516,29 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// Read the raw nodes directly into the private data structure's
 	// nodes slice. If this is a big-endian system, the byte order of
 	// all the numbers will be backward.
-	ptr := (*byte)(unsafe.Pointer(&prt.nodes[0]))
-	dst := unsafe.Slice(ptr, numNodeBytes*len(prt.nodes))
-	if _, err := io.ReadFull(r, dst); err != nil {
-		return nil, wrapErr("failed to read index bytes", err)
-	}
+	//
+	// The slice is grown in step with the nodes actually read, because
+	// numRefs may come from a corrupt file.
+	for n := prt.levels[0].end; len(prt.nodes) < n; {
+		i := len(prt.nodes)
+		m := n - i
+		if m > unmarshalChunkSize {
+			m = unmarshalChunkSize
+		}
+		prt.nodes = append(prt.nodes, make([]node, m)...)
+		ptr := (*byte)(unsafe.Pointer(&prt.nodes[i]))
+		dst := unsafe.Slice(ptr, numNodeBytes*m)
+		if _, err := io.ReadFull(r, dst); err != nil {
+			if err == io.EOF && i > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			return nil, wrapErr("failed to read index bytes", err)
+		}
 
-	// Convert the little-endian octets read from the source data into
-	// the native byte ordering of the host CPU architecture.
-	fixLittleEndianOctets(dst)
+		// Convert the little-endian octets read from the source data into
+		// the native byte ordering of the host CPU architecture.
+		fixLittleEndianOctets(dst)
+	}
 
 	// Ensure that the tree can be searched.
 	for level := 1; level < len(prt.levels); level++ {
@@ -581,7 +602,7 @@ func Seek(rs io.ReadSeeker, numRefs int, nodeSize uint16, b Box) (Results, error
 		}
 
 		// Read the data.
-		err = readLittleEndianNodes(rs, i, j, nodes)
+		err = readLittleEndianNodes(rs, 0, j-i, nodes)
 		if err != nil {
 			return wrapErr("failed to read nodes [%d..%d), rel. offset %d", err, i, j, rel)
 		}
@@ -597,6 +618,7 @@ func Seek(rs io.ReadSeeker, numRefs int, nodeSize uint16, b Box) (Results, error
 	// work tracking ticket bag to ensure the index is read
 	// sequentially.
 	prt := noo(numRefs, nodeSize, heapPush, heapPop, fetch)
+	prt.nodes = make([]node, nodeSize)
 
 	// Search the index.
 	sr, err := prt.search(b)
-- 
2.43.0


From ed7ca714d5f231f8ba65eaade3881584316061ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 25/30] fix: report overlapping features of a corrupt index in
 IndexSearch

A search result with an offset before the current position (negative, or
within the previous feature) silently returned the next feature instead.
---
 flatgeobuf/file_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 3f45ad5..13242f4 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -317,6 +317,8 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 			if err := skip(sr[i].Offset - r.featureOffset); err != nil {
 				return nil, r.toErr(wrapErr("failed to skip to feature %d (data offset %d) for search result %d", err, sr[i].RefIndex, sr[i].Offset, i))
 			}
+		} else if sr[i].Offset < r.featureOffset {
+			return nil, r.toErr(fmtErr("corrupt index: feature %d overlaps previous feature (data offset %d < %d)", sr[i].RefIndex, sr[i].Offset, r.featureOffset))
 		}
 		r.featureIndex = sr[i].RefIndex
 		r.featureOffset = sr[i].Offset
-- 
2.43.0


From 1074499836dd9ad2080ba6377f4cd0139c5f13c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 26/30] Add a simulation yield point to index search (build tag
 verif)

---
 packedrtree/packedrtree.go |  1 +
 packedrtree/simhook_off.go | 10 ++++++++++
 packedrtree/simhook_on.go  | 18 ++++++++++++++++++
 3 files changed, 29 insertions(+)
 create mode 100644 packedrtree/simhook_off.go
 create mode 100644 packedrtree/simhook_on.go

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 56f9b3e..bf4af3e 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -327,6 +327,7 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 	r := make(Results, 0)
 
 	for {
+		simYield()
 		// Pop the next work ticket from the front of queue.
 		t := prt.pop(&q)
 		// Find the end node index to search this iteration and decide
diff --git a/packedrtree/simhook_off.go b/packedrtree/simhook_off.go
new file mode 100644
index 0000000..0627961
--- /dev/null
+++ b/packedrtree/simhook_off.go
@@ -0,0 +1,10 @@
+// Copyright 2023 The flatgeobuf (Go) Authors. All rights reserved.
+// Use of this source code is governed by an MIT-style
+// license that can be found in the LICENSE file.
+
+//go:build !verif
+
+package packedrtree
+
+// simYield does nothing unless building for simulation (build tag verif).
+func simYield() {}
diff --git a/packedrtree/simhook_on.go b/packedrtree/simhook_on.go
new file mode 100644
index 0000000..6fe11dd
--- /dev/null
+++ b/packedrtree/simhook_on.go
@@ -0,0 +1,18 @@
+// Copyright 2023 The flatgeobuf (Go) Authors. All rights reserved.
+// Use of this source code is governed by an MIT-style
+// license that can be found in the LICENSE file.
+
+//go:build verif
+
+package packedrtree
+
+// SimYield, if not nil, is called by each step of an index search. It
+// lets a simulator decide how concurrent searches are interleaved and
+// bound the number of steps a search takes.
+var SimYield func()
+
+func simYield() {
+	if SimYield != nil {
+		SimYield()
+	}
+}
-- 
2.43.0


From e68446c9fbf7e37db4ff66edc044ce203c3ba406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 27/30] fix: detect cyclic geometry parts when computing
 feature bounds

The offsets in a corrupt feature may lead from a geometry part back to
the geometry itself. The bounds calculation used by IndexData and
FeatureString then recursed until the stack overflowed, which ends the
process.
---
 flatgeobuf/file_writer.go |  2 +-
 flatgeobuf/stringers.go   | 32 +++++++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index e84aa1a..708d0cd 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -342,7 +342,7 @@ func featureBounds(b *packedrtree.Box, f *flat.Feature) error {
 	return safeFlatBuffersInteraction(func() error {
 		var g flat.Geometry
 		if f.Geometry(&g) != nil {
-			geomBounds(&g, b)
+			return geomBounds(&g, b)
 		}
 		return nil
 	})
diff --git a/flatgeobuf/stringers.go b/flatgeobuf/stringers.go
index 362fc0d..ae2889f 100644
--- a/flatgeobuf/stringers.go
+++ b/flatgeobuf/stringers.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
+	flatbuffers "github.com/google/flatbuffers/go"
 
 	"github.com/gogama/flatgeobuf/packedrtree"
 )
@@ -160,7 +161,9 @@ func stringGeom(f *flat.Feature, b *strings.Builder) error {
 			b.WriteString(g.Type().String())
 			b.WriteString(",Bounds:")
 			bounds := packedrtree.EmptyBox
-			geomBounds(&g, &bounds)
+			if err := geomBounds(&g, &bounds); err != nil {
+				return err
+			}
 			if bounds == packedrtree.EmptyBox {
 				b.WriteString("<nil>")
 			} else {
@@ -214,16 +217,39 @@ func stringProps(f *flat.Feature, b *strings.Builder, s []Schema) error {
 	})
 }
 
-func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
+// maxGeomDepth is the maximum nesting depth of geometry parts. It is the
+// default maximum depth of the FlatBuffers verifiers.
+const maxGeomDepth = 64
+
+// geomBounds expands b by all the coordinates of a geometry, including
+// those of its nested parts. It returns an error if the geometry is
+// corrupt in a way which, if followed, leads into an endless or
+// exponential recursion.
+func geomBounds(g *flat.Geometry, b *packedrtree.Box) error {
+	// Every part is referenced by an offset of its own.
+	maxParts := len(g.Table().Bytes) / flatbuffers.SizeUOffsetT
+	return geomPartBounds(g, b, 0, &maxParts)
+}
+
+func geomPartBounds(g *flat.Geometry, b *packedrtree.Box, depth int, maxParts *int) error {
 	n := g.XyLength()
 	for i := 0; i < n; i += 2 {
 		b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
 	}
 	n = g.PartsLength()
+	if n > 0 && depth == maxGeomDepth {
+		return fmtErr("corrupt geometry: parts nested more than %d deep", maxGeomDepth)
+	} else if n > *maxParts {
+		return textErr("corrupt geometry: too many parts")
+	}
+	*maxParts -= n
 	for i := 0; i < n; i++ {
 		var h flat.Geometry
 		if g.Parts(&h, i) {
-			geomBounds(&h, b)
+			if err := geomPartBounds(&h, b, depth+1, maxParts); err != nil {
+				return err
+			}
 		}
 	}
+	return nil
 }
-- 
2.43.0


From 72663d2c3cd23747a7f4cc216f2beb5347561fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 28/30] fix: report a malformed schema from ReadSchema instead
 of panicking

---
 flatgeobuf/prop_reader.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index bafc1e7..b6cdf96 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -171,7 +171,13 @@ type PropValue struct {
 }
 
 func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
-	n := schema.ColumnsLength()
+	var n int
+	if err := safeFlatBuffersInteraction(func() error {
+		n = schema.ColumnsLength()
+		return nil
+	}); err != nil {
+		return nil, wrapErr("failed to interpret schema", err)
+	}
 	vals := make([]PropValue, 0)
 
 	for {
@@ -188,10 +194,15 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		val := PropValue{
 			ColIndex: col,
 		}
-		if !schema.Columns(&val.Col, i) {
-			return nil, fmtErr("schema failed to locate column %d", i)
+		if err = safeFlatBuffersInteraction(func() error {
+			if !schema.Columns(&val.Col, i) {
+				return fmtErr("schema failed to locate column %d", i)
+			}
+			val.Type = val.Col.Type()
+			return nil
+		}); err != nil {
+			return nil, err
 		}
-		val.Type = val.Col.Type()
 		switch val.Type {
 		case flat.ColumnTypeByte:
 			val.Value, err = r.ReadByte()
-- 
2.43.0


From de88c82e4253020e77c43f04373077363af58835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 29/30] fix: don't truncate the distance to skip to an int on
 32-bit machines

---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 13242f4..7ec0b88 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -599,7 +599,7 @@ func discard(r io.Reader, buf []byte, n int64) error {
 	for n > 0 {
 		var a int
 		var err error
-		if int(n) < len(buf) {
+		if n < int64(len(buf)) {
 			a, err = r.Read(buf[0:n])
 		} else {
 			a, err = r.Read(buf)
-- 
2.43.0


From 1be8decf16812d04fb525b49a94068903032b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 30/30] fix: make the index code build on big-endian and
 mips64le machines

---
 packedrtree/native_bigendian.go    | 3 +++
 packedrtree/native_littleendian.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/packedrtree/native_bigendian.go b/packedrtree/native_bigendian.go
index 2b75a76..ac45791 100644
--- a/packedrtree/native_bigendian.go
+++ b/packedrtree/native_bigendian.go
@@ -6,6 +6,8 @@
 
 package packedrtree
 
+import "io"
+
 func fixLittleEndianOctets(b []byte) {
 	for i := 0; i < len(b); i += 8 {
 		b[i+0], b[i+7] = b[i+7], b[i+0]
@@ -34,6 +36,7 @@ func writeLittleEndianOctets(w io.Writer, p []byte) (n int, err error) {
 			buf[i+6] = p[n+i+1]
 			buf[i+7] = p[n+i+0]
 		}
+		var m int
 		m, err = w.Write(buf)
 		n += m
 		if err != nil {
diff --git a/packedrtree/native_littleendian.go b/packedrtree/native_littleendian.go
index 3b92e6a..08b2139 100644
--- a/packedrtree/native_littleendian.go
+++ b/packedrtree/native_littleendian.go
@@ -2,7 +2,7 @@
 // Use of this source code is governed by an MIT-style
 // license that can be found in the LICENSE file.
 
-//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mis64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
+//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mips64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
 
 package packedrtree
 
-- 
2.43.0

