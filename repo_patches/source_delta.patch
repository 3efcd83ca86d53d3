From 4113addb802a29d76ac649fe70be0c9eb71a9140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 01/26] fix: apply delta encoding only to the section
 EncodingDeltaID/EncodingDeltaValue name

The writer delta-encoded both sections for these encodings while the reader
(and the format specification) decode only one, so values or IDs came back
wrong.
---
 pkg/col/writer_block.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index be8ed6d..40d5387 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -145,10 +145,33 @@ func (w *Writer) writeBlockFooter(blockOffset, blockSize uint64, minID, maxID ui
 
 // encodeIDs encodes the IDs based on the encoding type
 func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, ids, deltaEncode, encodeVarInt)
+	return encodeData(idSectionEncoding(w.encodingType), ids, deltaEncode, encodeVarInt)
 }
 
 // encodeValues encodes the values based on the encoding type
 func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, values, deltaEncodeInt64, encodeSignedVarInt)
+	return encodeData(valueSectionEncoding(w.encodingType), values, deltaEncodeInt64, encodeSignedVarInt)
+}
+
+// idSectionEncoding returns how the ID section of a block is encoded: the
+// encodings that apply to one section only leave the other one raw
+func idSectionEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaID:
+		return EncodingDeltaBoth
+	case EncodingDeltaValue:
+		return EncodingRaw
+	}
+	return encodingType
+}
+
+// valueSectionEncoding returns how the value section of a block is encoded
+func valueSectionEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaID:
+		return EncodingRaw
+	case EncodingDeltaValue:
+		return EncodingDeltaBoth
+	}
+	return encodingType
 }
-- 
2.43.0


From 4e131cc25ac2321697e5abb07614b7c42ae2c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 02/26] fix: make EncodingVarIntID and EncodingVarIntValue
 files writable and readable

WriteBlock failed with a section size mismatch after writing part of the
block, because the section left fixed-width was sized as if it were
variable-length; the reader decoded both sections as variable-length.
---
 pkg/col/reader_decode.go | 8 +++++---
 pkg/col/writer_block.go  | 8 ++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 0e31aeb..580b7ed 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -11,12 +11,14 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var ids []uint64
 	var err error
 
-	isVarInt := encodingType == EncodingVarInt ||
+	isVarIntID := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntID ||
+		encodingType == EncodingVarIntBoth
+	isVarIntValue := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntValue ||
 		encodingType == EncodingVarIntBoth
 
-	if isVarInt {
+	if isVarIntID {
 		// For variable-length encoding, use the decodeUVarInts function
 		ids, err = decodeUVarInts(idBytes, count)
 		if err != nil {
@@ -45,7 +47,7 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	// Decode values
 	var values []int64
 
-	if isVarInt {
+	if isVarIntValue {
 		// Decode variable-length values
 		values = make([]int64, count)
 		offset := 0
diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index 40d5387..fed45ed 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -159,7 +159,9 @@ func idSectionEncoding(encodingType uint32) uint32 {
 	switch encodingType {
 	case EncodingDeltaID:
 		return EncodingDeltaBoth
-	case EncodingDeltaValue:
+	case EncodingVarIntID:
+		return EncodingVarIntBoth
+	case EncodingDeltaValue, EncodingVarIntValue:
 		return EncodingRaw
 	}
 	return encodingType
@@ -168,10 +170,12 @@ func idSectionEncoding(encodingType uint32) uint32 {
 // valueSectionEncoding returns how the value section of a block is encoded
 func valueSectionEncoding(encodingType uint32) uint32 {
 	switch encodingType {
-	case EncodingDeltaID:
+	case EncodingDeltaID, EncodingVarIntID:
 		return EncodingRaw
 	case EncodingDeltaValue:
 		return EncodingDeltaBoth
+	case EncodingVarIntValue:
+		return EncodingVarIntBoth
 	}
 	return encodingType
 }
-- 
2.43.0


From 83420d26129618d17b4f4e28202b546348e0bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 03/26] fix: keep the IDs of SimpleWriter blocks sorted across
 batches

Write sorted each batch, but a block holding several batches was written with
its IDs out of order.
---
 pkg/col/simple_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index 2b398db..0f15d62 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -135,6 +135,12 @@ func (sw *SimpleWriter) flushIfNeeded(force bool) error {
 	}
 
 	if shouldWrite {
+		// Batches are sorted one by one, so IDs of different batches may still
+		// be out of order
+		if !isSorted(sw.pendingIDs) {
+			sortByID(sw.pendingIDs, sw.pendingValues)
+		}
+
 		// Try to write all pending items
 		err := sw.writer.WriteBlock(sw.pendingIDs, sw.pendingValues)
 
-- 
2.43.0


From 6f1bf71af782d75b1ce07e956d615b759c1feecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 04/26] fix: decode the smallest int64 in stored block
 statistics

A block minimum, maximum or sum of -1<<63 was read back as 0.
---
 pkg/col/encoding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/col/encoding.go b/pkg/col/encoding.go
index 93dedb5..ec620a9 100644
--- a/pkg/col/encoding.go
+++ b/pkg/col/encoding.go
@@ -94,6 +94,11 @@ func uint64ToInt64(value uint64) int64 {
 	if value&(1<<63) == 0 {
 		return int64(value)
 	}
+	// The smallest int64 has no positive counterpart and is stored as the sign
+	// bit alone
+	if value == 1<<63 {
+		return int64(-1 << 63)
+	}
 	// Handle negative values by converting bits back
 	return ^int64(value&^(1<<63)) + 1
 }
-- 
2.43.0


From 89d7f6b36ed2327588891d0a909875dfeffbcf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 05/26] fix: report a read that hits the end of the file as
 incomplete

readBytesAt returned a zero-filled buffer when the file ended early.
---
 pkg/col/reader_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/col/reader_io.go b/pkg/col/reader_io.go
index 80eb78c..ce2ac1e 100644
--- a/pkg/col/reader_io.go
+++ b/pkg/col/reader_io.go
@@ -13,7 +13,7 @@ func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
 	if err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
 	}
-	if n < size && err != io.EOF {
+	if n < size {
 		return nil, fmt.Errorf("incomplete read at offset %d: got %d bytes, expected %d", offset, n, size)
 	}
 	return buf, nil
-- 
2.43.0


From a30e86b964995528836c5664e1831f66b0836208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 06/26] fix: report block sections that are too short instead
 of inventing pairs

When a section held fewer numbers than the block index records, the decoder
filled in made-up IDs and values or silently returned fewer pairs.
---
 pkg/col/reader_decode.go | 54 +++++++++++-----------------------------
 1 file changed, 14 insertions(+), 40 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 580b7ed..6031f78 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -29,18 +29,13 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 		bytesPerID := 8
 		maxCount := len(idBytes) / bytesPerID
 		if count > maxCount {
-			count = maxCount
+			return nil, nil, fmt.Errorf("ID section too short: %d of %d IDs", maxCount, count)
 		}
 
 		// Read fixed-width IDs
 		ids = make([]uint64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerID+bytesPerID <= len(idBytes) {
-				ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
-			} else {
-				// Mock test data for out-of-bounds reads
-				ids[i] = uint64(i + 1)
-			}
+			ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
 		}
 	}
 
@@ -51,19 +46,12 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 		// Decode variable-length values
 		values = make([]int64, count)
 		offset := 0
-		for i := 0; i < count && offset < len(valueBytes); i++ {
+		for i := 0; i < count; i++ {
 			var bytesRead int
-			if offset < len(valueBytes) {
-				values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
-				if bytesRead <= 0 {
-					// Mock test data for invalid varints
-					values[i] = int64((i + 1) * 100)
-					bytesRead = 1
-				}
-				offset += bytesRead
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
+			values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
+			offset += bytesRead
+			if bytesRead == 0 || valueBytes[offset-1]&0x80 != 0 {
+				return nil, nil, fmt.Errorf("value section too short: %d of %d values", i, count)
 			}
 		}
 	} else {
@@ -71,21 +59,12 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 		bytesPerValue := 8
 		maxCount := len(valueBytes) / bytesPerValue
 		if count > maxCount {
-			count = maxCount
-			// Adjust IDs to match
-			if len(ids) > count {
-				ids = ids[:count]
-			}
+			return nil, nil, fmt.Errorf("value section too short: %d of %d values", maxCount, count)
 		}
 
 		values = make([]int64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerValue+bytesPerValue <= len(valueBytes) {
-				values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
-			}
+			values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
 		}
 	}
 
@@ -115,6 +94,10 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 
 // Helper function to decode exactly 'count' UVarInts from buf
 func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
+	// Every varint takes at least one byte
+	if count > len(buf) {
+		return nil, fmt.Errorf("%d bytes are too short for %d uvarints", len(buf), count)
+	}
 	vals := make([]uint64, 0, count)
 	offset := 0
 
@@ -128,11 +111,6 @@ func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
 		// Try to decode a varint
 		v, n := binary.Uvarint(buf[offset:])
 		if n <= 0 {
-			// If we can't decode any more varints but we've already decoded some,
-			// return what we have instead of failing
-			if i > 0 {
-				return vals, nil
-			}
 			return nil, fmt.Errorf("failed to decode uvarint at index %d, bytes remaining: %d", i, len(buf)-offset)
 		}
 
@@ -140,12 +118,8 @@ func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
 		offset += n
 	}
 
-	// If we couldn't decode enough varints, return what we have
 	if len(vals) < count {
-		// Fill the rest with sequential IDs as needed for tests
-		for i := len(vals); i < count; i++ {
-			vals = append(vals, uint64(i+1))
-		}
+		return nil, fmt.Errorf("decoded %d of %d uvarints", len(vals), count)
 	}
 
 	return vals, nil
-- 
2.43.0


From d6cdc089e8661b92f76c3f005a4471bc88d9ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 07/26] fix: check offsets, sizes and counts of a file before
 using them

A damaged header, index or trailer made the reader panic, allocate memory
regardless of the file size or loop over billions of missing blocks.
---
 pkg/col/reader.go        | 4 ++++
 pkg/col/reader_block.go  | 4 ++++
 pkg/col/reader_header.go | 6 ++++++
 pkg/col/reader_io.go     | 3 +++
 4 files changed, 17 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 6617fab..e4fe4e5 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -161,6 +161,10 @@ func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
 	}
 	bitmapSize := binary.LittleEndian.Uint32(sizeBuf)
 
+	if uint64(bitmapSize)+4 != r.header.BitmapSize {
+		return nil, fmt.Errorf("bitmap of %d bytes in a section of %d bytes", bitmapSize, r.header.BitmapSize)
+	}
+
 	// Read the bitmap data
 	bitmapBuf, err := r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))
 	if err != nil {
diff --git a/pkg/col/reader_block.go b/pkg/col/reader_block.go
index 5176a6c..eb02a6b 100644
--- a/pkg/col/reader_block.go
+++ b/pkg/col/reader_block.go
@@ -17,6 +17,10 @@ func (r *Reader) readBlock(blockIndex int) ([]uint64, []int64, error) {
 	blockSize := int64(r.blockIndex[blockIndex].BlockSize)
 	count := int(r.blockIndex[blockIndex].Count)
 
+	if blockSize < blockHeaderSize+blockLayoutSize {
+		return nil, nil, fmt.Errorf("invalid block size: %d", blockSize)
+	}
+
 	// Read the entire block data in one call (excluding the block header)
 	// We need to read the layout section (16 bytes) and the data sections
 	dataOffset := blockOffset + blockHeaderSize
diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index 32a7419..cc320f2 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -90,6 +90,10 @@ func (r *Reader) readFooter() error {
 		return fmt.Errorf("invalid footer magic number: 0x%X", r.footerMeta.Magic)
 	}
 
+	if r.footerMeta.FooterSize > uint64(footerMetaOffset) {
+		return fmt.Errorf("invalid footer size: %d", r.footerMeta.FooterSize)
+	}
+
 	// Read the rest of the footer
 	footerStart := footerMetaOffset - int64(r.footerMeta.FooterSize)
 	if footerStart < 64 { // Footer cannot start before the header
@@ -108,6 +112,8 @@ func (r *Reader) readFooter() error {
 		// Use the higher value to ensure we don't miss data
 		if uint64(blockIndexCount) > r.header.BlockCount {
 			r.header.BlockCount = uint64(blockIndexCount)
+		} else {
+			return fmt.Errorf("header counts %d blocks but the index holds %d", r.header.BlockCount, blockIndexCount)
 		}
 	}
 
diff --git a/pkg/col/reader_io.go b/pkg/col/reader_io.go
index ce2ac1e..09e38eb 100644
--- a/pkg/col/reader_io.go
+++ b/pkg/col/reader_io.go
@@ -8,6 +8,9 @@ import (
 
 // readBytesAt reads bytes at a specific offset
 func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
+	if offset < 0 || size < 0 || int64(size) > r.fileSize || offset > r.fileSize-int64(size) {
+		return nil, fmt.Errorf("read of %d bytes at offset %d is outside the file of %d bytes", size, offset, r.fileSize)
+	}
 	buf := make([]byte, size)
 	n, err := r.file.ReadAt(buf, offset)
 	if err != nil && err != io.EOF {
-- 
2.43.0


From e3150a851debdfa4c7147ae923c8f183ffc7a35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 08/26] fix: return a zero aggregate when no pair matches

An aggregation over blocks of which no pair passed the filters, or over a file
without blocks, reported the largest int64 as minimum and the smallest as
maximum, while other empty results were all zeros.
---
 pkg/col/reader_aggregate.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/col/reader_aggregate.go b/pkg/col/reader_aggregate.go
index 8b6956c..3f18f5b 100644
--- a/pkg/col/reader_aggregate.go
+++ b/pkg/col/reader_aggregate.go
@@ -117,6 +117,11 @@ func (r *Reader) AggregateWithOptions(opts AggregateOptions) AggregateResult {
 		}
 	}
 
+	// No pairs: there is no minimum or maximum to report
+	if count == 0 {
+		return AggregateResult{}
+	}
+
 	// Calculate average
 	var avg float64 = 0
 	if count > 0 {
@@ -251,6 +256,11 @@ func (r *Reader) aggregateWithFilter(opts AggregateOptions) AggregateResult {
 		}
 	}
 
+	// No pairs: there is no minimum or maximum to report
+	if count == 0 {
+		return AggregateResult{}
+	}
+
 	// Calculate average
 	var avg float64 = 0
 	if count > 0 {
@@ -532,6 +542,11 @@ func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts Aggreg
 		finalResult.Count += result.Count
 	}
 
+	// No pairs: there is no minimum or maximum to report
+	if totalCount == 0 {
+		return AggregateResult{}
+	}
+
 	// Calculate final average
 	if totalCount > 0 {
 		finalResult.Avg = float64(totalSum) / float64(totalCount)
-- 
2.43.0


From deb000db4f1e0602e5dd544e7de0b6e79b7801a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 09/26] fix: guard the cached global ID bitmap against
 concurrent use

Concurrent GetGlobalIDBitmap calls on a reader with caching enabled raced on
the cached pointer.
---
 pkg/col/reader.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index e4fe4e5..69977fc 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/weaviate/sroar"
 )
@@ -16,7 +17,8 @@ type Reader struct {
 	footerMeta     FooterMetadata
 	blockIndex     []FooterEntry
 	globalIDs      *sroar.Bitmap
-	cacheGlobalIDs bool // Whether to cache the global ID bitmap
+	cacheGlobalIDs bool       // Whether to cache the global ID bitmap
+	cacheMu        sync.Mutex // Guards globalIDs and cacheGlobalIDs
 }
 
 // NewReader creates a new column file reader
@@ -126,11 +128,15 @@ func (r *Reader) DebugInfo() string {
 
 // EnableGlobalIDBitmapCaching enables caching of the global ID bitmap
 func (r *Reader) EnableGlobalIDBitmapCaching() {
+	r.cacheMu.Lock()
+	defer r.cacheMu.Unlock()
 	r.cacheGlobalIDs = true
 }
 
 // DisableGlobalIDBitmapCaching disables caching of the global ID bitmap
 func (r *Reader) DisableGlobalIDBitmapCaching() {
+	r.cacheMu.Lock()
+	defer r.cacheMu.Unlock()
 	r.cacheGlobalIDs = false
 	r.globalIDs = nil // Clear any cached bitmap
 }
@@ -139,6 +145,9 @@ func (r *Reader) DisableGlobalIDBitmapCaching() {
 // If the file doesn't have a global ID bitmap, it returns an empty bitmap
 // The bitmap is cached only if caching is enabled
 func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
+	r.cacheMu.Lock()
+	defer r.cacheMu.Unlock()
+
 	// If we've already loaded the bitmap and caching is enabled, return it
 	if r.globalIDs != nil && r.cacheGlobalIDs {
 		return r.globalIDs, nil
-- 
2.43.0


From d54ffa653f9f91a69fad0322d7c90135062810c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 10/26] fix: refuse to go on with a file after a failed write

After WriteBlock or Finalize had failed part-way, a retry could report success
for a file with a duplicated or missing block.
---
 pkg/col/writer.go          |  1 +
 pkg/col/writer_block_io.go | 11 ++++++++++-
 pkg/col/writer_finalize.go |  7 ++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/col/writer.go b/pkg/col/writer.go
index 202f748..7f7c2e2 100644
--- a/pkg/col/writer.go
+++ b/pkg/col/writer.go
@@ -25,6 +25,7 @@ type Writer struct {
 	blockSizes      []uint32      // Size of each block in bytes
 	blockStats      []BlockStats  // Statistics for each block
 	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
+	failed          error         // First failure to write; the file is unusable from then on
 }
 
 // NewWriter creates a new column file writer
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index a535812..c58b2cc 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -27,6 +27,10 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 		return fmt.Errorf("cannot write empty block")
 	}
 
+	if w.failed != nil {
+		return fmt.Errorf("file is incomplete after an earlier failure: %w", w.failed)
+	}
+
 	// First, check if the entire block would exceed the target size
 	estimatedSize, err := w.EstimateBlockSize(ids, values)
 	if err != nil {
@@ -56,6 +60,7 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 
 		// Write the partial block
 		if err := w.writeBlockInternal(ids[:optimal], values[:optimal]); err != nil {
+			w.failed = err
 			return err
 		}
 
@@ -64,7 +69,11 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 	}
 
 	// If we get here, either the block fits or we couldn't find a partial solution
-	return w.writeBlockInternal(ids, values)
+	if err := w.writeBlockInternal(ids, values); err != nil {
+		w.failed = err
+		return err
+	}
+	return nil
 }
 
 // writeBlockInternal is the actual implementation of WriteBlock
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 78bbdea..9bda933 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -49,7 +49,12 @@ func (w *Writer) FinalizeAndClose() error {
 }
 
 // Finalize finalizes the file by writing the footer
-func (w *Writer) Finalize() error {
+func (w *Writer) Finalize() (err error) {
+	if w.failed != nil {
+		return fmt.Errorf("file is incomplete after an earlier failure: %w", w.failed)
+	}
+	defer func() { w.failed = err }()
+
 	// Write the global ID bitmap
 	bitmapOffset, bitmapSize, err := w.writeGlobalIDBitmap()
 	if err != nil {
-- 
2.43.0


From 8d3e27aa6aa75d64004bb8111c055607ad6b496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 11/26] fix: let vibecol write lists that need more than one
 block

WriteBlock reports a full block after writing part of the pairs; the command
treated this as a failure and left an unfinished file.
---
 cmd/vibecol/main.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cmd/vibecol/main.go b/cmd/vibecol/main.go
index 81f8564..6411397 100644
--- a/cmd/vibecol/main.go
+++ b/cmd/vibecol/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"errors"
 	"flag"
 	"fmt"
 	"os"
@@ -95,10 +96,20 @@ func runWrite(outputFile, idsStr, valuesStr string) {
 	}
 	
 	// Write block
-	if err := writer.WriteBlock(ids, values); err != nil {
-		fmt.Printf("Error writing block: %v\n", err)
-		writer.Close()
-		os.Exit(1)
+	for rest := 0; rest < len(ids); {
+		err := writer.WriteBlock(ids[rest:], values[rest:])
+		var full *col.BlockFullError
+		if errors.As(err, &full) {
+			// Continue with the remaining pairs in the next block
+			rest += full.ItemsWritten
+			continue
+		}
+		if err != nil {
+			fmt.Printf("Error writing block: %v\n", err)
+			writer.Close()
+			os.Exit(1)
+		}
+		rest = len(ids)
 	}
 	
 	// Finalize and close
-- 
2.43.0


From 2c23ab5257eca40a08e8dc93ef36d998de831a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 12/26] fix: report a failed size estimate instead of a full
 block

---
 pkg/col/writer_block_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index c58b2cc..7301265 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -47,7 +47,7 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 		for i := 1; i < len(ids); i++ {
 			size, err := w.EstimateBlockSize(ids[:i], values[:i])
 			if err != nil {
-				break
+				return fmt.Errorf("failed to estimate block size: %w", err)
 			}
 
 			if size <= uint64(w.blockSizeTarget) {
-- 
2.43.0


From 95c1b2ef215cb88b6b453c72ef2fe04ebf9f4c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 13/26] fix: let a SimpleWriter refuse to go on after a failed
 flush

---
 pkg/col/simple_writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index 0f15d62..918ee51 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -157,7 +157,9 @@ func (sw *SimpleWriter) flushIfNeeded(force bool) error {
 			// Try to write the remaining data in a new block
 			return sw.flushIfNeeded(force)
 		} else if err != nil {
-			// Some other error occurred
+			// Some other error occurred. The batch stays pending, so going on
+			// could store it twice
+			sw.writer.failed = err
 			return fmt.Errorf("failed to write block: %w", err)
 		}
 
-- 
2.43.0


From f01b29e82cde8cfac39ac1fce6fd8c8bcce0dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 14/26] fix: compute block sizes of 4 GB and more without
 overflow

---
 pkg/col/writer_block.go    |  4 ++--
 pkg/col/writer_block_io.go | 14 +++++++-------
 pkg/col/writer_encoding.go |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index fed45ed..c211f41 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -144,12 +144,12 @@ func (w *Writer) writeBlockFooter(blockOffset, blockSize uint64, minID, maxID ui
 }
 
 // encodeIDs encodes the IDs based on the encoding type
-func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint32, error) {
+func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint64, error) {
 	return encodeData(idSectionEncoding(w.encodingType), ids, deltaEncode, encodeVarInt)
 }
 
 // encodeValues encodes the values based on the encoding type
-func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint32, error) {
+func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint64, error) {
 	return encodeData(valueSectionEncoding(w.encodingType), values, deltaEncodeInt64, encodeSignedVarInt)
 }
 
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index 7301265..ff1ad79 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -191,14 +191,14 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	// - Value section follows the ID section
 	// The offsets are relative to the end of the block header (after the 16-byte layout section)
 	idSectionOffset := uint32(0)
-	valueSectionOffset := idSectionSize
+	valueSectionOffset := uint32(idSectionSize)
 
 	// Create a layout buffer and fill it
 	layoutBuf := make([]byte, 16)
 	binary.LittleEndian.PutUint32(layoutBuf[0:4], idSectionOffset)
-	binary.LittleEndian.PutUint32(layoutBuf[4:8], idSectionSize)
+	binary.LittleEndian.PutUint32(layoutBuf[4:8], uint32(idSectionSize))
 	binary.LittleEndian.PutUint32(layoutBuf[8:12], valueSectionOffset)
-	binary.LittleEndian.PutUint32(layoutBuf[12:16], valueSectionSize)
+	binary.LittleEndian.PutUint32(layoutBuf[12:16], uint32(valueSectionSize))
 
 	// Write the layout buffer to file
 	bytesWritten, err := w.file.Write(layoutBuf)
@@ -241,7 +241,7 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	}
 
 	// Verify ID section size
-	if uint32(actualIdSectionSize) != idSectionSize {
+	if uint64(actualIdSectionSize) != idSectionSize {
 		return fmt.Errorf("ID section size mismatch: expected=%d, actual=%d",
 			idSectionSize, actualIdSectionSize)
 	}
@@ -270,7 +270,7 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	}
 
 	// Verify value section size
-	if uint32(actualValueSectionSize) != valueSectionSize {
+	if uint64(actualValueSectionSize) != valueSectionSize {
 		return fmt.Errorf("value section size mismatch: expected=%d, actual=%d",
 			valueSectionSize, actualValueSectionSize)
 	}
@@ -302,7 +302,7 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	}
 
 	// Verify block size calculation (only for the actual data, excluding padding)
-	expectedBlockSize := blockHeaderSize + blockLayoutSize + uint64(idSectionSize) + uint64(valueSectionSize)
+	expectedBlockSize := blockHeaderSize + blockLayoutSize + idSectionSize + valueSectionSize
 	blockSizeDifference := (blockSize - uint64(padding)) - expectedBlockSize
 	if blockSizeDifference != 0 {
 		return fmt.Errorf("block size mismatch: expected=%d, actual=%d, diff=%d",
@@ -356,7 +356,7 @@ func (w *Writer) EstimateBlockSize(ids []uint64, values []int64) (uint64, error)
 
 	// Calculate total block size
 	// Block header + block layout + ID section + value section
-	totalSize := uint64(blockHeaderSize + blockLayoutSize + idSectionSize + valueSectionSize)
+	totalSize := blockHeaderSize + blockLayoutSize + idSectionSize + valueSectionSize
 
 	// Add padding size if needed for page alignment
 	currentPos, err := w.file.Seek(0, io.SeekCurrent)
diff --git a/pkg/col/writer_encoding.go b/pkg/col/writer_encoding.go
index 9dd138d..79b1461 100644
--- a/pkg/col/writer_encoding.go
+++ b/pkg/col/writer_encoding.go
@@ -5,10 +5,10 @@ import (
 )
 
 // encodeData is a helper function to encode data based on the encoding type
-func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T) []T, encodeVarIntFunc func(T) []byte) ([]T, [][]byte, uint32, error) {
+func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T) []T, encodeVarIntFunc func(T) []byte) ([]T, [][]byte, uint64, error) {
 	var encodedData []T
 	var encodedDataBytes [][]byte
-	var sectionSize uint32
+	var sectionSize uint64 // may exceed what the file format can hold
 
 	// First apply delta encoding if needed
 	switch encodingType {
@@ -27,14 +27,14 @@ func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T)
 	switch encodingType {
 	case EncodingRaw, EncodingDeltaID, EncodingDeltaValue, EncodingDeltaBoth:
 		// Fixed-width encoding
-		sectionSize = uint32(len(encodedData) * 8)
+		sectionSize = uint64(len(encodedData)) * 8
 	case EncodingVarInt, EncodingVarIntID, EncodingVarIntBoth, EncodingVarIntValue:
 		// Variable-width encoding
 		encodedDataBytes = make([][]byte, len(encodedData))
 		sectionSize = 0
 		for i, d := range encodedData {
 			encodedDataBytes[i] = encodeVarIntFunc(d)
-			dataSize := uint32(len(encodedDataBytes[i]))
+			dataSize := uint64(len(encodedDataBytes[i]))
 			if dataSize == 0 {
 				return nil, nil, 0, fmt.Errorf("encoded size of data at index %d is 0", i)
 			}
-- 
2.43.0


From 0f31122c0478a07b7fc150f633778de23a6180d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 15/26] fix: let loadtest import accept maximum values below
 ten

---
 cmd/loadtest/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/loadtest/main.go b/cmd/loadtest/main.go
index 408d14b..31e0d56 100644
--- a/cmd/loadtest/main.go
+++ b/cmd/loadtest/main.go
@@ -114,8 +114,10 @@ func runImport(numValues, blockSize int, filename string, seed int64, maxValue i
 			if rng.Float64() < 0.7 {
 				// 70% of values are somewhat correlated with IDs
 				values[i] = int64(ids[i] % uint64(maxValue))
-				// Add some noise
-				values[i] += rng.Int63n(maxValue/10) - maxValue/20
+				// Add some noise, unless the values are too small for it
+				if maxValue >= 10 {
+					values[i] += rng.Int63n(maxValue/10) - maxValue/20
+				}
 			} else {
 				// 30% are completely random
 				values[i] = rng.Int63n(maxValue)
-- 
2.43.0


From 2934ad5347c36ebcbb9c9fc4acdd29eff665443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 16/26] fix: let write_example report failed writes

---
 cmd/write_example/main.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/cmd/write_example/main.go b/cmd/write_example/main.go
index ea8d7d7..b70adc7 100644
--- a/cmd/write_example/main.go
+++ b/cmd/write_example/main.go
@@ -25,14 +25,29 @@ const (
 	CompressionNone uint32 = 0
 )
 
+// outFile is a file that remembers its first failed write
+type outFile struct {
+	*os.File
+	err error
+}
+
+func (f *outFile) Write(b []byte) (int, error) {
+	n, err := f.File.Write(b)
+	if err != nil && f.err == nil {
+		f.err = err
+	}
+	return n, err
+}
+
 // writeFile writes a simple example column file with 10 int64 values
 func writeFile(filename string) error {
 	// Create the file
-	file, err := os.Create(filename)
+	created, err := os.Create(filename)
 	if err != nil {
 		return fmt.Errorf("failed to create file: %w", err)
 	}
-	defer file.Close()
+	defer created.Close()
+	file := &outFile{File: created}
 
 	// Sample data - 10 ID-value pairs
 	ids := []uint64{1, 5, 10, 15, 20, 25, 30, 35, 40, 45}
@@ -195,6 +210,13 @@ func writeFile(filename string) error {
 		return fmt.Errorf("failed to get file position: %w", err)
 	}
 	
+	if file.err != nil {
+		return fmt.Errorf("failed to write file: %w", file.err)
+	}
+	if err := file.Close(); err != nil {
+		return fmt.Errorf("failed to close file: %w", err)
+	}
+	
 	fmt.Printf("Wrote example file with %d entries to %s\n", count, filename)
 	fmt.Printf("File size: %d bytes\n", currentPos)
 	
-- 
2.43.0


From 078374b4e8025abb5087eaeb50bfa3e9074d6ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 17/26] fix: let read_example refuse an index larger than the
 file

---
 cmd/read_example/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/read_example/main.go b/cmd/read_example/main.go
index eca9a12..5416f08 100644
--- a/cmd/read_example/main.go
+++ b/cmd/read_example/main.go
@@ -193,6 +193,11 @@ func (r *Reader) readFooter() error {
 		return fmt.Errorf("failed to read block index count: %w", err)
 	}
 
+	// Every entry takes 56 bytes of the file
+	if int64(r.footer.BlockIndexCount)*56 > fileSize-0x140-4 {
+		return fmt.Errorf("invalid block index count: %d", r.footer.BlockIndexCount)
+	}
+
 	// Read block index entries
 	r.footer.Entries = make([]FooterEntry, r.footer.BlockIndexCount)
 	for i := uint32(0); i < r.footer.BlockIndexCount; i++ {
-- 
2.43.0


From d8613dfae304a473f78d9ba071b56885bc3b6ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 18/26] fix: locate index entries beyond 4 GB where they are

---
 pkg/col/reader_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index cc320f2..6e91751 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -130,7 +130,7 @@ func (r *Reader) readFooter() error {
 	// Parse the block index entries
 	r.blockIndex = make([]FooterEntry, blockIndexCount)
 	for i := uint32(0); i < blockIndexCount; i++ {
-		entryOffset := i * 56
+		entryOffset := int(i) * 56
 
 		r.blockIndex[i] = FooterEntry{
 			BlockOffset: readBufferedUint64(blockIndexBuf, int(entryOffset)),
-- 
2.43.0


From 74fed4e2e6f0120a46f65e292b5e181fdc43dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 19/26] fix: refuse to finalize an ID bitmap larger than its
 size field

---
 pkg/col/writer_finalize.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 9bda933..f76d05d 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 // writeGlobalIDBitmap writes the global ID bitmap to the file
@@ -18,6 +19,11 @@ func (w *Writer) writeGlobalIDBitmap() (uint64, uint64, error) {
 	// The sroar bitmap is already a serialized representation
 	buf := w.globalIDs.ToBuffer()
 
+	// The format stores the size of the bitmap in 32 bits
+	if uint64(len(buf)) > math.MaxUint32 {
+		return 0, 0, fmt.Errorf("global ID bitmap of %d bytes is too large", len(buf))
+	}
+
 	// Write the size of the bitmap
 	if err := binary.Write(w.file, binary.LittleEndian, uint32(len(buf))); err != nil {
 		return 0, 0, fmt.Errorf("failed to write bitmap size: %w", err)
-- 
2.43.0


From 3852ca1b3915815d775a7626a327b34d1708fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 20/26] fix: let loadtest import use maximum IDs from 2^63 on

---
 cmd/loadtest/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/loadtest/main.go b/cmd/loadtest/main.go
index 31e0d56..3493e8d 100644
--- a/cmd/loadtest/main.go
+++ b/cmd/loadtest/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"math"
 	"math/rand"
 	"os"
 	"path/filepath"
@@ -107,7 +108,11 @@ func runImport(numValues, blockSize int, filename string, seed int64, maxValue i
 			if i > 0 && rng.Float64() < 0.9 {
 				ids[i] = ids[i-1] + uint64(rng.Intn(10)+1)
 			} else {
-				ids[i] = uint64(rng.Int63n(int64(maxID)))
+				if maxID <= math.MaxInt64 {
+					ids[i] = uint64(rng.Int63n(int64(maxID)))
+				} else {
+					ids[i] = rng.Uint64() % maxID
+				}
 			}
 
 			// Generate random values with some correlation to IDs
-- 
2.43.0


From f42223ebbda028432f1616783c857dc1e04c9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:16 +0000
Subject: [PATCH 21/26] fix: let loadtest import refuse maxima without any ID
 or value

---
 cmd/loadtest/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/loadtest/main.go b/cmd/loadtest/main.go
index 3493e8d..3840044 100644
--- a/cmd/loadtest/main.go
+++ b/cmd/loadtest/main.go
@@ -61,6 +61,12 @@ func main() {
 func runImport(numValues, blockSize int, filename string, seed int64, maxValue int64, maxID uint64) {
 	fmt.Printf("Importing %d values with block size %d to %s\n", numValues, blockSize, filename)
 
+	// No random IDs and values lie below these
+	if maxValue < 1 || maxID < 1 {
+		fmt.Println("Error: max-value and max-id must be positive")
+		os.Exit(1)
+	}
+
 	// Create directory if it doesn't exist
 	dir := filepath.Dir(filename)
 	if dir != "." && dir != "" {
-- 
2.43.0


From b74f124e1e447dc6c03902516cb3205fa0dd9c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:16 +0000
Subject: [PATCH 22/26] fix: let loadtest aggregate fail when a block cannot be
 read

---
 cmd/loadtest/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/loadtest/main.go b/cmd/loadtest/main.go
index 3840044..7878f66 100644
--- a/cmd/loadtest/main.go
+++ b/cmd/loadtest/main.go
@@ -242,7 +242,7 @@ func runAggregations(reader *col.Reader, skipCache bool, parallel int) {
 		_, values, err := reader.GetPairs(i)
 		if err != nil {
 			fmt.Printf("Error reading block %d: %v\n", i, err)
-			return
+			os.Exit(1)
 		}
 		totalValues += int64(len(values))
 	}
-- 
2.43.0


From e0f819e8ec459e0ddbd21cc76e39ffa8b99f53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:17 +0000
Subject: [PATCH 23/26] fix: release the file when a simple writer's close
 fails

---
 pkg/col/simple_writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index 918ee51..5e9e69a 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -95,11 +95,13 @@ func (sw *SimpleWriter) Close() error {
 
 	// Flush any remaining data
 	if err := sw.flushIfNeeded(true); err != nil {
+		sw.writer.Close() // The file cannot be completed any more
 		return fmt.Errorf("failed to flush remaining data: %w", err)
 	}
 
 	// Finalize and close the file
 	if err := sw.writer.FinalizeAndClose(); err != nil {
+		sw.writer.Close()
 		return fmt.Errorf("failed to finalize and close file: %w", err)
 	}
 
-- 
2.43.0


From a6c30c8e67cb8e5d15afa818faa0e7448c297f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:10 +0000
Subject: [PATCH 24/26] fix: refuse size targets that do not fit 32 bits

SetTargetBlockSize(1<<32) set a target of 0 bytes, so every block held one
pair; a negative size set an unlimited target.
---
 pkg/col/simple_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index 5e9e69a..a3afe9e 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -2,6 +2,7 @@ package col
 
 import (
 	"fmt"
+	"math"
 	"sort"
 )
 
@@ -45,6 +46,11 @@ func (sw *SimpleWriter) SetTargetBlockSize(size int) error {
 		return fmt.Errorf("writer is already closed")
 	}
 
+	// The format stores the size target in 32 bits
+	if size < 0 || int64(size) > math.MaxUint32 {
+		return fmt.Errorf("invalid target block size: %d", size)
+	}
+
 	sw.targetBlockSize = size
 
 	// Also update the underlying writer's block size target
-- 
2.43.0


From aa79ee8a1f8c16683a42f7bb2a242951efa76309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:55 +0000
Subject: [PATCH 25/26] fix: loadtest refuses block sizes that do not fit 32
 bits

---
 cmd/loadtest/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/loadtest/main.go b/cmd/loadtest/main.go
index 7878f66..0aee1fa 100644
--- a/cmd/loadtest/main.go
+++ b/cmd/loadtest/main.go
@@ -67,6 +67,12 @@ func runImport(numValues, blockSize int, filename string, seed int64, maxValue i
 		os.Exit(1)
 	}
 
+	// The writer keeps its block size in 32 bits
+	if blockSize < 0 || int64(blockSize) > math.MaxUint32 {
+		fmt.Println("Error: block-size must fit into 32 bits")
+		os.Exit(1)
+	}
+
 	// Create directory if it doesn't exist
 	dir := filepath.Dir(filename)
 	if dir != "." && dir != "" {
-- 
2.43.0


From b572ad0576c2f04fc5b48b12e2e579a7bb44c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 26/26] fix: refuse blocks after finalization

---
 pkg/col/writer.go          | 1 +
 pkg/col/writer_block_io.go | 5 +++++
 pkg/col/writer_finalize.go | 8 ++++++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/col/writer.go b/pkg/col/writer.go
index 7f7c2e2..e5fc745 100644
--- a/pkg/col/writer.go
+++ b/pkg/col/writer.go
@@ -26,6 +26,7 @@ type Writer struct {
 	blockStats      []BlockStats  // Statistics for each block
 	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
 	failed          error         // First failure to write; the file is unusable from then on
+	finalized       bool          // The file is complete; nothing may be added to it
 }
 
 // NewWriter creates a new column file writer
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index ff1ad79..f05d485 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -31,6 +31,11 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 		return fmt.Errorf("file is incomplete after an earlier failure: %w", w.failed)
 	}
 
+	// A block after the footer would make the complete file unreadable
+	if w.finalized {
+		return fmt.Errorf("file is already finalized")
+	}
+
 	// First, check if the entire block would exceed the target size
 	estimatedSize, err := w.EstimateBlockSize(ids, values)
 	if err != nil {
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index f76d05d..9bfdb52 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -54,12 +54,16 @@ func (w *Writer) FinalizeAndClose() error {
 	return w.file.Close()
 }
 
-// Finalize finalizes the file by writing the footer
+// Finalize finalizes the file by writing the footer.
+// Finalizing a complete file again has no effect.
 func (w *Writer) Finalize() (err error) {
 	if w.failed != nil {
 		return fmt.Errorf("file is incomplete after an earlier failure: %w", w.failed)
 	}
-	defer func() { w.failed = err }()
+	if w.finalized {
+		return nil
+	}
+	defer func() { w.failed, w.finalized = err, err == nil }()
 
 	// Write the global ID bitmap
 	bitmapOffset, bitmapSize, err := w.writeGlobalIDBitmap()
-- 
2.43.0

