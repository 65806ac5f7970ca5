From e883c82bec97e4a1a0aaadeb8fdfed2f25a8d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 01/24] fix: node sub-indexes cover every element for any
 location and pass count

SubIndex dropped the elements past countPass*(locations/countPass), started over
from the first element when a pass had nothing left, and panicked when a pass
ended before the first element (empty index, or more passes than locations).
---
 internal/nodeindex/nodeindex.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 7d15a5e..327d470 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -73,7 +73,7 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 	endTarget := startTarget + sliceSize
 
 	runningTotal := uint64(0)
-	startIndex := uint64(0)
+	startIndex := uint64(len(subIds)) // If there's nothing left for this pass, it's empty
 	endIndex := uint64(len(subIds))
 	for i := uint64(0); i < uint64(len(subIds)); i++ {
 		if runningTotal >= startTarget {
@@ -83,7 +83,8 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
-	for i := startIndex; i < uint64(len(subIds)); i++ {
+	// The last pass takes everything that's left, the locations may not divide evenly.
+	for i := startIndex; i < uint64(len(subIds)) && curPass+1 < countPass; i++ {
 		if runningTotal >= endTarget {
 			endIndex = i
 			break
@@ -91,11 +92,16 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
+	top := uint64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].LastID()
+	}
+
 	return &NodeSubIndex{
 		parent:    idx,
 		element:   subIds[startIndex:endIndex],
 		locations: idx.locations,
-		Top:       subIds[endIndex-1].LastID(),
+		Top:       top,
 	}
 }
 
-- 
2.43.0


From b94c1bcf9a21ed0198541479e1d4020979f0595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 02/24] fix: way sub-indexes cover every way for any size and
 pass count

SubIndexWithScaledPass dropped the ways past countPass*(size/countPass), started
over from the first way when a pass had nothing left, and panicked when a pass
ended before the first way (no ways, or more passes than bytes).
---
 internal/wayindex/wayindex.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index c1a435f..1295266 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -69,8 +69,7 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 	startTarget := int64((len(idx.Loc) / countPass) * curPass)
 	endTarget := int64((len(idx.Loc) / countPass) * (curPass + 1))
 
-	startIndex := 0
-
+	startIndex := len(subIds) // If there's nothing left for this pass, it's empty
 	endIndex := len(subIds)
 	for i := 0; i < len(subIds); i++ {
 		if subIds[i].Offset()<<idx.AlignmentShift >= startTarget {
@@ -79,18 +78,24 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 		}
 	}
 
-	for i := startIndex; i < len(subIds); i++ {
+	// The last pass takes everything that's left, the locations may not divide evenly.
+	for i := startIndex; i < len(subIds) && curPass+1 < countPass; i++ {
 		if subIds[i].Offset()<<idx.AlignmentShift >= endTarget {
 			endIndex = i
 			break
 		}
 	}
 
+	top := int64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].WayID()
+	}
+
 	return &SubWayIndex{
 		parent: idx,
 		Ids:    subIds[startIndex:endIndex],
 		Loc:    idx.Loc,
-		Top:    int64(subIds[endIndex-1].WayID()),
+		Top:    top,
 	}
 }
 
-- 
2.43.0


From 98bb138815be26e12eb080c4c8891bf729d36b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 03/24] fix: node 0 or 1 at the start of a block gets its own
 index range

With no current range the last id was MaxUint64, so the ids 0 and 1 wrapped around
to look like the next id of a range: the range was lost, and the location of every
later node in the index was off.
---
 cmd/nodeindex/indexer/nodeindexer_worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 4e08c2d..43b5447 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -57,9 +57,9 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 			}
 			for idx, id := range pg.Dense.Id {
 				uid := uint64(id)
-				if uid == lastId+1 { // extend current block
+				if firstId != notAssigned && uid == lastId+1 { // extend current block
 					lastId = uid
-				} else if uid == lastId+2 {
+				} else if firstId != notAssigned && uid == lastId+2 {
 					outputLoc = append(outputLoc, 0)
 					lastId = uid
 				} else {
-- 
2.43.0


From fadc28f8e16746e76233be22c5d77691cd303353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 04/24] fix: relindex writes an empty index when there are no
 relations

The file passed between the passes is empty then, and an empty file can't be mapped.
---
 cmd/relindex/relindex.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/relindex/relindex.go b/cmd/relindex/relindex.go
index 945b618..bdb1ed5 100644
--- a/cmd/relindex/relindex.go
+++ b/cmd/relindex/relindex.go
@@ -3,9 +3,12 @@ package main
 import (
 	"context"
 	"fmt"
+	"io"
 	"os"
 	"time"
 
+	"github.com/edsrzf/mmap-go"
+
 	"github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
 	wi "github.com/squizzling/osmindex/cmd/relindex/relindexerinit/widget"
 	"github.com/squizzling/osmindex/internal/iio"
@@ -33,7 +36,11 @@ func rewrite(outputFile, inputFile string, wi *wayindex.WayIndex, pass, count in
 	fIn := iio.OsOpen(inputFile)
 	fOut := iio.OsCreate(outputFile)
 
-	m := iio.MMapMap(fIn)
+	// An empty file can't be mapped, there are no relations to rewrite.
+	var m mmap.MMap
+	if iio.FSeek(fIn, 0, io.SeekEnd) != 0 {
+		m = iio.MMapMap(fIn)
+	}
 	u := iunsafe.ByteSliceAsInt64Slice(m)
 
 	outputData := make([]int64, 0, 1048576)
@@ -87,7 +94,9 @@ func rewrite(outputFile, inputFile string, wi *wayindex.WayIndex, pass, count in
 		iio.FWriteSliceI64(fOut, outputData)
 	}
 
-	iio.MMapUnmap(m)
+	if m != nil {
+		iio.MMapUnmap(m)
+	}
 	iio.FClose(fOut)
 	iio.FClose(fIn)
 }
-- 
2.43.0


From bb7d9ef5bdb3c0bdce4d9e388f63057c58e0cff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 05/24] fix: refuse index fields one past their capacity

A count of 1<<24, a way id of 1<<31 and an offset of 1<<33 were accepted, and
overflowed into the neighbouring field or out of the entry.
---
 internal/nodeindex/count_offset.go | 2 +-
 internal/wayindex/indexdata.go     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/nodeindex/count_offset.go b/internal/nodeindex/count_offset.go
index 2413480..eb488bc 100644
--- a/internal/nodeindex/count_offset.go
+++ b/internal/nodeindex/count_offset.go
@@ -22,7 +22,7 @@ func NewCountOffset(count, offset uint64) CountOffset {
 	if offset >= OffsetMax {
 		panic("offset out of range")
 	}
-	if count > CountMax {
+	if count >= CountMax {
 		panic("too many items")
 	}
 	return CountOffset((offset << CountBits) | count)
diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index e151500..81efca5 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,10 +16,10 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID > (1 << 31) {
+	if wayID >= (1 << 31) {
 		panic("wayID too large")
 	}
-	if offset > (1 << 33) {
+	if offset >= (1 << 33) {
 		panic(fmt.Sprintf("offset too large: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
-- 
2.43.0


From f79fdf9f26eedc0c3c216e5346b8e41b877e3534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 06/24] fix: progress markup escapes and highlights a message
 that is complete

A message at 100% was returned as plain text: its percent signs were then read as
markup (and disappeared, along with the next character), and the bar went from
nearly full to not highlighted at all.
---
 internal/ui/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index 728663f..eef5a6b 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -6,7 +6,7 @@ import (
 
 func MarkupAsProgress(s string, w int, pct float64) string {
 	if w == 0 {
-		return s
+		return EscapePercent(s)
 	}
 
 	if pct < 0 {
@@ -21,9 +21,9 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 	}
 	pre := int(float64(w) * pct)
 	if pre < 0 {
-		return s
-	} else if pre >= len(s) {
-		return s
+		pre = 0
+	} else if pre > len(s) {
+		pre = len(s)
 	}
 	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
 }
-- 
2.43.0


From ddff967e5aae0350c78166d761502536f5f6a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 07/24] fix: the empty string stays first in a string table
 when it's in use

Adding it overflowed its frequency to 0, so it ended up last. Index 0 was then
another string, and a dense node tag using that string ended the node's tags.
---
 internal/t/string_table_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/t/string_table_builder.go b/internal/t/string_table_builder.go
index 2547a79..e032e96 100644
--- a/internal/t/string_table_builder.go
+++ b/internal/t/string_table_builder.go
@@ -30,7 +30,7 @@ func (stb *stringTableBuilder) AddString(s string) {
 	if _, ok := stb.stringFrequency[s]; !ok {
 		stb.stringFrequency[s] = 1
 		stb.stringList = append(stb.stringList, s)
-	} else {
+	} else if s != "" { // "" is always first, don't overflow its frequency
 		stb.stringFrequency[s] = stb.stringFrequency[s] + 1
 	}
 }
-- 
2.43.0


From 84da49694ebb28c10ec3dbe18f02900cec343ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 08/24] fix: write ways whose refs take more than 16383 bytes

A way of 2000 nodes (the limit in OSM) takes up to 20000 bytes once its refs are
locations, so rewritenodes failed on it.
---
 internal/t/primitive_group.go | 2 +-
 internal/t/way.go             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/t/primitive_group.go b/internal/t/primitive_group.go
index dda9ac0..f73cecc 100644
--- a/internal/t/primitive_group.go
+++ b/internal/t/primitive_group.go
@@ -73,7 +73,7 @@ func (pg *PrimitiveGroup) Write(buf []byte) []byte {
 
 	if pg.Ways != nil {
 		for _, w := range pg.Ways {
-			buf = pb.Embed16384(primitiveGroupWays, w.Write, buf)
+			buf = pb.Embed2097152(primitiveGroupWays, w.Write, buf)
 		}
 	} else {
 		for _, w := range pg.RawWays {
diff --git a/internal/t/way.go b/internal/t/way.go
index 20ba3c6..a6b494e 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -47,6 +47,6 @@ func (w *Way) Write(buf []byte) []byte {
 	buf = pb.EncodeIdVarInt(buf, wayId, uint64(w.ID))
 	buf = pb.Embed16384(wayKeys, pb.EncodeU32PackedFunc(w.Keys), buf)
 	buf = pb.Embed16384(wayVals, pb.EncodeU32PackedFunc(w.Vals), buf)
-	buf = pb.Embed16384(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
+	buf = pb.Embed2097152(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
 	return buf
 }
-- 
2.43.0


From c3f5e2d20736a5e8c583c2d2e0a4bff7e2662f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 09/24] fix: node lookup timing counts slow lookups in the last
 bucket

---
 internal/nodeindex/nodesubindex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/nodeindex/nodesubindex.go b/internal/nodeindex/nodesubindex.go
index d7f61ae..ebc786c 100644
--- a/internal/nodeindex/nodesubindex.go
+++ b/internal/nodeindex/nodesubindex.go
@@ -94,6 +94,10 @@ func (si *NodeSubIndex) FindNode(id uint64, hint int) (int64, int, bool) {
 			i++
 			delta /= si.parent.divFactor
 		}
+		if i > len(si.parent.lookupTimingCount) {
+			// A small factor doesn't cover slow lookups, count them in the last bucket.
+			i = len(si.parent.lookupTimingCount)
+		}
 		atomic.AddUint64(&si.parent.lookupTimingCount[i-1], 1)
 	}
 	return l, h, ok
-- 
2.43.0


From dcb5865657c580b7707d54496a0d98226bea828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 10/24] fix: keep blocks with an empty payload when
 decompressing

---
 internal/t/blob.go        | 2 +-
 internal/t/blob_header.go | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index be938e4..6f2483e 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -44,7 +44,7 @@ func (b *Blob) Write(buf []byte) []byte {
 	// If RawFunc is provided, invoke it, otherwise use Raw
 	if b.RawFunc != nil {
 		buf = pb.Embed268435456(blobRaw, b.RawFunc, buf)
-	} else if len(b.Raw) > 0 {
+	} else if b.Raw != nil {
 		buf = pb.EncodeIdBuffer(buf, blobRaw, b.Raw)
 	}
 	if b.RawSize != nil {
diff --git a/internal/t/blob_header.go b/internal/t/blob_header.go
index 9b2f2d3..3e1dd5f 100644
--- a/internal/t/blob_header.go
+++ b/internal/t/blob_header.go
@@ -36,8 +36,6 @@ func (bh *BlobHeader) Write(buf []byte) []byte {
 	if bh.Type != "" {
 		buf = pb.EncodeIdBuffer(buf, blobHeaderType, []byte(bh.Type))
 	}
-	if bh.DataSize != 0 {
-		buf = pb.EncodeIdVarInt(buf, blobHeaderDataSize, uint64(bh.DataSize))
-	}
+	buf = pb.EncodeIdVarInt(buf, blobHeaderDataSize, uint64(bh.DataSize))
 	return buf
 }
-- 
2.43.0


From a1abb6dab745b536e19bfe6f2a04b65ca4fc24cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 11/24] fix: refuse a field length that exceeds its message

---
 internal/pb/buffer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/pb/buffer.go b/internal/pb/buffer.go
index 318835a..0732e2a 100644
--- a/internal/pb/buffer.go
+++ b/internal/pb/buffer.go
@@ -4,8 +4,17 @@ func DecodeBytes(buf []byte, next *int) []byte {
 	return ReadBytes(buf, next)
 }
 
-func ReadBytes(buf []byte, next *int) []byte {
+// decodeLength reads the length of a field, which has to fit in what is left of buf.
+func decodeLength(buf []byte, next *int) int {
 	byteLength := int(DecodeVarInt(buf, next))
+	if byteLength < 0 || byteLength > len(buf)-*next {
+		panic("length exceeds buffer")
+	}
+	return byteLength
+}
+
+func ReadBytes(buf []byte, next *int) []byte {
+	byteLength := decodeLength(buf, next)
 	outputBuffer := buf[*next : *next+byteLength]
 	*next += byteLength
 	return outputBuffer
@@ -22,7 +31,7 @@ func EncodeBuffer(bufOutput []byte, bufInput []byte) []byte {
 }
 
 func SkipBytes(buf []byte, next *int) {
-	byteLength := int(DecodeVarInt(buf, next))
+	byteLength := decodeLength(buf, next)
 	*next += byteLength
 }
 
-- 
2.43.0


From d143aeb8081ef4039ac56aca0eafc5b3e70ae447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 12/24] fix: refuse compressed data that is damaged or longer
 than its declared size

---
 internal/t/blob.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index 6f2483e..e35bdf2 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"io"
 
 	"github.com/squizzling/osmindex/internal/pb"
 	"github.com/squizzling/osmindex/internal/pool"
@@ -76,19 +77,16 @@ func (b *Blob) decodeZLib() pool.BorrowedBuffer {
 	borrowedBuffer := pool.ByteSlice.Get(uint64(*b.RawSize))
 	outBuf := borrowedBuffer.Buffer
 
-	remaining := int(*b.RawSize)
-	start := 0
-	for remaining > 0 {
-		remainingBuffer := outBuf[start:cap(outBuf)]
-		read, err := zlibReader.Read(remainingBuffer)
-		remaining -= read
-		start += read
-		if remaining == 0 {
-			return borrowedBuffer
-		}
-		if err != nil {
-			panic(err)
-		}
+	if _, err := io.ReadFull(zlibReader, outBuf); err != nil {
+		panic(err)
+	}
+
+	// The data has to end here, the checksum is verified when it does.
+	var extra [1]byte
+	if _, err := io.ReadFull(zlibReader, extra[:]); err == nil {
+		panic("data exceeds raw size")
+	} else if err != io.EOF {
+		panic(err)
 	}
 
 	return borrowedBuffer
-- 
2.43.0


From 5b49f0411294446ea36b1b9ff0974fb27c9b37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 13/24] fix: progress markup measures a message in characters,
 not bytes

---
 internal/ui/format.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index eef5a6b..1203d40 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -15,17 +15,18 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 		pct = 1
 	}
 
-	pad := w - len(s)
+	r := []rune(s) // one column each, a filename isn't necessarily ASCII
+	pad := w - len(r)
 	if pad > 0 {
-		s = s + strings.Repeat(" ", pad)
+		r = append(r, []rune(strings.Repeat(" ", pad))...)
 	}
 	pre := int(float64(w) * pct)
 	if pre < 0 {
 		pre = 0
-	} else if pre > len(s) {
-		pre = len(s)
+	} else if pre > len(r) {
+		pre = len(r)
 	}
-	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
+	return "%S" + EscapePercent(string(r[:pre])) + "%N" + EscapePercent(string(r[pre:]))
 }
 
 func EscapePercent(s string) string {
-- 
2.43.0


From 28a724e152c286fb2cbca779381e050cee190e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 14/24] fix: a cancelled run is not reported as success

---
 cmd/decompress/decompress.go                |  2 ++
 cmd/nodeindex/indexer/nodeindexer_writer.go |  6 ++++++
 cmd/nodeindex/nodeindex.go                  |  2 ++
 cmd/relindex/relindex.go                    |  5 +++++
 cmd/rewritenodes/rewritenodes.go            | 11 ++++++++++-
 cmd/tagfilter/tagfilter.go                  |  2 ++
 cmd/wayindex/wayindex.go                    |  2 ++
 internal/icontext/context.go                | 12 ++++++++++++
 8 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/cmd/decompress/decompress.go b/cmd/decompress/decompress.go
index 1fbb9b8..767abf6 100644
--- a/cmd/decompress/decompress.go
+++ b/cmd/decompress/decompress.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/decompress/decompressor"
 	wcmd "github.com/squizzling/osmindex/cmd/decompress/decompressor/widget"
+	"github.com/squizzling/osmindex/internal/icontext"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
@@ -40,5 +41,6 @@ func main() {
 	)
 	pfs.Wait()
 	mainUI.Stop()
+	icontext.ExitIfCancelled(ctx, teardown)
 	fmt.Printf("Total run time: %s\n", time.Since(startTime))
 }
diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index 06f6df0..a71c275 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -64,6 +64,12 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 		iio.FClose(outputFileLoc)
 		iio.OsRemove(outputFileName + ".loc.tmp")
 
+		if icontext.IsCancelled(ctx) {
+			// Without a version, the incomplete index won't be taken for a complete one.
+			iio.FClose(outputFileIdx)
+			return
+		}
+
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
 		iio.FSeek(outputFileIdx, 0, io.SeekStart)
diff --git a/cmd/nodeindex/nodeindex.go b/cmd/nodeindex/nodeindex.go
index 01809b8..ad723a8 100644
--- a/cmd/nodeindex/nodeindex.go
+++ b/cmd/nodeindex/nodeindex.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/nodeindex/indexer"
 	wcmd "github.com/squizzling/osmindex/cmd/nodeindex/indexer/widget"
+	"github.com/squizzling/osmindex/internal/icontext"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
@@ -40,5 +41,6 @@ func main() {
 	)
 	pfs.Wait()
 	mainUI.Stop()
+	icontext.ExitIfCancelled(ctx, teardown)
 	fmt.Printf("Total run time: %s\n", time.Since(startTime))
 }
diff --git a/cmd/relindex/relindex.go b/cmd/relindex/relindex.go
index bdb1ed5..021d92e 100644
--- a/cmd/relindex/relindex.go
+++ b/cmd/relindex/relindex.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
 	wi "github.com/squizzling/osmindex/cmd/relindex/relindexerinit/widget"
+	"github.com/squizzling/osmindex/internal/icontext"
 	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/iunsafe"
 	"github.com/squizzling/osmindex/internal/pbf"
@@ -131,6 +132,10 @@ func main() {
 	)
 	pfs.Wait()
 	mainUI.Stop()
+	if icontext.IsCancelled(ctx) {
+		iio.OsRemoveTry(filePass(0))
+	}
+	icontext.ExitIfCancelled(ctx, teardown)
 
 	ix := wayindex.NewWayIndex(opts.WayIndex, nil)
 	for i := 0; i < opts.Passes; i++ {
diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index a09073c..825f634 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
 	wcmd "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
+	"github.com/squizzling/osmindex/internal/icontext"
 	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
@@ -76,14 +77,22 @@ func main() {
 			wui.NewWidgetCmd(nr, wcmd.NewWidgetStateWorker, wcmd.NewWidgetStateWriter),
 		)
 		pfs.Wait()
+		if icontext.IsCancelled(ctx) {
+			break
+		}
 		passTimes = append(passTimes, time.Since(passStartTime))
 	}
 
-	if passes > 1 {
+	if icontext.IsCancelled(ctx) {
+		for i := uint64(1); i < passes; i++ {
+			iio.OsRemoveTry(makePassFilename(opts.OutputFile, i, passes))
+		}
+	} else if passes > 1 {
 		iio.OsRemove(makePassFilename(opts.OutputFile, passes-1, passes))
 	}
 
 	mainUI.Stop()
+	icontext.ExitIfCancelled(ctx, teardown)
 
 	ix.PrintStats()
 
diff --git a/cmd/tagfilter/tagfilter.go b/cmd/tagfilter/tagfilter.go
index 6928424..089ef56 100644
--- a/cmd/tagfilter/tagfilter.go
+++ b/cmd/tagfilter/tagfilter.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
 	wcmd "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer/widget"
+	"github.com/squizzling/osmindex/internal/icontext"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
@@ -41,6 +42,7 @@ func main() {
 	)
 	pfs.Wait()
 	mainUI.Stop()
+	icontext.ExitIfCancelled(ctx, teardown)
 
 	fmt.Printf("Total run time: %s\n", time.Since(startTime))
 }
diff --git a/cmd/wayindex/wayindex.go b/cmd/wayindex/wayindex.go
index ef0ff98..5fe7909 100644
--- a/cmd/wayindex/wayindex.go
+++ b/cmd/wayindex/wayindex.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/wayindex/wayindexer"
 	wi "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/widget"
+	"github.com/squizzling/osmindex/internal/icontext"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
@@ -40,5 +41,6 @@ func main() {
 	)
 	pfs.Wait()
 	mainUI.Stop()
+	icontext.ExitIfCancelled(ctx, teardown)
 	fmt.Printf("Total run time: %s\n", time.Since(startTime))
 }
diff --git a/internal/icontext/context.go b/internal/icontext/context.go
index 0b671c2..a215730 100644
--- a/internal/icontext/context.go
+++ b/internal/icontext/context.go
@@ -2,6 +2,8 @@ package icontext
 
 import (
 	"context"
+	"fmt"
+	"os"
 )
 
 func IsCancelled(ctx context.Context) bool {
@@ -12,3 +14,13 @@ func IsCancelled(ctx context.Context) bool {
 		return false
 	}
 }
+
+// ExitIfCancelled ends the program unsuccessfully if ctx has been cancelled, as its output
+// is not complete then.
+func ExitIfCancelled(ctx context.Context, teardown func()) {
+	if IsCancelled(ctx) {
+		teardown()
+		fmt.Fprintln(os.Stderr, "Cancelled, the output is not complete")
+		os.Exit(1)
+	}
+}
-- 
2.43.0


From d591c7b4fd448a1017aca2b8837559943fa2e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 15/24] fix: tagfilter closes its output, so that a failure at
 the close is reported

---
 cmd/tagfilter/tagfilterer/tagfilterer_writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
index cb69108..7cefbbd 100644
--- a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
+++ b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
@@ -44,5 +44,7 @@ func (tf *TagFilterer) Writer(filename string) pbf.WriteFunc {
 
 			tf.writer.SetCurrentState(state.WriterReading)
 		}
+
+		iio.FClose(outputFile)
 	}
 }
-- 
2.43.0


From 1c2ab4cd55485b0972600fe251a1c2c5ffa37be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 16/24] fix: relindex refuses a number of passes below one

---
 cmd/relindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index d9c1150..e6f1832 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -52,6 +52,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Passes < 1 {
+		errors = append(errors, "passes must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
-- 
2.43.0


From 5c4d188701a6edf8bc6b4348765e0099fcdf28ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 17/24] fix: rewritenodes refuses a timing factor it would
 divide by forever

---
 cmd/rewritenodes/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 6a12eb0..25e8fee 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -49,6 +49,10 @@ func parseArgs(args []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Timing != nil && *opts.Timing <= 1 {
+		errors = append(errors, "timing must be above 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
-- 
2.43.0


From ee7a3ea7284799a9174dc90774a07d7e1f665e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 18/24] fix: dumpwayindex refuses a negative sub-index

---
 cmd/dumpwayindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/dumpwayindex/args.go b/cmd/dumpwayindex/args.go
index 7bb2938..5c2d3f5 100644
--- a/cmd/dumpwayindex/args.go
+++ b/cmd/dumpwayindex/args.go
@@ -53,6 +53,10 @@ This is mainly a scratch application for debugging the index.`
 		errors = append(errors, "sub-index-count and sub-index-index must be specified together")
 	}
 
+	if opts.SubIndexIndex != nil && *opts.SubIndexIndex < 0 {
+		errors = append(errors, "sub-index-index must not be negative")
+	}
+
 	if opts.SubIndexCount != nil && opts.SubIndexIndex != nil && *opts.SubIndexIndex >= *opts.SubIndexCount {
 		errors = append(errors, "sub-index-index must be below sub-index-count")
 	}
-- 
2.43.0


From ed4a8a1465bdb083cd79fcf34824691d54918a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 19/24] fix: a number of workers below one is refused, nothing
 would read the blocks

---
 cmd/blockcount/args.go   | 4 ++++
 cmd/decompress/args.go   | 4 ++++
 cmd/entitycount/args.go  | 4 ++++
 cmd/entityfind/args.go   | 4 ++++
 cmd/nodeindex/args.go    | 4 ++++
 cmd/relindex/args.go     | 4 ++++
 cmd/rewritenodes/args.go | 4 ++++
 cmd/tagfilter/args.go    | 4 ++++
 cmd/wayindex/args.go     | 4 ++++
 9 files changed, 36 insertions(+)

diff --git a/cmd/blockcount/args.go b/cmd/blockcount/args.go
index 00fe500..7ab5c0d 100644
--- a/cmd/blockcount/args.go
+++ b/cmd/blockcount/args.go
@@ -44,6 +44,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	// Validation results
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
diff --git a/cmd/decompress/args.go b/cmd/decompress/args.go
index e804580..a9cc02a 100644
--- a/cmd/decompress/args.go
+++ b/cmd/decompress/args.go
@@ -48,6 +48,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	// Validation results
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
diff --git a/cmd/entitycount/args.go b/cmd/entitycount/args.go
index b6893f8..babf1cc 100644
--- a/cmd/entitycount/args.go
+++ b/cmd/entitycount/args.go
@@ -44,6 +44,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/entityfind/args.go b/cmd/entityfind/args.go
index a38623d..1a4216b 100644
--- a/cmd/entityfind/args.go
+++ b/cmd/entityfind/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index 992ace4..81d1518 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -48,6 +48,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index e6f1832..a7b171c 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -52,6 +52,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if opts.Passes < 1 {
 		errors = append(errors, "passes must be at least 1")
 	}
diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 25e8fee..fd583f5 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -49,6 +49,10 @@ func parseArgs(args []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if opts.Timing != nil && *opts.Timing <= 1 {
 		errors = append(errors, "timing must be above 1")
 	}
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index a257305..27386ff 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -46,6 +46,10 @@ func parseArgs(args []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 7802d1c..469fc2f 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -49,6 +49,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
-- 
2.43.0


From 48b132c062e69a65497bfedd744bbe98a8a0e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 20/24] fix: the display reads the size of the file with
 synchronisation

---
 internal/pbf/process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pbf/process.go b/internal/pbf/process.go
index ec5da67..2849f0b 100644
--- a/internal/pbf/process.go
+++ b/internal/pbf/process.go
@@ -47,7 +47,7 @@ func (pfs *ProcessFileState) At() uint64 {
 }
 
 func (pfs *ProcessFileState) Max() uint64 {
-	return pfs.max
+	return atomic.LoadUint64(&pfs.max)
 }
 
 func (pfs *ProcessFileState) Wait() {
@@ -98,7 +98,7 @@ func (pfs *ProcessFileState) processFileWork(
 	}
 
 	atomic.StoreUint64(&pfs.at, 0)
-	pfs.max = uint64(len(inputBuffer))
+	atomic.StoreUint64(&pfs.max, uint64(len(inputBuffer)))
 
 	blobIndex := uint64(0)
 
-- 
2.43.0


From c05b59620743e13c8f84e2a625dfccb6215b629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 21/24] fix: way index fields below zero are refused, they
 would alias another value

---
 internal/wayindex/indexdata.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index 81efca5..fcebabd 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,11 +16,11 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID >= (1 << 31) {
-		panic("wayID too large")
+	if wayID < 0 || wayID >= (1<<31) {
+		panic(fmt.Sprintf("wayID out of range: %d\n", wayID))
 	}
-	if offset >= (1 << 33) {
-		panic(fmt.Sprintf("offset too large: %d\n", offset))
+	if offset < 0 || offset >= (1<<33) {
+		panic(fmt.Sprintf("offset out of range: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
 }
-- 
2.43.0


From 176c83e683149081fc37d9cee9bc07d55b19e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 22/24] fix: reports that cannot be written fail the tool
 instead of being cut short silently

---
 cmd/blockcount/blockcount.go       |  6 +++---
 cmd/dumpnodeindex/dumpnodeindex.go | 14 +++++++-------
 cmd/dumpwayindex/dumpwayindex.go   |  8 ++++----
 cmd/entitycount/entitycount.go     | 12 ++++++------
 cmd/entityfind/entityfind.go       |  8 ++++----
 internal/iio/wrappers.go           |  7 +++++++
 6 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/cmd/blockcount/blockcount.go b/cmd/blockcount/blockcount.go
index 5ddd903..66add31 100644
--- a/cmd/blockcount/blockcount.go
+++ b/cmd/blockcount/blockcount.go
@@ -2,11 +2,11 @@ package main
 
 import (
 	"context"
-	"fmt"
 	"os"
 	"sync/atomic"
 	"time"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/system"
 )
@@ -37,6 +37,6 @@ func main() {
 		opts.Workers,
 	).Wait()
 
-	fmt.Printf("Counted %d blocks\n", atomic.LoadUint64(&blockCount))
-	fmt.Printf("Total run time: %s\n", time.Since(startTime))
+	iio.Printf("Counted %d blocks\n", atomic.LoadUint64(&blockCount))
+	iio.Printf("Total run time: %s\n", time.Since(startTime))
 }
diff --git a/cmd/dumpnodeindex/dumpnodeindex.go b/cmd/dumpnodeindex/dumpnodeindex.go
index 8698229..612897e 100644
--- a/cmd/dumpnodeindex/dumpnodeindex.go
+++ b/cmd/dumpnodeindex/dumpnodeindex.go
@@ -1,9 +1,9 @@
 package main
 
 import (
-	"fmt"
 	"os"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/morton"
 	"github.com/squizzling/osmindex/internal/nodeindex"
 	"github.com/squizzling/osmindex/internal/system"
@@ -37,7 +37,7 @@ func main() {
 	for currentElement := startElement; currentElement < endElement; currentElement++ {
 		element := si.Element(currentElement)
 		if false {
-			fmt.Printf("[%d] = %d+%d==%d @ %d\n",
+			iio.Printf("[%d] = %d+%d==%d @ %d\n",
 				currentElement,
 				element.FirstID(),
 				element.Count(),
@@ -52,10 +52,10 @@ func main() {
 
 					extract = uint64(si.Location(element.Offset() + idx))
 					if extract == 0 {
-						fmt.Printf("Extract: skip\n")
+						iio.Printf("Extract: skip\n")
 					} else {
 						lng, lat := morton.DecodeLocation(extract)
-						fmt.Printf("Extract: %x (%f, %f) [%d+%d=%d]\n",
+						iio.Printf("Extract: %x (%f, %f) [%d+%d=%d]\n",
 							extract,
 							float64(lng)/10_000_000, float64(lat)/10_000_000,
 							element.FirstID(),
@@ -68,10 +68,10 @@ func main() {
 					l, _, found := si.FindNode(element.FirstID()+idx, 0)
 					search = uint64(l)
 					if !found {
-						fmt.Printf(" Search: skip\n")
+						iio.Printf(" Search: skip\n")
 					} else {
 						lng, lat := morton.DecodeLocation(search)
-						fmt.Printf(" Search: %x (%f, %f)\n",
+						iio.Printf(" Search: %x (%f, %f)\n",
 							search,
 							float64(lng)/10_000_000, float64(lat)/10_000_000,
 						)
@@ -80,7 +80,7 @@ func main() {
 
 				if opts.PrintLocations && opts.SearchIndex {
 					if extract != search {
-						fmt.Printf("XX MISMATCH!\n")
+						iio.Printf("XX MISMATCH!\n")
 					}
 				}
 			}
diff --git a/cmd/dumpwayindex/dumpwayindex.go b/cmd/dumpwayindex/dumpwayindex.go
index 36a6805..81285da 100644
--- a/cmd/dumpwayindex/dumpwayindex.go
+++ b/cmd/dumpwayindex/dumpwayindex.go
@@ -1,9 +1,9 @@
 package main
 
 import (
-	"fmt"
 	"os"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/pb"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/wayindex"
@@ -28,14 +28,14 @@ func main() {
 		if opts.PrintLocations {
 			printBytes := ix.Loc[data.Offset()<<ix.AlignmentShift:]
 			printLocs := pb.DecodeS64PackedDeltaZero(printBytes)
-			fmt.Printf("%d %v\n", data.WayID(), printLocs)
+			iio.Printf("%d %v\n", data.WayID(), printLocs)
 		}
 		if opts.SearchIndex {
 			searchLocs, _, ok := si.FindLocations(data.WayID(), 0)
 			if !ok {
-				fmt.Printf("XX failed to find way %d\n", data.WayID())
+				iio.Printf("XX failed to find way %d\n", data.WayID())
 			} else {
-				fmt.Printf("%d %v\n", data.WayID(), searchLocs)
+				iio.Printf("%d %v\n", data.WayID(), searchLocs)
 			}
 		}
 	}
diff --git a/cmd/entitycount/entitycount.go b/cmd/entitycount/entitycount.go
index bcd3b2c..7434260 100644
--- a/cmd/entitycount/entitycount.go
+++ b/cmd/entitycount/entitycount.go
@@ -2,12 +2,12 @@ package main
 
 import (
 	"context"
-	"fmt"
 	"os"
 	"sync/atomic"
 
 	"github.com/edsrzf/mmap-go"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/pool"
 	"github.com/squizzling/osmindex/internal/system"
@@ -108,9 +108,9 @@ func main() {
 		opts.Workers,
 	).Wait()
 
-	fmt.Printf("Counted %d blocks\n", blockCount)
-	fmt.Printf("Counted %d nodes, %d max\n", nodeCount, maxNode)
-	fmt.Printf("Counted %d ways, %d max\n", wayCount, maxWay)
-	fmt.Printf("Counted %d ways refs, %d maximum length\n", wayRefCount, maxWayRefCount)
-	fmt.Printf("Counted %d relations, %d max\n", relationCount, maxRelation)
+	iio.Printf("Counted %d blocks\n", blockCount)
+	iio.Printf("Counted %d nodes, %d max\n", nodeCount, maxNode)
+	iio.Printf("Counted %d ways, %d max\n", wayCount, maxWay)
+	iio.Printf("Counted %d ways refs, %d maximum length\n", wayRefCount, maxWayRefCount)
+	iio.Printf("Counted %d relations, %d max\n", relationCount, maxRelation)
 }
diff --git a/cmd/entityfind/entityfind.go b/cmd/entityfind/entityfind.go
index c612ff2..2446b12 100644
--- a/cmd/entityfind/entityfind.go
+++ b/cmd/entityfind/entityfind.go
@@ -2,11 +2,11 @@ package main
 
 import (
 	"context"
-	"fmt"
 	"os"
 
 	"github.com/edsrzf/mmap-go"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/pool"
 	"github.com/squizzling/osmindex/internal/system"
@@ -43,21 +43,21 @@ func findEntity(ids []uint64) pbf.WorkFunc {
 			ns := pb.ToNodes()
 			for _, n := range ns {
 				if isIn(ids, uint64(n.Id)) {
-					fmt.Printf("%#v\n", n)
+					iio.Printf("%#v\n", n)
 				}
 			}
 
 			ws := pb.ToWays()
 			for _, w := range ws {
 				if isIn(ids, uint64(w.Id)) {
-					fmt.Printf("%#v\n", w)
+					iio.Printf("%#v\n", w)
 				}
 			}
 
 			rs := pb.ToRelations()
 			for _, r := range rs {
 				if isIn(ids, uint64(r.Id)) {
-					fmt.Printf("%#v\n", r)
+					iio.Printf("%#v\n", r)
 				}
 			}
 
diff --git a/internal/iio/wrappers.go b/internal/iio/wrappers.go
index 8cca215..47e9efd 100644
--- a/internal/iio/wrappers.go
+++ b/internal/iio/wrappers.go
@@ -1,6 +1,7 @@
 package iio
 
 import (
+	"fmt"
 	"io"
 	"os"
 
@@ -137,3 +138,9 @@ func OsRename(from, to string) {
 		panic(err)
 	}
 }
+
+func Printf(format string, a ...interface{}) {
+	if _, err := fmt.Printf(format, a...); err != nil {
+		panic(err)
+	}
+}
-- 
2.43.0


From 1b11e68ea211e87edfefd9f622c6e42651c2f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:22 +0000
Subject: [PATCH 23/24] fix: write blocks whose node ids or coordinates take
 more than 2 MiB

---
 internal/t/dense_nodes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/t/dense_nodes.go b/internal/t/dense_nodes.go
index 38c6b20..66f3512 100644
--- a/internal/t/dense_nodes.go
+++ b/internal/t/dense_nodes.go
@@ -45,9 +45,9 @@ func ReadDenseNodes(buf []byte, dn *DenseNodes) {
 }
 
 func (dn *DenseNodes) Write(buf []byte) []byte {
-	buf = pb.Embed2097152(denseNodesId, pb.EncodeS64PackedDeltaFunc(dn.Id), buf)
-	buf = pb.Embed2097152(denseNodesLat, pb.EncodeS64PackedDeltaFunc(dn.Lat), buf)
-	buf = pb.Embed2097152(denseNodesLon, pb.EncodeS64PackedDeltaFunc(dn.Lon), buf)
+	buf = pb.Embed268435456(denseNodesId, pb.EncodeS64PackedDeltaFunc(dn.Id), buf)
+	buf = pb.Embed268435456(denseNodesLat, pb.EncodeS64PackedDeltaFunc(dn.Lat), buf)
+	buf = pb.Embed268435456(denseNodesLon, pb.EncodeS64PackedDeltaFunc(dn.Lon), buf)
 	if len(dn.KeyVals) > 0 {
 		buf = pb.Embed268435456(denseNodesKeyVals, pb.EncodeI32PackedFunc(dn.KeyVals), buf)
 	}
-- 
2.43.0


From 7bd1c3daa875f77d86d0af78353402eca9684620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:38 +0000
Subject: [PATCH 24/24] fix: rewritenodes -m with 2^44 or more crashed or used
 many passes

The target was multiplied to bytes beyond 64 bits.
---
 cmd/rewritenodes/rewritenodes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index 825f634..e3f8240 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"fmt"
+	"math"
 	"os"
 	"time"
 
@@ -38,6 +39,9 @@ func main() {
 
 	if opts.Memory != nil {
 		memTarget := *opts.Memory * 1048576
+		if *opts.Memory > math.MaxUint64/1048576 {
+			memTarget = math.MaxUint64 // more than any index needs, don't overflow
+		}
 		memRequired := ix.LocationCount() * 8
 		passes = (memRequired / memTarget) + 1
 	}
-- 
2.43.0

